"""
Make `import postgresql` use /repo's Python sources together with the C extension
that run.py compiled out of tree (or with no extension at all).
"""
import importlib.abc, importlib.machinery, importlib.util, os, sys

NAME = 'postgresql.port.optimized'

class Finder(importlib.abc.MetaPathFinder):
	def __init__(self, path):
		self.path = path

	def find_spec(self, fullname, path=None, target=None):
		if fullname != NAME:
			return None
		if self.path in (None, '', 'none'):
			raise ModuleNotFoundError('extension disabled by the harness', name=NAME)
		loader = importlib.machinery.ExtensionFileLoader(fullname, self.path)
		return importlib.util.spec_from_file_location(fullname, self.path, loader=loader)

def install(path):
	sys.meta_path.insert(0, Finder(path))
	repo = os.environ.get('VF_REPO', '/repo')
	if repo not in sys.path:
		sys.path.insert(1, repo)
	import postgresql
	f = os.path.abspath(postgresql.__file__)
	if not f.startswith(repo + '/'):
		raise ImportError('postgresql does not come from %s: %s' % (repo, f))

def env_ext():
	return os.environ.get('VF_EXT')

def pure_copy(*names):
	"""A second, independent import of the given modules with the extension disabled."""
	import importlib
	mine = [k for k in sys.modules if k == 'postgresql' or k.startswith('postgresql.')]
	saved = {k: sys.modules.pop(k) for k in mine}
	finder = [f for f in sys.meta_path if isinstance(f, Finder)][0]
	path, finder.path = finder.path, 'none'
	try:
		out = [importlib.import_module(n) for n in names]
	finally:
		finder.path = path
		for k in [k for k in sys.modules if k == 'postgresql' or k.startswith('postgresql.')]:
			del sys.modules[k]
		sys.modules.update(saved)
	return out
