"""Runtime-monitoring machinery for python-postgres/fe (see /verif/DESIGN.md)."""
