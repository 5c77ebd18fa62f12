"""Runtime monitors for mappyfile (see /verif/DESIGN.md)."""
