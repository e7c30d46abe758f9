"""Runtime-monitoring harness for xboa (see /verif/DESIGN.md)."""
