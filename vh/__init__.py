"""Property-based verification harness for dyna-pi (see /verif/DESIGN.md)."""
