"""Property-based checking machinery for pyuvdata (see /verif/DESIGN.md)."""
