"""Stand-in for the `conda` package, which is not installed in this sandbox (see /verif/DESIGN.md)."""
