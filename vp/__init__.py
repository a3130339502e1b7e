"""Property-based verification machinery for tad-dftd4 (see DESIGN.md)."""
