"""Property-based checking engine for cldf/csvw (see ../DESIGN.md)."""
