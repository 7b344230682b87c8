"""Property-based testing machinery for Kitware/pyBSM (see DESIGN.md)."""
