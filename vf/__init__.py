"""Path-forking symbolic executor for the real qLDPC source code (see DESIGN.md)."""
