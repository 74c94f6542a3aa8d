"""Runtime monitors for QuanGuru (see DESIGN.md)."""
