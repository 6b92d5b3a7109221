"""Runtime monitors for shipgrav (see ../DESIGN.md)."""
