"""Contract-based deductive verifier for sopht-backend (see /verif/DESIGN.md)."""
