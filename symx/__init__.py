"""Symbolic execution of the real swprocess sources, decided by z3."""
