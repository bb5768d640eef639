"""Solver-based symbolic execution of the real utg sources (see /verif/DESIGN.md)."""
