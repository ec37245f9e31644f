"""Deterministic simulation framework for hermespy (see /verif/DESIGN.md)."""
