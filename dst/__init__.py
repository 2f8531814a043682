"""Deterministic-simulation harness for carbon-simulator (see /verif/DESIGN.md)."""
