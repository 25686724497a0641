"""Deterministic simulation of DPPy with fault injection (see DESIGN.md)."""
