"""Deterministic simulation with fault injection for pygerber."""
