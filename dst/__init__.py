"""Deterministic simulation with fault injection for spylls."""
