"""Deterministic simulation with fault injection for qmat (see DESIGN.md)."""
