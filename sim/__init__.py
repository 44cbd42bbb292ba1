"""Deterministic simulation with fault injection for MeshiPhi (see DESIGN.md)."""
