"""Deterministic simulator with fault injection for pythonbmp."""
