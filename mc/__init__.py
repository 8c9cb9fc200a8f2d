"""Bounded exhaustive (explicit-state) exploration of the RAINBOW implementation."""
