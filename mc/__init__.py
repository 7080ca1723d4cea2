"""Bounded exhaustive exploration of the real GPSKet code against reference models."""
