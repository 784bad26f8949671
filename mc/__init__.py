"""Bounded exhaustive exploration (explicit-state model checking) of the real resqpy code."""
