"""Deterministic simulation of IMPROVER: seeded schedules and faults around the real code."""
