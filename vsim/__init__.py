"""Deterministic simulator for jsonpickle."""
