"""Shared machinery of the runtime-monitoring checks."""
