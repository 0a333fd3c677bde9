"""Simulated instruments: each writes raw files in its vendor format and knows
what a faithful conversion must say about every record it emitted."""
