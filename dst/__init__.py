"""Deterministic simulation of cloudnetpy (see /verif/DESIGN.md)."""
