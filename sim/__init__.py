"""Deterministic simulation of dg1d with fault injection (see /verif/DESIGN.md)."""
