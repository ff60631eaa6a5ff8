"""Deterministic simulation of a Gem infrasound deployment around the real gemlog code."""
