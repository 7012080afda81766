"""Deterministic simulation of angler: one seed is one exactly repeatable execution."""
