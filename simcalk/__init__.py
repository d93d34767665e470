"""Deterministic simulation with fault injection for mvdh7/calkulate."""
