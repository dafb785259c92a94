"""Runtime-monitoring framework for robuststats (see /verif/DESIGN.md)."""
