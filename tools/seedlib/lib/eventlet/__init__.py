"""Minimal stand-in: sleep calls the hooks the demonstration sets, spawn keeps the functions for it."""
