"""Deterministic simulation framework for the Pulumi Python SDK."""
