"""Bounded symbolic execution of the real Python code of /repo with z3."""
