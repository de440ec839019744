"""PyVC: a deductive verifier for the Python code in /repo (see DESIGN.md)."""
