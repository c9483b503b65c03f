"""pyvc: a contract-based deductive verifier for the Python subset used by /repo."""
