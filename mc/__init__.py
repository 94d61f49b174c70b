"""Bounded exhaustive exploration (model checking) of melodist's observable behaviour."""
