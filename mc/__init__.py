"""Bounded model checking of GroCo: see /verif/DESIGN.md."""
