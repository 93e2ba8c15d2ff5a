"""The helpers which structure modifiers rely on (contracts proved under P19)."""
from .helpers import CONTRACTS as ALL

CONTRACTS = [c for c in ALL if c.fn in ('cpb::slice', 'cpb::concat')]
