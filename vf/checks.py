"""The checks, one for each property."""
from . import maps, lists, trees, arrays, alloc, aspects, bits, multi, cost, builds
CHECKS = {}
for m in (maps, lists, trees, arrays, alloc, aspects, bits, multi, cost, builds):
    CHECKS.update(m.CHECKS)
