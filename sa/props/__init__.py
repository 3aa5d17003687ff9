from . import mats, quats, shapes, pairs, convex, effects, witness, rel, compose, accuracy

REGISTRY = {}
for _m in (mats, quats, shapes, pairs, convex, effects, witness, rel, compose, accuracy):
    REGISTRY.update(_m.CHECKS)
