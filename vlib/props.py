"""The checks, one per property."""
from . import codec, world, nodes, conc, net
CHECKS = {}
CHECKS.update(codec.CHECKS)
CHECKS.update(world.CHECKS)
CHECKS.update(nodes.CHECKS)
CHECKS.update(conc.CHECKS)
CHECKS.update(net.CHECKS)
