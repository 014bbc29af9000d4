"""C02: a step writes exactly one time step and nothing else."""
from wmc import stepcheck

LEVEL = 'model_checking'
PARTS = stepcheck.parts(('frame',))
