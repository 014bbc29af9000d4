"""C04: validity of every object evolves by the documented rule."""
from wmc import stepcheck

LEVEL = 'model_checking'
PARTS = stepcheck.parts(('validity',))
