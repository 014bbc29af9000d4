"""C03: controlled objects follow their own action, all others the log."""
from wmc import stepcheck

LEVEL = 'model_checking'
PARTS = stepcheck.parts(('motion',))
