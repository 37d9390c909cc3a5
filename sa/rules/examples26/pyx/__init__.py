from . import shape, wrong
