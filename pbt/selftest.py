"""Set-up check: the interpreter, Hypothesis and the code under test can be imported; nothing has to be built."""
from . import env

import hypothesis
import numpy
import scipy

print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, 'scipy', scipy.__version__, 'code', env.REPO)
