from numba import extending
from numba import types
from numba.core import errors
from numba.core import utils
