from . import solver_nfw_lib
from .solver_nfw_lib import Solver
