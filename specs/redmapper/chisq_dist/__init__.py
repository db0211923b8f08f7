from . import chisq_dist_lib
from .chisq_dist_lib import compute_chisq
