import os
os.environ['MKL_NUM_THREADS'] = '1'
os.environ['NUMEXPR_NUM_THREADS'] = '1'
os.environ['OMP_NUM_THREADS'] = '1'
from ._version import __version__, __version_tuple__
version = __version__
from . import calibration
from . import pipeline
from . import redmagic
from .configuration import Configuration
from .runcat import RunCatalog
from .run_zscan import RunZScan
from .solver_nfw import Solver
from .catalog import DataObject, Entry, Catalog
from .redsequence import RedSequenceColorPar
from .chisq_dist import compute_chisq
from .background import Background, ZredBackground, BackgroundGenerator, ZredBackgroundGenerator
from .cluster import Cluster, ClusterCatalog
from .galaxy import Galaxy, GalaxyCatalog, GalaxyCatalogMaker
from .mask import Mask, HPMask, get_mask
from .zlambda import Zlambda, ZlambdaCorrectionPar
from .cluster_runner import ClusterRunner
from .run_firstpass import RunFirstPass
from .run_likelihoods import RunLikelihoods
from .run_percolation import RunPercolation
from .run_colormem import RunColormem
from .zred_color import ZredColor
from .centering import Centering, CenteringWcenZred, CenteringBCG, CenteringRandom, CenteringRandomSatellite
from .depthmap import DepthMap
from .color_background import ColorBackground, ColorBackgroundGenerator
from .fitters import MedZFitter, RedSequenceFitter, RedSequenceOffDiagonalFitter, CorrectionFitter, EcgmmFitter, ErrorBinFitter
from .zred_runner import ZredRunCatalog, ZredRunPixels
from .redmapper_run import RedmapperRun
from .depth_fitting import DepthLim, applyErrorModel
from .plotting import SpecPlot, NzPlot, NLambdaPlot, PositionPlot
from .volumelimit import VolumeLimitMask, VolumeLimitMaskFixed
from .utilities import read_members
from .randoms import GenerateRandoms, RandomCatalog, RandomCatalogMaker, RandomWeigher
from .run_randoms_zmask import RunRandomsZmask
