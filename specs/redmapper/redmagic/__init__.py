from .redmagic_calibrate import RedmagicParameterFitter, RedmagicCalibrator
from .redmagic_selector import RedmagicSelector
from .redmagictask import RunRedmagicTask
from .redmagic_randoms import RedmagicGenerateRandoms
