from .selectspecred import SelectSpecRedGalaxies
from .redsequencecal import RedSequenceCalibrator
from .centeringcal import WcenCalibrator
from .zlambdacal import ZLambdaCalibrator
from .selectspecseeds import SelectSpecSeeds
from .calibrate import RedmapperCalibrator
from .prepmembers import PrepMembers
