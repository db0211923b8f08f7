from .zredtask import RunZredPixelTask
from .redmappertask import RunRedmapperPixelTask, RuncatPixelTask, RunZmaskPixelTask, RunZScanPixelTask
from .redmapperconsolidatetask import RedmapperConsolidateTask, RuncatConsolidateTask
from .mempredict import MemPredict
