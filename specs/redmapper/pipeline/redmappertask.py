import os
import numpy as np
import glob
from ..configuration import Configuration
from ..utilities import make_lockfile
from ..run_firstpass import RunFirstPass
from ..run_likelihoods import RunLikelihoods
from ..run_percolation import RunPercolation
from ..run_randoms_zmask import RunRandomsZmask
from ..run_zscan import RunZScan
from ..runcat import RunCatalog
from ..utilities import getMemoryString

class RunRedmapperPixelTask(object):

    def __init__(self, configfile, pixel, nside, path=None):
        if path is None:
            outpath = os.path.dirname(os.path.abspath(configfile))
        else:
            outpath = path
        self.config = Configuration(configfile, outpath=path)
        self.pixel = pixel
        self.nside = nside

    def run(self):
        if not self.config.galfile_pixelized:
            raise ValueError('Code only runs with pixelized galfile.')
        self.config.check_files(check_zredfile=True, check_bkgfile=True, check_bkgfile_components=True, check_parfile=True, check_zlambdafile=True)
        self.config.border = self.config.compute_border()
        self.config.d.hpix = [self.pixel]
        self.config.d.nside = self.nside
        self.config.d.outbase = '%s_%d_%05d' % (self.config.outbase, self.nside, self.pixel)
        self.config.start_file_logging()
        self.config.logger.info('Running redMaPPer on pixel %d' % self.pixel)
        firstpass = RunFirstPass(self.config)
        if not os.path.isfile(firstpass.filename):
            firstpass.run()
            firstpass.output(savemembers=False, withversion=False)
        else:
            self.config.logger.info('Firstpass file %s already present.  Skipping...' % firstpass.filename)
        self.config.catfile = firstpass.filename
        del firstpass
        like = RunLikelihoods(self.config)
        if not os.path.isfile(like.filename):
            like.run()
            like.output(savemembers=False, withversion=False)
        else:
            self.config.logger.info('Likelihood file %s already present.  Skipping...' % like.filename)
        self.config.catfile = like.filename
        del like
        perc = RunPercolation(self.config)
        if not os.path.isfile(perc.filename):
            perc.run()
            perc.output(savemembers=True, withversion=False)
        else:
            self.config.logger.info('Percolation file %s already present.  Skipping...' % perc.filename)
        self.config.stop_file_logging()

class RuncatPixelTask(object):

    def __init__(self, configfile, pixel, nside, path=None):
        if path is None:
            outpath = os.path.dirname(os.path.abspath(configfile))
        else:
            outpath = path
        self.config = Configuration(configfile, outpath=path)
        self.pixel = pixel
        self.nside = nside

    def run(self):
        if not self.config.galfile_pixelized:
            raise ValueError('Code only runs with pixelized galfile.')
        self.config.check_files(check_zredfile=False, check_bkgfile=True, check_bkgfile_components=False, check_parfile=True, check_zlambdafile=True)
        self.config.border = self.config.compute_border()
        self.config.d.hpix = [self.pixel]
        self.config.d.nside = self.nside
        self.config.d.outbase = '%s_%d_%05d' % (self.config.outbase, self.nside, self.pixel)
        self.config.start_file_logging()
        self.config.logger.info('Running runcat on pixel %d' % self.pixel)
        runcat = RunCatalog(self.config)
        if not os.path.isfile(runcat.filename):
            runcat.run(do_percolation_masking=self.config.runcat_percolation_masking)
            runcat.output(savemembers=True, withversion=True)
        self.config.stop_file_logging()

class RunZmaskPixelTask(object):

    def __init__(self, configfile, pixel, nside, path=None):
        if path is None:
            outpath = os.path.dirname(os.path.abspath(configfile))
        else:
            outpath = path
        self.config = Configuration(configfile, outpath=path)
        self.pixel = pixel
        self.nside = nside

    def run(self):
        if not self.config.galfile_pixelized:
            raise ValueError('Code only runs with pixelized galfile.')
        self.config.check_files(check_zredfile=False, check_bkgfile=True, check_parfile=True, check_randfile=True)
        self.config.border = self.config.compute_border()
        self.config.d.hpix = [self.pixel]
        self.config.d.nside = self.nside
        self.config.d.outbase = '%s_%d_%05d' % (self.config.outbase, self.nside, self.pixel)
        self.config.start_file_logging()
        self.config.logger.info('Running zmask on pixel %d' % self.pixel)
        rand_zmask = RunRandomsZmask(self.config)
        if not os.path.isfile(rand_zmask.filename):
            rand_zmask.run()
            rand_zmask.output(savemembers=False, withversion=False)
        self.config.stop_file_logging()

class RunZScanPixelTask(object):

    def __init__(self, configfile, pixel, nside, path=None):
        if path is None:
            outpath = os.path.dirname(os.path.abspath(configfile))
        else:
            outpath = path
        self.config = Configuration(configfile, outpath=path)
        self.pixel = pixel
        self.nside = nside

    def run(self):
        if not self.config.galfile_pixelized:
            raise ValueError('Code only runs with pixelized galfile.')
        self.config.check_files(check_zredfile=True, check_bkgfile=True, check_bkgfile_components=True, check_parfile=True, check_zlambdafile=True)
        self.config.border = self.config.compute_border()
        self.config.d.hpix = [self.pixel]
        self.config.d.nside = self.nside
        self.config.d.outbase = '%s_%d_%05d' % (self.config.outbase, self.nside, self.pixel)
        self.config.start_file_logging()
        self.config.logger.info('Running zscan on pixel %d' % self.pixel)
        runzscan = RunZScan(self.config)
        if not os.path.isfile(runzscan.filename):
            runzscan.run()
            runzscan.output(savemembers=True, withversion=True)
        self.config.stop_file_logging()
