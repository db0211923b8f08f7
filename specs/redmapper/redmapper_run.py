import numpy as np
import copy
import fitsio
import re
import os
import esutil
import hpgeom as hpg
from esutil.cosmology import Cosmo
import multiprocessing
import types
try:
    import copy_reg as copyreg
except ImportError:
    import copyreg
from .utilities import _pickle_method
from .catalog import Catalog, Entry
from .run_firstpass import RunFirstPass
from .run_likelihoods import RunLikelihoods
from .run_percolation import RunPercolation
from .utilities import getMemoryString

class RedmapperRun(object):

    def __init__(self, config):
        self.config = config.copy()
        self._H0 = config.cosmo.H0()
        self._omega_l = config.cosmo.omega_l()
        self._omega_m = config.cosmo.omega_m()
        self.config.cosmo = None

    def run(self, specmode=False, seedfile=None, check=True, percolation_only=False, consolidate_like=False, keepz=False, cleaninput=False, consolidate=True):
        self.config.start_file_logging()
        self.specmode = specmode
        self.seedfile = seedfile
        self.check = check
        self.percolation_only = percolation_only
        self.keepz = keepz
        self.cleaninput = cleaninput
        if self.specmode and (not self.keepz):
            raise RuntimeError('Must set keepz=True when specmode=True')
        if self.percolation_only and self.specmode:
            raise RuntimeError('Cannot set both percolation_only=True and specmode=True')
        nside_split, pixels_split = self._get_pixel_splits()
        self.config.logger.info('Running on %d pixels' % len(pixels_split))
        nside_orig = self.config.d.nside
        self.config.d.nside = nside_split
        orig_seedfile = self.config.seedfile
        if seedfile is not None:
            self.config.seedfile = seedfile
        mp_ctx = multiprocessing.get_context('fork')
        pool = mp_ctx.Pool(processes=self.config.calib_run_nproc)
        if self.percolation_only:
            retvals = pool.map(self._percolation_only_worker, pixels_split, chunksize=1)
        else:
            retvals = pool.map(self._worker, pixels_split, chunksize=1)
        pool.close()
        pool.join()
        self.config.seedfile = orig_seedfile
        hpixels_like = [x[0] for x in retvals if x[2] is not None]
        likefiles = [x[2] for x in retvals if x[2] is not None]
        hpixels_perc = [x[0] for x in retvals if x[3] is not None]
        percfiles = [x[3] for x in retvals if x[3] is not None]
        if consolidate:
            finalfile = self._consolidate(hpixels_perc, percfiles, 'final', members=True, check=check)
        else:
            finalfile = None
        if consolidate_like:
            likefile = self._consolidate(hpixels_like, likefiles, 'like', members=False, check=check)
        self.config.d.nside = nside_orig
        if consolidate_like:
            return (finalfile, likefile)
        else:
            return finalfile

    def _get_pixel_splits(self):
        tab = Entry.from_fits_file(self.config.galfile, ext=1)
        if self.config.calib_run_nproc == 1:
            if self.config.d.nside > self.config.calib_run_min_nside:
                nside_test = self.config.calib_run_min_nside
            else:
                nside_test = np.clip(self.config.d.nside, 1, None)
            subpixels = self._get_subpixels(nside_test, tab)
            return (nside_test, subpixels)
        if len(self.config.d.hpix) == 0:
            nside_splits = [self.config.calib_run_min_nside]
            pixels_splits = [self._get_subpixels(nside_splits[0], tab)]
        else:
            if self.config.d.nside > self.config.calib_run_min_nside:
                nside_splits = [self.config.d.nside]
            else:
                nside_splits = [self.config.calib_run_min_nside]
            pixels_splits = [self._get_subpixels(nside_splits[0], tab)]
        nsplit = [len(pixels_splits[0])]
        nside_test = nside_splits[0]
        while nside_test < tab.nside:
            nside_test *= 2
            pixels_test = self._get_subpixels(nside_test, tab)
            nsplit.append(pixels_test.size)
            nside_splits.append(nside_test)
            pixels_splits.append(pixels_test)
        test, = np.where(np.array(nsplit) <= self.config.calib_run_nproc * 2)
        if test.size == 0:
            nside_split = nside_splits[0]
            pixels_split = pixels_splits[0]
        else:
            nside_split = nside_splits[test[-1]]
            pixels_split = pixels_splits[test[-1]]
        return (nside_split, pixels_split)

    def _get_subpixels(self, nside_test, galtab):
        pixels = np.arange(hpg.nside_to_npixel(nside_test))
        if len(self.config.d.hpix) > 0:
            theta, phi = hpg.pixel_to_angle(nside_test, pixels, lonlat=False, nest=False)
            hpix_test = hpg.angle_to_pixel(self.config.d.nside, theta, phi, lonlat=False, nest=False)
            a, b = esutil.numpy_util.match(self.config.d.hpix, hpix_test)
            pixels = pixels[b]
        theta, phi = hpg.pixel_to_angle(galtab.nside, galtab.hpix, lonlat=False, nest=False)
        hpix_test = hpg.angle_to_pixel(nside_test, theta, phi, lonlat=False, nest=False)
        a, b = esutil.numpy_util.match(pixels, hpix_test)
        return np.unique(pixels[a])

    def _consolidate(self, hpixels, filenames, filetype, members=False, check=True):
        outfile = self.config.redmapper_filename(filetype)
        memfile = self.config.redmapper_filename(filetype + '_members')
        if check:
            outfile_there = os.path.isfile(outfile)
            memfile_there = os.path.isfile(memfile)
            if outfile_there and memfile_there and members:
                return outfile
            if outfile_there and (not members):
                return outfile
        ncluster = 0
        for f in filenames:
            hdr = fitsio.read_header(f, ext=1)
            ncluster += hdr['NAXIS2']
        element = Entry.from_fits_file(filenames[0], ext=1, rows=0)
        dtype = element._ndarray.dtype
        ubercat = Catalog(np.zeros(ncluster, dtype=dtype))
        ctr = 0
        ubermem = None
        for hpix, f in zip(hpixels, filenames):
            cat = Catalog.from_fits_file(f, ext=1)
            if self.config.d.nside > 0:
                ipring = hpg.angle_to_pixel(self.config.d.nside, cat.ra, cat.dec, nest=False)
            else:
                ipring = np.zeros(cat.size, dtype=np.int32)
            use, = np.where((ipring == hpix) & (cat.maskfrac < self.config.max_maskfrac) & (cat.Lambda / cat.scaleval > self.config.percolation_minlambda))
            if use.size == 0:
                continue
            cat = cat[use]
            if members:
                parts = f.split('.fit')
                mem = Catalog.from_fits_file(parts[0] + '_members.fit')
                new_ids = np.arange(use.size, dtype=np.int32) + ctr + 1
                a, b = esutil.numpy_util.match(cat.mem_match_id, mem.mem_match_id)
                cat.mem_match_id = new_ids
                mem.mem_match_id[b] = cat.mem_match_id[a]
                mem = mem[b]
            for n in dtype.names:
                ubercat._ndarray[n][ctr:ctr + cat.size] = cat._ndarray[n]
            if members:
                if ubermem is None:
                    ubermem = mem
                else:
                    ubermem.append(mem)
            ctr += cat.size
        ubercat = ubercat[0:ctr]
        if members:
            st = np.argsort(ubercat.lnlike)[::-1]
            ubercat = ubercat[st]
            a, b = esutil.numpy_util.match(ubercat.mem_match_id, ubermem.mem_match_id)
            ubercat.mem_match_id = np.arange(ubercat.size, dtype=np.int32) + 1
            ubermem.mem_match_id[b] = ubercat.mem_match_id[a]
        ubercat.to_fits_file(outfile, clobber=True)
        if members:
            ubermem.to_fits_file(memfile, clobber=True)
        return outfile

    def _worker(self, hpix):
        self.config.logger.info('Running on pixel %d' % hpix)
        config = self.config.copy()
        config.cosmo = Cosmo(H0=self._H0, omega_l=self._omega_l, omega_m=self._omega_m)
        config.d.hpix = [hpix]
        config.d.outbase = '%s_%d_%05d' % (self.config.d.outbase, self.config.d.nside, hpix)
        firstpass = RunFirstPass(config, specmode=self.specmode)
        if not os.path.isfile(firstpass.filename) or not self.check:
            firstpass.run(keepz=self.keepz, cleaninput=self.cleaninput)
            if firstpass.cat is None or (firstpass.cat is not None and firstpass.cat.size == 0):
                self.config.logger.info('Did not produce a firstpass catalog for pixel %d' % hpix)
                return (hpix, None, None, None)
            firstpass.output(savemembers=False, withversion=False, clobber=True)
        else:
            self.config.logger.info('Firstpass file %s already present.  Skipping...' % firstpass.filename)
        firstpass_filename = firstpass.filename
        config.catfile = firstpass_filename
        del firstpass
        like = RunLikelihoods(config)
        if not os.path.isfile(like.filename) or not self.check:
            like.run(keepz=self.keepz)
            if like.cat is None or (like.cat is not None and like.cat.size == 0):
                self.config.logger.info('Did not produce a likelihood catalog for pixel %d' % hpix)
                return (hpix, firstpass_filename, None, None)
            like.output(savemembers=False, withversion=False, clobber=True)
        else:
            self.config.logger.info('Likelihood file %s already present.  Skipping...' % like.filename)
        like_filename = like.filename
        config.catfile = like_filename
        del like
        perc = RunPercolation(config)
        if not os.path.isfile(perc.filename) or not self.check:
            perc.run(keepz=self.keepz)
            if perc.cat is None or (perc.cat is not None and perc.cat.size == 0):
                self.config.logger.info('Did not produce a percolation catalog for pixel %d' % hpix)
                return (hpix, firstpass_filename, like_filename, None)
            perc.output(savemembers=True, withversion=False, clobber=True)
        else:
            self.config.logger.info('Percolation file %s already present.  Skipping...' % perc.filename)
        perc_filename = perc.filename
        return (hpix, firstpass_filename, like_filename, perc_filename)

    def _percolation_only_worker(self, hpix):
        self.config.logger.info('Running percolation on pixel %d' % hpix)
        config = self.config.copy()
        config.cosmo = Cosmo(H0=self._H0, omega_l=self._omega_l, omega_m=self._omega_m)
        config.d.hpix = [hpix]
        config.d.outbase = '%s_%05d' % (self.config.d.outbase, hpix)
        perc = RunPercolation(config)
        if not os.path.isfile(perc.filename) or not self.check:
            perc.run(keepz=self.keepz, cleaninput=self.cleaninput)
            if perc.cat is None or (perc.cat is not None and perc.cat.size == 0):
                self.config.logger.info('Did not produce a percolation catalog for pixel %d' % hpix)
                return (hpix, None, None, None)
            perc.output(savemembers=True, withversion=False, clobber=True)
        return (hpix, None, None, perc.filename)
