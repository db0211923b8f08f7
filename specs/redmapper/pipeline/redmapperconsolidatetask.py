import os
import numpy as np
import glob
import fitsio
import re
import hpgeom as hpg
import esutil
from ..configuration import Configuration
from ..volumelimit import VolumeLimitMask, VolumeLimitMaskFixed
from ..catalog import Catalog, Entry
from ..utilities import read_members, astro_to_sphere
from ..plotting import SpecPlot, NzPlot, NLambdaPlot, PositionPlot
from ..galaxy import GalaxyCatalog

class RedmapperConsolidateTask(object):

    def __init__(self, configfile, lambda_cuts=None, vlim_lstars=[], path=None):
        if path is None:
            outpath = os.path.dirname(os.path.abspath(configfile))
        else:
            outpath = path
        self.config = Configuration(configfile, outpath=path)
        if lambda_cuts is None:
            self.lambda_cuts = self.config.consolidate_lambda_cuts
        else:
            self.lambda_cuts = lambda_cuts
        if len(vlim_lstars) == 0:
            if len(self.config.consolidate_vlim_lstars) == 0:
                self.vlim_lstars = []
            else:
                self.vlim_lstars = self.config.consolidate_vlim_lstars
        else:
            self.vlim_lstars = vlim_lstars

    def run(self, do_plots=True, match_spec=True):
        catfiles = sorted(glob.glob(os.path.join(self.config.outpath, '%s_*_?????_final_catalog.fit' % self.config.outbase)))
        self.config.logger.info('Found %d catalog files in %s' % (len(catfiles), self.config.outpath))
        m = re.search('_(\\d+)_(\\d\\d\\d\\d\\d)_', catfiles[0])
        if m is None:
            raise RuntimeError('Could not understand filename for %s' % catfiles[0])
        nside = int(m.groups()[0])
        if match_spec and (not self.config.has_truth):
            spec = GalaxyCatalog.from_fits_file(self.config.specfile)
            use, = np.where(spec.z_err < self.config.calib_spec_max_zerr)
            spec = spec[use]
        if len(self.vlim_lstars) > 0:
            vlim_masks = []
            vlim_areas = []
            for vlim_lstar in self.vlim_lstars:
                vlim_masks.append(VolumeLimitMask(self.config, vlim_lstar))
                vlim_areas.append(vlim_masks[-1].get_areas())
        else:
            vlim_masks = [VolumeLimitMaskFixed(self.config)]
            vlim_areas = [vlim_masks[0].get_areas()]
        started = np.zeros((len(self.lambda_cuts), len(vlim_masks)), dtype=bool)
        cat_filename_dict = {}
        ctr = 0
        all_ids = np.zeros(0, dtype=np.int32)
        all_likelihoods = np.zeros(0, dtype=np.float64)
        for catfile in catfiles:
            self.config.logger.info('Reading %s' % os.path.basename(catfile))
            cat = Catalog.from_fits_file(catfile, ext=1)
            mem = read_members(catfile)
            m = re.search('_(\\d+)_(\\d\\d\\d\\d\\d)_', catfile)
            if m is None:
                raise RuntimeError('Could not understand filename for %s' % catfile)
            hpix = int(m.groups()[1])
            if match_spec and (not self.config.has_truth):
                cat.cg_spec_z[:] = -1.0
                i0, i1, dists = spec.match_many(cat.ra, cat.dec, 3.0 / 3600.0, maxmatch=1)
                cat.cg_spec_z[i0] = spec.z[i1]
                mem.zspec[:] = -1.0
                i0, i1, dists = spec.match_many(mem.ra, mem.dec, 3.0 / 3600.0, maxmatch=1)
                mem.zspec[i0] = spec.z[i1]
            if self.config.has_truth:
                truthcat = GalaxyCatalog.from_galfile(self.config.galfile, hpix=hpix, nside=nside, border=0.0, truth=True)
                cat.cg_spec_z[:] = -1.0
                i0, i1, dists = truthcat.match_many(cat.ra, cat.dec, 1.0 / 3600.0, maxmatch=1)
                cat.cg_spec_z[i0] = truthcat.ztrue[i1]
                mem.zspec[:] = -1.0
                i0, i1, dists = truthcat.match_many(mem.ra, mem.dec, 1.0 / 3600.0, maxmatch=1)
                mem.zspec[i0] = truthcat.ztrue[i1]
            theta, phi = astro_to_sphere(cat.ra, cat.dec)
            ipring = hpg.angle_to_pixel(nside, theta, phi, lonlat=False, nest=False)
            use, = np.where((ipring == hpix) & (cat.maskfrac < self.config.max_maskfrac) & (cat.Lambda > self.config.percolation_minlambda))
            if use.size == 0:
                self.config.logger.info('Warning: no good clusters in pixel %d' % hpix)
                continue
            cat = cat[use]
            scaleval = cat.scaleval if self.config.select_scaleval else 1.0
            a, b = esutil.numpy_util.match(cat.mem_match_id, mem.mem_match_id)
            cat.mem_match_id = np.arange(use.size) + ctr
            mem.mem_match_id[b] = cat.mem_match_id[a]
            ctr += use.size
            mem = mem[b]
            all_ids = np.append(all_ids, cat.mem_match_id)
            all_likelihoods = np.append(all_likelihoods, cat.lnlamlike)
            for i, minlambda in enumerate(self.lambda_cuts):
                for j, vlim_mask in enumerate(vlim_masks):
                    cat_use, = np.where((vlim_mask.calc_zmax(cat.ra, cat.dec) > cat.z_lambda) & (cat.Lambda / scaleval > minlambda))
                    if cat_use.size == 0:
                        continue
                    _, mem_use = esutil.numpy_util.match(cat.mem_match_id[cat_use], mem.mem_match_id)
                    if not started[i, j]:
                        if len(self.vlim_lstars) > 0:
                            extraname = 'lgt%02d_vl%02d' % (minlambda, int(self.vlim_lstars[j] * 10))
                        else:
                            extraname = 'lgt%02d' % minlambda
                        cat_fname = self.config.redmapper_filename(extraname + '_catalog', withversion=True)
                        mem_fname = self.config.redmapper_filename(extraname + '_catalog_members', withversion=True)
                        parts = os.path.basename(cat_fname).split('_catalog')
                        cat_filename_dict[i, j] = (parts[0], cat_fname, mem_fname)
                        cat.to_fits_file(cat_fname, clobber=True, indices=cat_use)
                        mem.to_fits_file(mem_fname, clobber=True, indices=mem_use)
                        started[i, j] = True
                    else:
                        with fitsio.FITS(cat_filename_dict[i, j][1], mode='rw') as fits:
                            fits[1].append(cat._ndarray[cat_use])
                        with fitsio.FITS(cat_filename_dict[i, j][2], mode='rw') as fits:
                            fits[1].append(mem._ndarray[mem_use])
        st = np.argsort(all_likelihoods)[::-1]
        all_ids_sorted = all_ids[st]
        new_ids = np.arange(all_ids.size) + 1
        for i, minlambda in enumerate(self.lambda_cuts):
            for j, vlim_mask in enumerate(vlim_masks):
                if not started[i, j]:
                    continue
                catfits = fitsio.FITS(cat_filename_dict[i, j][1], mode='rw')
                memfits = fitsio.FITS(cat_filename_dict[i, j][2], mode='rw')
                cat_ids = catfits[1].read_column('mem_match_id')
                mem_ids = memfits[1].read_column('mem_match_id')
                aa, bb = esutil.numpy_util.match(all_ids_sorted, cat_ids)
                cat_ids[bb] = new_ids[aa]
                aa, bb = esutil.numpy_util.match(all_ids_sorted, mem_ids)
                mem_ids[bb] = new_ids[aa]
                catfits[1].write_column('mem_match_id', cat_ids)
                memfits[1].write_column('mem_match_id', mem_ids)
                catfits.close()
                memfits.close()
                if do_plots:
                    cat = Catalog.from_fits_file(cat_filename_dict[i, j][1])
                    self.config.d.outbase = cat_filename_dict[i, j][0]
                    specplot = SpecPlot(self.config)
                    if self.config.has_truth:
                        mem = Catalog.from_fits_file(cat_filename_dict[i, j][2])
                        specplot.plot_cluster_catalog_from_members(cat, mem, title=self.config.d.outbase, withversion=False)
                    else:
                        specplot.plot_cluster_catalog(cat, title=self.config.d.outbase, withversion=False)
                    nzplot = NzPlot(self.config)
                    nzplot.plot_cluster_catalog(cat, vlim_areas[j])
                    nlamplot = NLambdaPlot(self.config)
                    nlamplot.plot_cluster_catalog(cat)
                    posplot = PositionPlot(self.config)
                    posplot.plot_cluster_catalog(cat)

class RuncatConsolidateTask(object):

    def __init__(self, configfile, path=None):
        if path is None:
            outpath = os.path.dirname(os.path.abspath(configfile))
        else:
            outpath = path
        self.config = Configuration(configfile, outpath=path)

    def run(self, do_plots=True, match_spec=True, consolidate_members=True, cattype='runcat'):
        catfiles = sorted(glob.glob(os.path.join(self.config.outpath, '%s_*_?????_%s_catalog.fit' % (self.config.outbase, cattype))))
        self.config.logger.info('Found %d catalog files in %s' % (len(catfiles), self.config.outpath))
        m = re.search('_(\\d+)_(\\d\\d\\d\\d\\d)_', catfiles[0])
        if m is None:
            raise RuntimeError('Could not understand filename for %s' % catfiles[0])
        nside = int(m.groups()[0])
        if match_spec and (not self.config.has_truth):
            spec = GalaxyCatalog.from_fits_file(self.config.specfile)
            use, = np.where(spec.z_err < self.config.calib_spec_max_zerr)
            spec = spec[use]
        started = False
        for catfile in catfiles:
            self.config.logger.info('Reading %s' % os.path.basename(catfile))
            cat = Catalog.from_fits_file(catfile, ext=1)
            if consolidate_members:
                mem = read_members(catfile)
            m = re.search('_(\\d+)_(\\d\\d\\d\\d\\d)_', catfile)
            if m is None:
                raise RuntimeError('Could not understand filename for %s' % catfile)
            hpix = int(m.groups()[1])
            if match_spec and (not self.config.has_truth):
                cat.cg_spec_z[:] = -1.0
                i0, i1, dists = spec.match_many(cat.ra, cat.dec, 3.0 / 3600.0, maxmatch=1)
                cat.cg_spec_z[i0] = spec.z[i1]
                if consolidate_members:
                    mem.zspec[:] = -1.0
                    i0, i1, dists = spec.match_many(mem.ra, mem.dec, 3.0 / 3600.0, maxmatch=1)
                    mem.zspec[i0] = spec.z[i1]
            if match_spec and self.config.has_truth:
                truthcat = GalaxyCatalog.from_galfile(self.config.galfile, hpix=hpix, nside=nside, border=0.0, truth=True)
                cat.cg_spec_z[:] = -1.0
                i0, i1, dists = truthcat.match_many(cat.ra, cat.dec, 1.0 / 3600.0, maxmatch=1)
                cat.cg_spec_z[i0] = truthcat.ztrue[i1]
                if consolidate_members:
                    mem.zspec[:] = -1.0
                    i0, i1, dists = truthcat.match_many(mem.ra, mem.dec, 1.0 / 3600.0, maxmatch=1)
                    mem.zspec[i0] = truthcat.ztrue[i1]
            ipring = hpg.angle_to_pixel(nside, cat.ra, cat.dec, nest=False)
            use, = np.where(ipring == hpix)
            if use.size == 0:
                self.config.logger.info('Warning: no good clusters in pixel %d' % hpix)
                continue
            cat = cat[use]
            if consolidate_members:
                a, b = esutil.numpy_util.match(cat.mem_match_id, mem.mem_match_id)
                mem = mem[b]
            if not started:
                cat_fname = self.config.redmapper_filename('%s_catalog' % cattype, withversion=True)
                cat.to_fits_file(cat_fname, clobber=True)
                if consolidate_members:
                    mem_fname = self.config.redmapper_filename('%s_catalog_members' % cattype, withversion=True)
                    mem.to_fits_file(mem_fname, clobber=True)
                started = True
            else:
                with fitsio.FITS(cat_fname, mode='rw') as fits:
                    fits[1].append(cat._ndarray)
                if consolidate_members:
                    with fitsio.FITS(mem_fname, mode='rw') as fits:
                        fits[1].append(mem._ndarray)
        if do_plots:
            cat = Catalog.from_fits_file(cat_fname)
            self.config.d.outbase = os.path.basename(cat_fname).split('_catalog')[0]
            specplot = SpecPlot(self.config)
            if self.config.has_truth:
                mem = Catalog.from_fits_file(mem_fname)
                specplot.plot_cluster_catalog_from_members(cat, mem, title=self.config.d.outbase)
            else:
                specplot.plot_cluster_catalog(cat, title=self.config.d.outbase)
