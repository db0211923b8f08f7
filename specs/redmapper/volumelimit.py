import fitsio
import hpgeom as hpg
import numpy as np
import esutil
import os
import healsparse
from .catalog import Catalog, Entry
from .depthmap import DepthMap
from .redsequence import RedSequenceColorPar
from .utilities import astro_to_sphere, get_healsparse_subpix_indices

class VolumeLimitMask(object):

    def __init__(self, config, vlim_lstar, vlimfile=None, use_geometry=False, withversion=True):
        self.config = config
        self.vlim_lstar = vlim_lstar
        if vlimfile is None:
            self.vlimfile = self.config.redmapper_filename('vl%02d_vlim_zmask' % int(self.vlim_lstar * 10), withversion=withversion)
        else:
            self.vlimfile = vlimfile
        if os.path.isfile(self.vlimfile):
            self._read_mask()
        else:
            if use_geometry:
                self._build_geometry_mask()
            else:
                self._build_mask()
            self._read_mask()

    def _read_mask(self):
        hdr = fitsio.read_header(self.vlimfile, ext=1)
        if 'PIXTYPE' not in hdr or hdr['PIXTYPE'] != 'HEALSPARSE':
            raise RuntimeError('Need to specify vlimfile in healsparse format.')
        cov_hdr = fitsio.read_header(self.vlimfile, ext='COV')
        nside_coverage = cov_hdr['NSIDE']
        if len(self.config.d.hpix) > 0:
            covpixels = get_healsparse_subpix_indices(self.config.d.nside, self.config.d.hpix, self.config.border, nside_coverage)
        else:
            covpixels = None
        self.sparse_vlimmap = healsparse.HealSparseMap.read(self.vlimfile, pixels=covpixels)
        self.nside = self.sparse_vlimmap.nside_sparse
        self.subpix_nside = self.config.d.nside
        self.subpix_hpix = self.config.d.hpix
        self.subpix_border = self.config.border

    def _build_mask(self):
        if self.config.depthfile is None or not os.path.isfile(self.config.depthfile):
            raise RuntimeError('Cannot create a volume limit mask without a depth file')
        for fname in self.config.vlim_depthfiles:
            if not os.path.isfile(fname):
                raise RuntimeError('Could not find specified vlim_depthfile %s' % fname)
        zredstr = RedSequenceColorPar(self.config.parfile, fine=True)
        zbinsize = 0.001
        nzbins = int(np.ceil((self.config.zrange[1] - self.config.zrange[0]) / zbinsize))
        zbins = np.arange(nzbins) * zbinsize + self.config.zrange[0] + zbinsize
        limmags = zredstr.mstar(zbins) - 2.5 * np.log10(self.vlim_lstar)
        ref_ind = self.config.bands.index(self.config.refmag)
        sparse_depthmap = healsparse.HealSparseMap.read(self.config.depthfile)
        dtype_vlimmap = [('fracgood', 'f4'), ('zmax', 'f4')]
        sparse_vlimmap = healsparse.HealSparseMap.make_empty(sparse_depthmap.nside_coverage, sparse_depthmap.nside_sparse, dtype=dtype_vlimmap, primary='fracgood')
        validPixels = sparse_depthmap.valid_pixels
        depthValues = sparse_depthmap.get_values_pix(validPixels)
        vlimmap = np.zeros(validPixels.size, dtype=dtype_vlimmap)
        vlimmap['fracgood'] = depthValues['fracgood']
        lo, = np.where(depthValues['m50'] <= limmags.min())
        vlimmap['zmax'][lo] = zbins.min()
        hi, = np.where(depthValues['m50'] >= limmags.max())
        vlimmap['zmax'][hi] = zbins.max()
        mid, = np.where((depthValues['m50'] > limmags.min()) & (depthValues['m50'] < limmags.max()))
        if mid.size > 0:
            l = np.searchsorted(limmags, depthValues['m50'][mid], side='right')
            vlimmap['zmax'][mid] = zbins[l]
        for i, depthfile in enumerate(self.config.vlim_depthfiles):
            sparse_depthmap2, hdr2 = healsparse.HealSparseMap.read(depthfile, header=True)
            validPixels2 = sparse_depthmap2.valid_pixels
            depthValues2 = sparse_depthmap2.get_values_pix(validPixels2)
            nsig = hdr2['NSIG']
            zp = hdr2['ZP']
            map_ind = self.config.bands.index(self.config.vlim_bands[i])
            a, b = esutil.numpy_util.match(validPixels, validPixels2)
            n2 = self.config.vlim_nsigs[i] ** 2.0
            flim_in = 10.0 ** ((depthValues2['limmag'][b] - zp) / -2.5)
            fn = np.clip(flim_in ** 2.0 * depthValues2['exptime'][b] / nsig ** 2.0 - flim_in, 0.001, None)
            flim_mask = (n2 + np.sqrt(n2 ** 2.0 + 4.0 * depthValues2['exptime'][b] * n2 * fn)) / (2.0 * depthValues2['exptime'][b])
            lim_mask = np.zeros(vlimmap.size)
            lim_mask[a] = zp - 2.5 * np.log10(flim_mask)
            zinds = np.searchsorted(zredstr.z, zbins, side='right')
            limmags_temp = zredstr.mstar(zbins) - 2.5 * np.log10(self.vlim_lstar)
            refmag_lim = limmags_temp.copy()
            if map_ind == ref_ind:
                self.config.logger.info('Warning: vlim_band %s is the same as the reference band!  Skipping...' % self.config.vlim_bands[i])
            elif map_ind < ref_ind:
                for jj in range(ref_ind - 1, map_ind - 1, -1):
                    limmags_temp += zredstr.c[zinds, jj] + zredstr.slope[zinds, jj] * (refmag_lim - zredstr.pivotmag[zinds])
            else:
                for jj in range(ref_ind, map_ind):
                    limmags_temp -= zredstr.c[zinds, jj] + zredstr.slope[zinds, jj] * (refmag_lim - zredstr.pivotmag[zinds])
            zmax_temp = np.zeros(vlimmap.size)
            lo, = np.where(lim_mask <= limmags_temp.min())
            zmax_temp[lo] = zbins.min()
            hi, = np.where(lim_mask >= limmags_temp.max())
            zmax_temp[hi] = zbins.max()
            mid, = np.where((lim_mask > limmags_temp.min()) & (lim_mask < limmags_temp.max()))
            if mid.size > 0:
                l = np.clip(np.searchsorted(limmags_temp, lim_mask[mid], side='right'), 0, zbins.size - 1)
                zmax_temp[mid] = zbins[l]
            limited, = np.where(zmax_temp < vlimmap['zmax'])
            vlimmap['zmax'][limited] = zmax_temp[limited]
        gd, = np.where(vlimmap['zmax'] > zbins[0])
        sparse_vlimmap.update_values_pix(validPixels[gd], vlimmap[gd])
        sparse_vlimmap.write(self.vlimfile)

    def _build_geometry_mask(self):
        if self.config.maskfile is None or not os.path.isfile(self.config.maskfile):
            raise RuntimeError('Cannot create a geometry volume limit mask without a mask file')
        sparse_mask = healsparse.HealSparseMap.read(self.config.maskfile)
        dtype_vlimmap = [('fracgood', 'f4'), ('zmax', 'f4')]
        sparse_vlimmap = healsparse.HealSparseMap.make_empty(sparse_mask.nside_coverage, sparse_mask.nside_sparse, dtype=dtype_vlimmap, primary='fracgood')
        validPixels = sparse_mask.valid_pixels
        maskValues = sparse_mask.get_values_pix(validPixels)
        vlimmap = np.zeros(validPixels.size, dtype=dtype_vlimmap)
        vlimmap['fracgood'] = maskValues
        vlimmap['zmax'] = self.config.zrange[1]
        sparse_vlimmap.update_values_pix(validPixels, vlimmap)
        sparse_vlimmap.write(self.vlimfile)

    def calc_zmax(self, ras, decs, get_fracgood=False):
        if len(ras) != len(decs):
            raise ValueError('ras, decs must be same length')
        values = self.sparse_vlimmap.get_values_pos(ras, decs, lonlat=True)
        bad, = np.where(np.abs(decs) > 90.0)
        values['zmax'][bad] = hpg.UNSEEN
        values['fracgood'][bad] = 0.0
        if not get_fracgood:
            return np.clip(values['zmax'], 0.0, None)
        else:
            return (np.clip(values['zmax'], 0.0, None), values['fracgood'])

    def get_areas(self):
        zbinsize = self.config.area_finebin
        zbins = np.arange(self.config.zrange[0], self.config.zrange[1], zbinsize)
        astr = Catalog(np.zeros(zbins.size, dtype=[('z', 'f4'), ('area', 'f4')]))
        astr.z = zbins
        pixsize = hpg.nside_to_pixel_area(self.nside, degrees=True)
        validPixels = self.sparse_vlimmap.valid_pixels
        zmax = self.sparse_vlimmap.get_values_pix(validPixels)['zmax']
        st = np.argsort(zmax)
        fracgoods = self.sparse_vlimmap.get_values_pix(validPixels)['fracgood'][st]
        inds = np.searchsorted(zmax[st], zbins, side='right')
        lo = inds <= 0
        astr.area[lo] = np.sum(fracgoods.astype(np.float64)) * pixsize
        if np.sum(~lo) > 0:
            carea = pixsize * np.cumsum(fracgoods, dtype=np.float64)
            astr.area[~lo] = carea[-1] - carea[inds[~lo] - 1]
        return astr

class VolumeLimitMaskFixed(object):

    def __init__(self, config):
        self.z_max = config.zrange[1]
        self.zrange = config.zrange
        self.zbinsize = config.area_finebin
        self.area = config.area

    def calc_zmax(self, ra, dec):
        return self.z_max

    def get_areas(self):
        zbins = np.arange(self.zrange[0], self.zrange[1], self.zbinsize)
        astr = Catalog(np.zeros(zbins.size, dtype=[('z', 'f4'), ('area', 'f4')]))
        astr.z = zbins
        astr.area = self.area
        return astr
