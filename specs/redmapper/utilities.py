import numpy as np
from scipy import special
from scipy.linalg import solve_banded
from pkg_resources import resource_filename
import scipy.interpolate as interpolate
import fitsio
from scipy.special import erf
from numpy import random
import hpgeom as hpg
import hpgeom.healpy_compat as hpc
import esutil
import sys
import os
import warnings
TOTAL_SQDEG = 4 * 180 ** 2 / np.pi
SEC_PER_DEG = 3600

def astro_to_sphere(ra, dec):
    return (np.radians(90.0 - dec), np.radians(ra))

def chisq_pdf(data, k):
    normalization = 1.0 / (2 ** (k / 2.0) * special.gamma(k / 2.0))
    return normalization * data ** (k / 2.0 - 1) * np.exp(-data / 2.0)

def gaussFunction(x, *p):
    A, mu, sigma = p
    return A * np.exp(-(x - mu) ** 2.0 / (2.0 * sigma ** 2))

def schechter_pdf(x, alpha=-1.0, mstar=0.0):
    pdf = 10.0 ** (0.4 * (alpha + 1.0) * (mstar - x)) * np.exp(-10.0 ** (0.4 * (mstar - x)))
    return pdf

def nfw_pdf(x, rscale=0.15, corer=0.1, radfactor=False):
    xscale = x / rscale
    corex = corer / rscale
    sigx = np.zeros(x.size)
    low, = np.where(xscale < corex)
    mid, = np.where((xscale >= corex) & (xscale <= 0.999))
    high, = np.where((xscale >= 1.001) & (xscale < 10.0 / rscale))
    other, = np.where((xscale > 0.999) & (xscale < 1.001))
    if low.size > 0:
        arg = np.sqrt((1.0 - corex) / (1.0 + corex))
        pre = 2.0 / np.sqrt(1.0 - corex ** 2)
        front = 1.0 / (corex ** 2.0 - 1)
        sigx[low] = front * (1.0 - pre * 0.5 * np.log((1.0 + arg) / (1.0 - arg)))
    if mid.size > 0:
        arg = np.sqrt((1.0 - xscale[mid]) / (1.0 + xscale[mid]))
        pre = 2.0 / np.sqrt(1.0 - xscale[mid] ** 2.0)
        front = 1.0 / (xscale[mid] ** 2.0 - 1.0)
        sigx[mid] = front * (1.0 - pre * 0.5 * np.log((1.0 + arg) / (1.0 - arg)))
    if high.size > 0:
        arg = np.sqrt((xscale[high] - 1.0) / (xscale[high] + 1.0))
        pre = 2.0 / np.sqrt(xscale[high] ** 2 - 1.0)
        front = 1.0 / (xscale[high] ** 2 - 1)
        sigx[high] = front * (1.0 - pre * np.arctan(arg))
    if other.size > 0:
        xlo, xhi = (0.999, 1.001)
        arglo, arghi = (np.sqrt((1 - xlo) / (1 + xlo)), np.sqrt((xhi - 1) / (xhi + 1)))
        prelo, prehi = (2.0 / np.sqrt(1.0 - xlo ** 2), 2.0 / np.sqrt(xhi ** 2 - 1))
        frontlo, fronthi = (1.0 / (xlo ** 2 - 1), 1.0 / (xhi ** 2 - 1))
        testlo = frontlo * (1.0 - prelo * 0.5 * np.log((1 + arglo) / (1 - arglo)))
        testhi = fronthi * (1.0 - prehi * np.arctan(arghi))
        sigx[other] = (testlo + testhi) / 2.0
    if radfactor:
        sigx *= 2.0 * np.pi * x
    return sigx

class MStar(object):

    def __init__(self, survey, band):
        self.survey = survey.strip()
        self.band = band.strip()
        try:
            self.mstar_file = resource_filename(__name__, 'data/mstar/mstar_%s_%s.fit' % (self.survey, self.band))
        except:
            raise IOError('Could not find mstar resource mstar_%s_%s.fit' % (self.survey, self.band))
        try:
            self._mstar_arr = fitsio.read(self.mstar_file, ext=1, upper=True)
        except:
            raise IOError('Could not find mstar file mstar_%s_%s.fit' % (self.survey, self.band))
        self._f = CubicSpline(self._mstar_arr['Z'], self._mstar_arr['MSTAR'])

    def __call__(self, z):
        return self._f(z)

class RedGalInitialColors(object):

    def __init__(self, redgal_template):
        from . import Catalog
        from pkg_resources import resource_filename
        from pkg_resources import resource_exists
        self._template_file = None
        module = __name__.split('.')[0]
        if resource_exists(module, 'data/initcolors/%s' % redgal_template):
            self._template_file = resource_filename(module, 'data/initcolors/%s' % redgal_template)
        elif os.path.isfile(redgal_template):
            self._template_file = os.path.abspath(redgal_template)
        else:
            raise IOError('Could not find redgal_template file %s in resource or path.' % redgal_template)
        self._template = Catalog.from_fits_file(self._template_file, ext=1)
        template_hdr = fitsio.read_header(self._template_file, ext=1)
        if ',' in template_hdr['BANDS']:
            self._template_bands = template_hdr['BANDS'].rstrip().split(',')
        else:
            self._template_bands = list(template_hdr['BANDS'].rstrip())
        self._color_names = []
        for i in range(len(self._template_bands) - 1):
            self._color_names.append(self._color_name(self._template_bands[i], self._template_bands[i + 1]))

    @property
    def zmax(self):
        return self._template.z.max()

    def __call__(self, band1, band2, z):
        name = self._color_name(band1, band2)
        if name not in self._color_names:
            raise ValueError('Color %s-%s not in initial template file %s.' % (band1, band2, self._template_file))
        index = self._color_names.index(name)
        return interpol(self._template.color[:, index], self._template.z, z)

    def _color_name(self, band1, band2):
        name = '%s-%s' % (band1.upper(), band2.upper())
        return name

class CubicSpline(object):

    def __init__(self, x, y, yp=None, fixextrap=False):
        npts = len(x)
        mat = np.zeros((3, npts))
        mat[1, 1:-1] = (x[2:] - x[0:-2]) / 3.0
        mat[2, 0:-2] = (x[1:-1] - x[0:-2]) / 6.0
        mat[0, 2:] = (x[2:] - x[1:-1]) / 6.0
        bb = np.zeros(npts)
        bb[1:-1] = (y[2:] - y[1:-1]) / (x[2:] - x[1:-1]) - (y[1:-1] - y[0:-2]) / (x[1:-1] - x[0:-2])
        if yp is None:
            mat[1, 0] = 1.0
            mat[1, -1] = 1.0
            bb[0] = 0.0
            bb[-1] = 0.0
        elif yp == '3d=0':
            mat[1, 0] = -1.0 / (x[1] - x[0])
            mat[0, 1] = 1.0 / (x[1] - x[0])
            mat[1, -1] = 1.0 / (x[-2] - x[-1])
            mat[2, -2] = -1.0 / (x[-2] - x[-1])
            bb[0] = 0.0
            bb[-1] = 0.0
        else:
            mat[1, 0] = -1.0 / 3.0 * (x[1] - x[0])
            mat[0, 1] = -1.0 / 6.0 * (x[1] - x[0])
            mat[2, -2] = 1.0 / 6.0 * (x[-1] - x[-2])
            mat[1, -1] = 1.0 / 3.0 * (x[-1] - x[-2])
            bb[0] = yp[0] - 1.0 * (y[1] - y[0]) / (x[1] - x[0])
            bb[-1] = yp[1] - 1.0 * (y[-1] - y[-2]) / (x[-1] - x[-2])
        y2 = solve_banded((1, 1), mat, bb)
        self.x, self.y, self.y2 = (x, y, y2)
        self.fixextrap = fixextrap

    def splint(self, x):
        npts = len(self.x)
        lo = np.searchsorted(self.x, x) - 1
        lo = np.clip(lo, 0, npts - 2)
        hi = lo + 1
        dx = self.x[hi] - self.x[lo]
        a = (self.x[hi] - x) / dx
        b = (x - self.x[lo]) / dx
        y = a * self.y[lo] + b * self.y[hi] + ((a ** 3 - a) * self.y2[lo] + (b ** 3 - b) * self.y2[hi]) * dx ** 2.0 / 6.0
        return y

    def __call__(self, x):
        if not self.fixextrap:
            return self.splint(x)
        else:
            vals = self.splint(x)
            lo, = np.where(x < self.x[0])
            vals[lo] = self.y[0]
            hi, = np.where(x > self.x[-1])
            vals[hi] = self.y[-1]
            return vals

def calc_theta_i(mag, mag_err, maxmag, limmag):
    theta_i = np.ones(mag.size)
    eff_lim = np.clip(maxmag, 0, limmag)
    dmag = eff_lim - mag
    calc, = np.where(dmag < 5.0 * mag_err)
    if calc.size > 0:
        theta_i[calc] = 0.5 + 0.5 * erf(dmag[calc] / (np.sqrt(2) * mag_err[calc]))
    hi, = np.where(mag > limmag)
    if hi.size > 0:
        theta_i[hi] = 0.0
    return theta_i

def apply_errormodels(maskgals, mag_in, b=None, err_ratio=1.0, fluxmode=False, nonoise=False, inlup=False, lnscat=None, sigma0=0.0):
    f1lim = 10.0 ** ((maskgals.limmag - maskgals.zp[0]) / -2.5)
    fsky1 = f1lim ** 2.0 * maskgals.exptime / maskgals.nsig[0] ** 2.0 - f1lim
    fsky1 = np.clip(fsky1, 0.001, None)
    if inlup:
        bnmgy = b * 1000000000.0
        tflux = maskgals.exptime * 2.0 * bnmgy * np.sinh(-np.log(b) - 0.4 * np.log(10.0) * mag_in)
    else:
        tflux = maskgals.exptime * 10.0 ** ((mag_in - maskgals.zp[0]) / -2.5)
    noise = err_ratio * np.sqrt(fsky1 * maskgals.exptime + tflux)
    if sigma0 > 0.0:
        noise = np.sqrt(noise ** 2.0 + (np.log(10.0) / 2.5 * sigma0 * tflux) ** 2.0)
    if lnscat is not None:
        noise = np.exp(np.log(noise) + lnscat * np.random.normal(size=noise.size))
    if nonoise:
        flux = tflux
    else:
        flux = tflux + noise * random.standard_normal(mag_in.size)
    if fluxmode:
        mag = flux / maskgals.exptime
        mag_err = noise / maskgals.exptime
    elif b is not None:
        bnmgy = b * 1000000000.0
        flux_new = flux / maskgals.exptime
        noise_new = noise / maskgals.exptime
        mag = 2.5 * np.log10(1.0 / b) - np.arcsinh(0.5 * flux_new / bnmgy) / (0.4 * np.log(10.0))
        mag_err = 2.5 * noise_new / (2.0 * bnmgy * np.log(10.0) * np.sqrt(1.0 + (0.5 * flux_new / bnmgy) ** 2.0))
    else:
        with warnings.catch_warnings():
            warnings.filterwarnings('ignore')
            mag = maskgals.zp[0] - 2.5 * np.log10(flux / maskgals.exptime)
            mag_err = 2.5 / np.log(10.0) * (noise / flux)
        bad, = np.where(np.isfinite(mag) == False)
        mag[bad] = 99.0
        mag_err[bad] = 99.0
    return (mag, mag_err)

def interpol(v, x, xout):
    m = v.size
    nOut = m
    s = np.clip(np.searchsorted(x, xout) - 1, 0, m - 2)
    diff = v[s + 1] - v[s]
    return (xout - x[s]) * diff / (x[s + 1] - x[s]) + v[s]

def cic(value, posx=None, nx=None, posy=None, ny=None, posz=None, nz=None, average=False, isolated=True):
    nrsamples = value.size
    dim = 0
    if posx is not None and nx is not None:
        dim += 1
    if posy is not None and ny is not None:
        dim += 1
    if posz is not None and nz is not None:
        dim += 1
    if dim <= 2:
        nz = 1
        if dim == 1:
            ny = 1
    nxny = nx * ny
    ngx = posx.astype(np.int32) + 0.5
    dngx = ngx - posx
    kx1 = ngx - 0.5
    wx1 = 1.0 - np.abs(dngx)
    left, = np.where(dngx < 0.0)
    kx2 = kx1 - 1
    if left.size > 0:
        kx2[left] += 2
    wx2 = np.abs(dngx)
    left = None
    bad, = np.where(kx2 == -1)
    if bad.size > 0:
        kx2[bad] = nx - 1
        if isolated:
            wx2[bad] = 0.0
    bad, = np.where(kx2 == nx)
    if bad.size > 0:
        kx2[bad] = 0
        if isolated:
            wx2[bad] = 0.0
    bad = None
    if dim >= 2:
        ngy = posy.astype(np.int32) + 0.5
        dngy = ngy - posy
        ky1 = ngy - 0.5
        wy1 = 1.0 - np.abs(dngy)
        left, = np.where(dngy < 0.0)
        ky2 = ky1 - 1
        if left.size > 0:
            ky2[left] += 2
        wy2 = np.abs(dngy)
        left = None
        bad, = np.where(ky2 == -1)
        if bad.size > 0:
            ky2[bad] = ny - 1
            if isolated:
                wy2[bad] = 0.0
        bad, = np.where(ky2 == ny)
        if bad.size > 0:
            ky2[bad] = 0
            if isolated:
                wy2[bad] = 0.0
        bad = None
    else:
        ky1 = 0
        ky2 = 0
        wy1 = 1
        wy2 = 1
    if dim == 3:
        ngz = posz.astype(np.int32) + 0.5
        dngz = ngz - posz
        kz1 = ngz - 0.5
        wz1 = 1.0 - np.abs(dngz)
        left, = np.where(dngz < 0.0)
        kz2 = kz1 - 1
        if left.size > 0:
            kz2[left] += 2
        wz2 = np.abs(dngz)
        left = None
        bad, = np.where(kz2 == -1)
        if bad.size > 0:
            kz2[bad] = nz - 1
            if isolated:
                wz2[bad] = 0.0
        bad, = np.where(kz2 == nz)
        if bad.size > 0:
            kz2[bad] = 0
            if isolated:
                wz2[bad] = 0.0
        bad = None
    else:
        kz1 = 0
        kz2 = 0
        wz1 = 1
        wz2 = 1
    field = np.zeros(nx * ny * nz)
    if average:
        totcicweight = np.zeros_like(field)
    index = (kx1 + ky1 * nx + kz1 * nxny).astype(np.int32)
    cicweight = wx1 * wy1 * wz1
    np.add.at(field, index, cicweight * value)
    if average:
        np.add.at(totcicweight, index, cicweight)
    index = (kx2 + ky1 * nx + kz1 * nxny).astype(np.int32)
    cicweight = wx2 * wy1 * wz1
    np.add.at(field, index, cicweight * value)
    if average:
        np.add.at(totcicweight, index, cicweight)
    if dim >= 2:
        index = (kx1 + ky2 * nx + kz1 * nxny).astype(np.int32)
        cicweight = wx1 * wy2 * wz1
        np.add.at(field, index, cicweight * value)
        if average:
            np.add.at(totcicweight, index, cicweight)
        index = (kx2 + ky2 * nx + kz1 * nxny).astype(np.int32)
        cicweight = wx2 * wy2 * wz1
        np.add.at(field, index, cicweight * value)
        if average:
            np.add.at(totcicweight, index, cicweight)
        if dim == 3:
            index = (kx1 + ky1 * nx + kz2 * nxny).astype(np.int32)
            cicweight = wx1 * wy1 * wz2
            np.add.at(field, index, cicweight * value)
            if average:
                np.add.at(totcicweight, index, cicweight)
            index = (kx2 + ky1 * nx + kz2 * nxny).astype(np.int32)
            cicweight = wx2 * wy1 * wz2
            np.add.at(field, index, cicweight * value)
            if average:
                np.add.at(totcicweight, index, cicweight)
            index = (kx1 + ky2 * nx + kz2 * nxny).astype(np.int32)
            cicweight = wx1 * wy2 * wz2
            np.add.at(field, index, cicweight * value)
            if average:
                np.add.at(totcicweight, index, cicweight)
            index = (kx2 + ky2 * nx + kz2 * nxny).astype(np.int32)
            cicweight = wx2 * wy2 * wz2
            np.add.at(field, index, cicweight * value)
            if average:
                np.add.at(totcicweight, index, cicweight)
    index = None
    if average:
        good, = np.where(totcicweight != 0)
        field[good] /= totcicweight[good]
    if dim == 1:
        return field
    elif dim == 2:
        return field.reshape((ny, nx))
    else:
        return field.reshape((nz, ny, nx))

def make_nodes(zrange, nodesize, maxnode=None):
    if maxnode is None or maxnode < 0.0:
        _maxnode = zrange[1]
    else:
        _maxnode = np.clip(maxnode, 0.0, zrange[1])
    nodes = np.arange(zrange[0], _maxnode, nodesize)
    if _maxnode - nodes.max() > nodesize / 2.0 + 0.01:
        nodes = np.append(nodes, _maxnode)
    elif ~np.allclose(np.max(nodes), _maxnode):
        nodes[-1] = _maxnode
    if _maxnode < zrange[1]:
        nodes = np.append(nodes, zrange[1])
    return nodes

def sample_from_pdf(f, ran, step, nsamp, **kwargs):
    x = np.arange(ran[0], ran[1], step)
    pdf = f(x, **kwargs)
    pdf /= np.sum(pdf)
    cdf = np.cumsum(pdf, dtype=np.float64)
    cdfi = (cdf * x.size).astype(np.int32)
    rand = (np.random.uniform(size=nsamp) * x.size).astype(np.int32)
    samples = np.zeros(nsamp)
    for i in range(nsamp):
        test, = np.where(cdfi >= rand[i])
        samples[i] = x[test[0]]
    return samples

def _pickle_method(m):
    if m.im_self is None:
        return (getattr, (m.im_class, m.im_func.func_name))
    else:
        return (getattr, (m.im_self, m.im_func.func_name))

def histoGauss(ax, array):
    import scipy.optimize
    import esutil
    q13 = np.percentile(array, [25, 75])
    binsize = 2 * (q13[1] - q13[0]) * array.size ** (-1.0 / 3.0)
    hist = esutil.stat.histogram(array, binsize=binsize, more=True)
    p0 = [array.size, np.median(array), np.std(array)]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            coeff, varMatrix = scipy.optimize.curve_fit(gaussFunction, hist['center'], hist['hist'], p0=p0)
    except:
        coeff = p0
    hcenter = hist['center']
    hhist = hist['hist']
    rangeLo = coeff[1] - 5 * coeff[2]
    rangeHi = coeff[1] + 5 * coeff[2]
    lo, = np.where(hcenter < rangeLo)
    ok, = np.where(hcenter > rangeLo)
    hhist[ok[0]] += np.sum(hhist[lo])
    hi, = np.where(hcenter > rangeHi)
    ok, = np.where(hcenter < rangeHi)
    hhist[ok[-1]] += np.sum(hhist[hi])
    if ax is not None:
        ax.plot(hcenter[ok], hhist[ok], 'b-', linewidth=3)
        ax.set_xlim(rangeLo, rangeHi)
        xvals = np.linspace(rangeLo, rangeHi, 1000)
        yvals = gaussFunction(xvals, *coeff)
        ax.plot(xvals, yvals, 'k--', linewidth=3)
        ax.locator_params(axis='x', nbins=6)
    return coeff

def make_lockfile(lockfile, block=False, maxtry=300, waittime=2):
    import os
    import tempfile
    import time
    tf = tempfile.mkstemp(prefix='', dir=os.path.dirname(lockfile))
    tempfilename = tf[1]
    os.close(tf[0])
    if not block:
        try:
            os.link(tempfilename, lockfile)
            os.unlink(tempfilename)
            return True
        except:
            os.unlink(tempfilename)
            return False
    else:
        ctr = 0
        locked = False
        while ctr < maxtry and (not locked):
            try:
                os.link(tempfilename, lockfile)
                os.unlink(tempfilename)
                locked = True
            except:
                ctr += 1
                time.sleep(waittime)
        if not locked:
            os.unlink(tempfilename)
        return locked

def read_members(catfile):
    import os
    from .galaxy import GalaxyCatalog
    memfile = '%s_members.fit' % os.path.splitext(catfile)[0]
    if not os.path.isfile(memfile):
        raise RuntimeError('Could not find member file %s' % memfile)
    return GalaxyCatalog.from_fits_file(memfile)

def getMemoryString(location):
    status = None
    result = {'peak': 0, 'rss': 0}
    memoryString = ''
    try:
        with open('/proc/self/status') as status:
            for line in status:
                parts = line.split()
                key = parts[0][2:-1].lower()
                if key in result:
                    result[key] = int(parts[1]) / 1000
            memoryString = 'Memory usage at %s: %d MB current; %d MB peak.' % (location, result['rss'], result['peak'])
    except:
        memoryString = 'Could not get process status for memory usage at %s!' % location
    return memoryString

def get_hpmask_subpix_indices(submask_nside, submask_hpix, submask_border, nside_mask, hpix):
    nside_cutref = np.clip(submask_nside * 4, 256, nside_mask)
    theta, phi = hpg.pixel_to_angle(nside_cutref, np.arange(hpg.nside_to_npixel(nside_cutref)), lonlat=False, nest=False)
    ipring_coarse = hpg.angle_to_pixel(submask_nside, theta, phi, lonlat=False, nest=False)
    inhpix, = np.where(ipring_coarse == submask_hpix)
    if submask_border > 0.0:
        boundaries = hpc.boundaries(submask_nside, submask_hpix, step=nside_cutref // submask_nside)
        for i in range(boundaries.shape[1]):
            pixint = hpc.query_disc(nside_cutref, boundaries[:, i], np.radians(submask_border), inclusive=True, fact=8)
            inhpix = np.append(inhpix, pixint)
            inhpix = np.unique(inhpix)
    theta, phi = hpg.pixel_to_angle(nside_mask, hpix, lonlat=False, nest=False)
    ipring = hpg.angle_to_pixel(nside_cutref, theta, phi, lonlat=False, nest=False)
    _, use = esutil.numpy_util.match(inhpix, ipring)
    return use

def get_healsparse_subpix_indices(subpix_nside, subpix_hpix, subpix_border, coverage_nside):
    if len(subpix_hpix) == 0:
        raise RuntimeError('subpix_hpix cannot be an empty list.')
    if subpix_border > 0.0 and len(subpix_hpix) > 1:
        raise NotImplementedError('Cannot read multiple subpixels with a border.')
    if subpix_nside == 0:
        return None
    elif subpix_nside == coverage_nside:
        covpix = hpg.ring_to_nest(subpix_nside, subpix_hpix)
    elif subpix_nside > coverage_nside:
        theta, phi = hpg.pixel_to_angle(subpix_nside, subpix_hpix, lonlat=False, nest=False)
        covpix = hpg.angle_to_pixel(coverage_nside, theta, phi, lonlat=False, nest=True)
    else:
        subpix_hpix_nest = hpg.ring_to_nest(subpix_nside, subpix_hpix)
        bit_shift = 2 * int(np.round(np.log(coverage_nside / subpix_nside) / np.log(2)))
        n_pix_per_pix = 2 ** bit_shift
        covpix = np.zeros(len(subpix_hpix_nest) * n_pix_per_pix, dtype=np.int64)
        for i, hpix in enumerate(subpix_hpix_nest):
            covpix[i * n_pix_per_pix:(i + 1) * n_pix_per_pix] = np.left_shift(hpix, bit_shift) + np.arange(n_pix_per_pix)
    if subpix_border > 0.0:
        nside_testing = max([coverage_nside * 4, subpix_nside * 4])
        boundaries = hpc.boundaries(subpix_nside, subpix_hpix[0], step=nside_testing // subpix_nside)
        extrapix = np.zeros(0, dtype=np.int64)
        for i in range(boundaries.shape[1]):
            pixint = hpc.query_disc(nside_testing, boundaries[:, i], np.radians(subpix_border), inclusive=True, fact=8)
            extrapix = np.append(extrapix, pixint)
        extrapix = np.unique(extrapix)
        theta, phi = hpg.pixel_to_angle(nside_testing, extrapix, lonlat=False, nest=False)
        covpix = np.unique(np.append(covpix, hpg.angle_to_pixel(coverage_nside, theta, phi, lonlat=False)))
    return covpix
