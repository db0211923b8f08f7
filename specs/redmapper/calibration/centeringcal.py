import os
import numpy as np
import fitsio
import time
import scipy.optimize
import warnings
from ..configuration import Configuration
from ..utilities import sample_from_pdf, histoGauss, chisq_pdf
from ..redsequence import RedSequenceColorPar
from ..background import Background
from ..cluster import ClusterCatalog
from ..galaxy import GalaxyCatalog

class WcenFgFitter(object):

    def __init__(self, w, lscale):
        self._w = w
        self._lscale = lscale

    def fit(self, p0):
        pars = scipy.optimize.fmin(self, p0, disp=False, xtol=1e-05, ftol=1e-05)
        return pars

    def __call__(self, pars):
        sig = pars[1] * self._lscale
        f = 1.0 / (np.sqrt(2.0 * np.pi) * sig) * np.exp(-0.5 * (np.log(self._w) - pars[0]) ** 2.0 / sig ** 2.0)
        t = -np.sum(np.log(f))
        if pars[1] < 0.0:
            t += 1000.0
        return t

class WcenCFitter(object):

    def __init__(self, pcen, psat, mstar, lamscale, refmag, cwt, phi1, bcounts):
        self._pcen = pcen
        self._psat = psat
        self._mstar = mstar
        self._lamscale = lamscale
        self._refmag = refmag
        self._cwt = cwt
        self._phi1 = phi1
        self._bcounts = bcounts

    def fit(self, p0):
        pars = scipy.optimize.fmin(self, p0, disp=False, xtol=1e-05, ftol=1e-05)
        return pars

    def __call__(self, pars):
        mbar = self._mstar + pars[0] + pars[1] * self._lamscale
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            phicen = 1.0 / (np.sqrt(2.0 * np.pi) * pars[2]) * np.exp(-0.5 * (self._refmag - mbar) ** 2.0 / pars[2] ** 2.0)
            rho = self._pcen * phicen * self._cwt + self._psat * self._phi1 * self._cwt + (1.0 - self._pcen - self._psat) * self._bcounts
            bad, = np.where((rho < 1e-05) | ~np.isfinite(rho))
            rho[bad] = 1e-05
        t = -np.sum(np.log(rho))
        if pars[2] < 0.0:
            t += 1000
        return t

class WcenCwFitter(object):

    def __init__(self, pcen, psat, wcen, ffg, fsat, lscale):
        self._pcen = pcen
        self._psat = psat
        self._wcen = wcen
        self._ffg = ffg
        self._fsat = fsat
        self._lscale = lscale

    def fit(self, p0):
        pars = scipy.optimize.fmin(self, p0, disp=False, xtol=1e-05, ftol=1e-05)
        return pars

    def __call__(self, pars):
        sig = pars[1] * self._lscale
        fcen = 1.0 / (np.sqrt(2.0 * np.pi) * sig) * np.exp(-0.5 * (np.log(self._wcen) - pars[0]) ** 2.0 / sig ** 2.0)
        f = self._pcen * fcen + self._psat * self._fsat + (1.0 - self._pcen - self._psat) * self._ffg
        t = -np.sum(np.log(f))
        if pars[1] < 0.0:
            t += 1000.0
        return t

class WcenCalibrator(object):

    def __init__(self, config, iteration, randcatfile=None, randsatcatfile=None):
        self.config = config
        if iteration == 1:
            if randcatfile is None:
                if self.config.lnw_fg_sigma < 0:
                    raise RuntimeError('randcatfile must be set on iteration 1, or lnw_fg_mean and lnw_fg_sigma must be set in configuration')
            if randsatcatfile is None:
                if self.config.lnw_sat_sigma < 0:
                    raise RuntimeError('randsatcatfile must be set on iteration 1, or lnw_sat_mean and lnw_sat_sigma must be set in configuration')
        self.randcatfile = randcatfile
        self.randsatcatfile = randsatcatfile
        self.iteration = iteration

    def run(self, testing=False):
        if self.config.phi1_mmstar_m < -1000.0:
            self._schechter_montecarlo_calib(testing=testing)
        else:
            self.phi1_mmstar_m = self.config.phi1_mmstar_m
            self.phi1_mmstar_slope = self.config.phi1_mmstar_slope
            self.phi1_msig_m = self.config.phi1_msig_m
            self.phi1_msig_slope = self.config.phi1_msig_slope
        zredstr = RedSequenceColorPar(self.config.parfile, fine=True)
        bkg = Background(self.config.bkgfile)
        cat = ClusterCatalog.from_catfile(self.config.catfile, cosmo=self.config.cosmo)
        cat.z = cat.z_spec_init
        use, = np.where((cat.Lambda / cat.scaleval > self.config.wcen_minlambda) & (cat.Lambda / cat.scaleval < self.config.wcen_maxlambda) & (cat.w > 0.0) & (cat.z > self.config.wcen_cal_zrange[0]) & (cat.z < self.config.wcen_cal_zrange[1]) & (cat.maskfrac < self.config.max_maskfrac))
        cat = cat[use]
        randfiles = [self.randcatfile, self.randsatcatfile]
        for randfile in randfiles:
            if randfile is None:
                continue
            rcat = ClusterCatalog.from_catfile(randfile, cosmo=self.config.cosmo)
            rcat.z = rcat.z_spec_init
            use, = np.where((rcat.Lambda / rcat.scaleval > self.config.wcen_minlambda) & (rcat.Lambda / rcat.scaleval < self.config.wcen_maxlambda) & (rcat.w > 0.0) & (rcat.z > self.config.wcen_cal_zrange[0]) & (rcat.z < self.config.wcen_cal_zrange[1]) & (rcat.maskfrac < self.config.max_maskfrac))
            rcat = rcat[use]
            lscalefg = 1.0 / np.sqrt(rcat.Lambda / rcat.scaleval / self.config.wcen_pivot)
            fgfitter = WcenFgFitter(rcat.w, lscalefg)
            p0 = np.array([np.mean(np.log(rcat.w)), np.std(np.log(rcat.w))])
            p = fgfitter.fit(p0)
            if randfile == self.randcatfile:
                self.config.lnw_fg_mean = p[0]
                self.config.lnw_fg_sigma = p[1]
            else:
                self.config.lnw_sat_mean = p[0]
                self.config.lnw_sat_sigma = p[1]
        mstars = zredstr.mstar(cat.z)

        def _linfunc(p, x, y):
            return p[1] + p[0] * x - y
        fit = scipy.optimize.least_squares(_linfunc, [0.0, 0.0], loss='soft_l1', args=(np.log(cat.Lambda / self.config.wcen_pivot), cat.refmag - mstars))
        Delta0 = fit.x[1]
        Delta1 = fit.x[0]
        resid = cat.refmag - mstars - (Delta0 + Delta1 * np.log(cat.Lambda / self.config.wcen_pivot))
        sigma_m = np.std(resid)
        chisqs = zredstr.calculate_chisq(GalaxyCatalog(cat._ndarray), cat.z)
        cwt = chisq_pdf(chisqs, zredstr.ncol)
        mmstar1 = mstars + self.phi1_mmstar_m + self.phi1_mmstar_slope * np.log(cat.Lambda / self.config.wcen_pivot)
        phisig1 = self.phi1_msig_m + self.phi1_msig_slope * np.log(cat.Lambda / self.config.wcen_pivot)
        phi1 = 1.0 / (np.sqrt(2.0 * np.pi) * phisig1) * np.exp(-0.5 * (cat.refmag - mmstar1) ** 2.0 / phisig1 ** 2.0)
        sigma_g = bkg.sigma_g_lookup(cat.z, chisqs, cat.refmag)
        mpc_scale = np.radians(1.0) * self.config.cosmo.Da(0, cat.z)
        bcounts = sigma_g / mpc_scale ** 2.0 * np.pi * cat.r_lambda ** 2.0
        lscale = np.log(cat.Lambda / cat.scaleval / self.config.wcen_pivot)
        wfitter = WcenCFitter(cat.p_cen[:, 0], cat.p_sat[:, 0], mstars, lscale, cat.refmag, cwt, phi1, bcounts)
        p0 = np.array([Delta0, Delta1, sigma_m])
        p = wfitter.fit(p0)
        fgsig = self.config.lnw_fg_sigma / np.sqrt(cat.Lambda / cat.scaleval / self.config.wcen_pivot)
        ffg = 1.0 / (np.sqrt(2.0 * np.pi) * fgsig) * np.exp(-0.5 * (np.log(cat.w) - self.config.lnw_fg_mean) ** 2.0 / fgsig ** 2.0)
        satsig = self.config.lnw_sat_sigma / np.sqrt(cat.Lambda / cat.scaleval / self.config.wcen_pivot)
        fsat = 1.0 / (np.sqrt(2.0 * np.pi) * satsig) * np.exp(-0.5 * (np.log(cat.w) - self.config.lnw_sat_mean) ** 2.0 / satsig ** 2.0)
        lscalefg = 1.0 / np.sqrt(cat.Lambda / cat.scaleval / self.config.wcen_pivot)
        cwfitter = WcenCwFitter(cat.p_cen[:, 0], cat.p_sat[:, 0], cat.w, ffg, fsat, lscalefg)
        p0 = np.array([np.mean(np.log(cat.w)), np.std(np.log(cat.w))])
        wp = cwfitter.fit(p0)
        wcenstr = np.zeros(1, dtype=[('delta0', 'f8'), ('delta1', 'f8'), ('sigma_m', 'f8'), ('pivot', 'f8'), ('lnw_fg_mean', 'f8'), ('lnw_fg_sigma', 'f8'), ('lnw_sat_mean', 'f8'), ('lnw_sat_sigma', 'f8'), ('lnw_cen_mean', 'f8'), ('lnw_cen_sigma', 'f8'), ('phi1_mmstar_m', 'f8'), ('phi1_mmstar_slope', 'f8'), ('phi1_msig_m', 'f8'), ('phi1_msig_slope', 'f8')])
        wcenstr['delta0'] = p[0]
        wcenstr['delta1'] = p[1]
        wcenstr['sigma_m'] = p[2]
        wcenstr['pivot'] = self.config.wcen_pivot
        wcenstr['lnw_fg_mean'] = self.config.lnw_fg_mean
        wcenstr['lnw_fg_sigma'] = self.config.lnw_fg_sigma
        wcenstr['lnw_sat_mean'] = self.config.lnw_sat_mean
        wcenstr['lnw_sat_sigma'] = self.config.lnw_sat_sigma
        wcenstr['lnw_cen_mean'] = wp[0]
        wcenstr['lnw_cen_sigma'] = wp[1]
        wcenstr['phi1_mmstar_m'] = self.phi1_mmstar_m
        wcenstr['phi1_mmstar_slope'] = self.phi1_mmstar_slope
        wcenstr['phi1_msig_m'] = self.phi1_msig_m
        wcenstr['phi1_msig_slope'] = self.phi1_msig_slope
        fitsio.write(self.config.wcenfile, wcenstr, clobber=True)

    def _schechter_montecarlo_calib(self, testing=False):
        if testing:
            nmag = 1000
            ntrial = 100
            nlambdas = 3
        else:
            nmag = 100000
            ntrial = 5000
            nlambdas = 9
        mag = np.zeros(nmag)
        mstar = 0.0
        mrange = -2.5 * np.log10(np.array([10.0, 0.2]))
        step = 0.002

        def schechter(x, alpha=-1.0, mstar=0.0):
            return 10.0 ** (0.4 * (alpha + 1.0) * (mstar - x)) * np.exp(-10.0 ** (0.4 * (mstar - x)))
        mag = sample_from_pdf(schechter, mrange, step, nmag, alpha=self.config.calib_lumfunc_alpha, mstar=mstar)
        lambdas = np.linspace(20, 100, num=nlambdas, dtype=np.int32)
        m1 = np.zeros((nlambdas, ntrial))
        m2 = np.zeros_like(m1)
        m3 = np.zeros_like(m1)
        for i in range(ntrial):
            r = np.random.rand(nmag)
            st = np.argsort(r)
            for j in range(nlambdas):
                u = st[0:lambdas[j] - 1]
                st2 = np.argsort(mag[u])
                m1[j, i] = mag[u[st2[0]]]
                m2[j, i] = mag[u[st2[1]]]
                m3[j, i] = mag[u[st2[2]]]
        mmstar1_mean = np.zeros(nlambdas)
        mmstar1_sigma = np.zeros(nlambdas)
        mmstar2_mean = np.zeros(nlambdas)
        mmstar2_sigma = np.zeros(nlambdas)
        mmstar3_mean = np.zeros(nlambdas)
        mmstar3_sigma = np.zeros(nlambdas)
        for i in range(nlambdas):
            coeff = histoGauss(None, m1[i, :])
            mmstar1_mean[i] = coeff[1]
            mmstar1_sigma[i] = coeff[2]
            coeff = histoGauss(None, m2[i, :])
            mmstar2_mean[i] = coeff[1]
            mmstar2_sigma[i] = coeff[2]
            coeff = histoGauss(None, m3[i, :])
            mmstar3_mean[i] = coeff[1]
            mmstar3_sigma[i] = coeff[2]
        fit = np.polyfit(np.log(lambdas / self.config.wcen_pivot), mmstar1_mean, 1)
        self.phi1_mmstar_m = fit[1]
        self.phi1_mmstar_slope = fit[0]
        fit = np.polyfit(np.log(lambdas / self.config.wcen_pivot), mmstar1_sigma, 1)
        self.phi1_msig_m = fit[1]
        self.phi1_msig_slope = fit[0]
