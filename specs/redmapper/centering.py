import fitsio
import esutil
import numpy as np
from .utilities import gaussFunction
from .utilities import interpol

class Centering(object):

    def __init__(self, cluster, zlambda_corr=None):
        self.cluster = cluster
        self.zlambda_corr = zlambda_corr
        self.zredstr = cluster.zredstr
        self.config = cluster.config
        self.cosmo = cluster.cosmo
        self.ra = np.zeros(self.config.percolation_maxcen) - 400.0
        self.dec = np.zeros(self.config.percolation_maxcen) - 400.0
        self.ngood = 0
        self.index = np.zeros(self.config.percolation_maxcen, dtype=np.int32) - 1
        self.maxind = -1
        self.lnlamlike = -1.0
        self.lnbcglike = -1.0
        self.p_cen = np.zeros(self.config.percolation_maxcen)
        self.q_cen = np.zeros(self.config.percolation_maxcen)
        self.p_fg = np.zeros(self.config.percolation_maxcen)
        self.q_miss = 0.0
        self.p_sat = np.zeros(self.config.percolation_maxcen)
        self.p_c = np.zeros(self.config.percolation_maxcen)

    def find_center(self):
        return False

class CenteringBCG(Centering):

    def find_center(self):
        pmem_cut = 0.8
        z_neighbors = self.cluster.neighbors.zred.copy()
        z_neighbors_e = self.cluster.neighbors.zred_e.copy()
        if self.config.centering_use_zspec:
            has_zspec, = np.where(self.cluster.neighbors.zspec > 0.0)
            z_neighbors[has_zspec] = self.cluster.neighbors.zspec[has_zspec]
            z_neighbors_e[has_zspec] = self.cluster.neighbors.zspec_err[has_zspec]
        use, = np.where((self.cluster.neighbors.r < self.cluster.r_lambda) & ((self.cluster.neighbors.pmem > pmem_cut) | (np.abs(z_neighbors - self.cluster.redshift) < 2.0 * z_neighbors_e)))
        if use.size == 0:
            return False
        mind = np.argmin(self.cluster.neighbors.refmag[use])
        self.maxind = use[mind]
        self.ra = np.array([self.cluster.neighbors.ra[self.maxind]])
        self.dec = np.array([self.cluster.neighbors.dec[self.maxind]])
        self.ngood = 1
        self.index[0] = self.maxind
        self.p_cen[0] = 1.0
        self.q_cen[0] = 1.0
        self.p_sat[0] = 0.0
        return True

class CenteringWcenZred(Centering):

    def find_center(self):
        z_neighbors = self.cluster.neighbors.zred.copy()
        z_neighbors_e = self.cluster.neighbors.zred_e.copy()
        chisq_neighbors = self.cluster.neighbors.zred_chisq.copy()
        if self.config.centering_use_zspec:
            has_zspec, = np.where(self.cluster.neighbors.zspec > 0.0)
            z_neighbors[has_zspec] = self.cluster.neighbors.zspec[has_zspec]
            z_neighbors_e[has_zspec] = self.cluster.neighbors.zspec_err[has_zspec]
            chisq_neighbors[has_zspec] = 1.0
        use, = np.where((self.cluster.neighbors.r < self.cluster.r_lambda) & (self.cluster.neighbors.pfree >= self.config.percolation_pbcg_cut) & (chisq_neighbors < self.config.wcen_zred_chisq_max) & ((self.cluster.neighbors.pmem > 0.0) | (np.abs(self.cluster.redshift - z_neighbors) < 5.0 * z_neighbors_e)))
        if use.size == 0:
            return False
        mbar = self.cluster.mstar + self.config.wcen_Delta0 + self.config.wcen_Delta1 * np.log(self.cluster.Lambda / self.config.wcen_pivot)
        phi_cen = gaussFunction(self.cluster.neighbors.refmag[use], 1.0 / (np.sqrt(2.0 * np.pi) * self.config.wcen_sigma_m), mbar, self.config.wcen_sigma_m)
        if self.zlambda_corr is not None:
            zrmod = interpol(self.zlambda_corr.zred_uncorr, self.zlambda_corr.z, self.cluster.redshift)
            gz = gaussFunction(z_neighbors[use], 1.0 / (np.sqrt(2.0 * np.pi) * z_neighbors_e[use]), zrmod, z_neighbors_e[use])
        else:
            gz = gaussFunction(z_neighbors[use], 1.0 / (np.sqrt(2.0 * np.pi) * z_neighbors_e[use]), self.cluster.redshift, z_neighbors_e[use])
        u, = np.where(self.cluster.neighbors.p > 0.0)
        maxrad = 1.1 * self.cluster.r_lambda / self.cluster.mpc_scale
        htm_matcher = esutil.htm.Matcher(self.cluster.neighbors.depth, self.cluster.neighbors.ra[use], self.cluster.neighbors.dec[use])
        i2, i1, dist = htm_matcher.match(self.cluster.neighbors.ra[u], self.cluster.neighbors.dec[u], maxrad, maxmatch=0)
        subdifferent, = np.where(~(use[i1] == u[i2]))
        i1 = i1[subdifferent]
        i2 = i2[subdifferent]
        pdis = dist[subdifferent] * self.cluster.mpc_scale
        pdis = np.sqrt(pdis ** 2.0 + self.config.wcen_rsoft ** 2.0)
        lum = 10.0 ** ((self.cluster.mstar - self.cluster.neighbors.refmag) / 2.5)
        w = np.zeros(use.size) + 0.001
        for i in range(use.size):
            subgal, = np.where(i1 == i)
            if subgal.size > 0:
                inside, = np.where(pdis[subgal] < self.cluster.r_lambda)
                if inside.size > 0:
                    indices = u[i2[subgal[inside]]]
                    if self.config.wcen_uselum:
                        w[i] = np.log(np.sum(self.cluster.neighbors.p[indices] * lum[indices] / pdis[subgal[inside]]) / (1.0 / self.cluster.r_lambda * np.sum(self.cluster.neighbors.p[indices] * lum[indices])))
                    else:
                        w[i] = np.log(np.sum(self.cluster.neighbors.p[indices] / pdis[subgal[inside]]) / (1.0 / self.cluster.r_lambda * np.sum(self.cluster.neighbors.p[indices])))
        sigscale = np.sqrt(np.clip(self.cluster.Lambda, None, self.config.wcen_maxlambda) / self.cluster.scaleval / self.config.wcen_pivot)
        sig = self.config.lnw_cen_sigma / sigscale
        fw = gaussFunction(np.log(w), 1.0 / (np.sqrt(2.0 * np.pi) * sig), self.config.lnw_cen_mean, sig)
        ucen = phi_cen * gz * fw
        lo, = np.where(ucen < 1e-10)
        ucen[lo] = 0.0
        maxmag = self.cluster.mstar - 2.5 * np.log10(self.config.lval_reference)
        phi_sat = self.cluster._calc_luminosity(maxmag, idx=use)
        satsig = self.config.lnw_sat_sigma / sigscale
        fsat = gaussFunction(np.log(w), 1.0 / (np.sqrt(2.0 * np.pi) * satsig), self.config.lnw_sat_mean, satsig)
        usat = phi_sat * gz * fsat
        lo, = np.where(usat < 1e-10)
        usat[lo] = 0.0
        fgsig = self.config.lnw_fg_sigma / sigscale
        ffg = gaussFunction(np.log(w), 1.0 / (np.sqrt(2.0 * np.pi) * fgsig), self.config.lnw_fg_mean, fgsig)
        rtest = np.zeros(use.size) + 0.1
        bcounts = ffg * (self.cluster.calc_zred_bkg_density(rtest, z_neighbors[use], self.cluster.neighbors.refmag[use]) / (2.0 * np.pi * rtest)) * np.pi * self.cluster.r_lambda ** 2.0
        Pcen_basic = np.clip(self.cluster.neighbors.pfree[use] * (ucen / (ucen + (self.cluster.Lambda / self.cluster.scaleval - 1.0) * usat + bcounts)), None, 0.99999)
        bad, = np.where(~np.isfinite(Pcen_basic))
        Pcen_basic[bad] = 0.0
        okay, = np.where(Pcen_basic > 0.0)
        if okay.size == 0:
            self.q_miss = 1.0
            good = np.atleast_1d(np.argmin(self.cluster.neighbors.r[use]))
            maxind = use[good[0]]
            Pcen = np.zeros(use.size)
            Qcen = np.zeros(use.size)
        else:
            Pcen_unnorm = np.zeros(use.size)
            ok, = np.where(Pcen_basic > 0)
            st = np.argsort(Pcen_basic[ok])[::-1]
            if st.size < self.config.percolation_maxcen:
                good = ok[st]
            else:
                good = ok[st[0:self.config.percolation_maxcen]]
            self.ngood = good.size
            for i in range(self.ngood):
                Pcen0 = Pcen_basic[good[i]]
                Pcen_basic[good[i]] = 0.0
                Pcen_unnorm[good[i]] = Pcen0 * np.prod(1.0 - Pcen_basic[good])
                Pcen_basic[good[i]] = Pcen0
            Qmiss = np.prod(1.0 - Pcen_basic[good])
            KQ = 1.0 / (Qmiss + np.sum(Pcen_unnorm))
            KP = 1.0 / np.sum(Pcen_unnorm)
            Pcen = KP * Pcen_unnorm
            Qcen = KQ * Pcen_unnorm
            mod1 = np.sum(np.log(ucen[good] + (self.cluster.Lambda - 1) * usat[good] + bcounts[good]))
            mod2 = np.sum(np.log(self.cluster.Lambda * usat[good] + bcounts[good]))
            Qmiss = -2.0 * np.sum(np.log((ucen[good] + (self.cluster.Lambda - 1) * usat[good] + bcounts[good]) / (self.cluster.Lambda * usat[good] + bcounts[good])))
            maxind = use[good[0]]
        Pfg_basic = bcounts[good] / ((self.cluster.Lambda - 1.0) * usat[good] + bcounts[good])
        inf, = np.where(~np.isfinite(Pfg_basic))
        Pfg_basic[inf] = 0.0
        Pfg = (1.0 - Pcen[good]) * Pfg_basic
        Psat_basic = (self.cluster.Lambda - 1.0) * usat[good] / ((self.cluster.Lambda - 1.0) * usat[good] + bcounts[good])
        inf, = np.where(~np.isfinite(Psat_basic))
        Psat_basic[inf] = 0.0
        Psat = (1.0 - Pcen[good]) * Psat_basic
        self.ra[0:good.size] = self.cluster.neighbors.ra[use[good]]
        self.dec[0:good.size] = self.cluster.neighbors.dec[use[good]]
        self.maxind = use[good[0]]
        self.index[0:good.size] = use[good]
        self.p_cen[0:good.size] = Pcen[good]
        self.q_cen[0:good.size] = Qcen[good]
        self.p_fg[0:good.size] = Pfg
        self.p_sat[0:good.size] = Psat
        self.p_c[0:good.size] = Pcen_basic[good]
        return True

class CenteringRandom(Centering):

    def find_center(self):
        r = self.cluster.r_lambda * np.sqrt(np.random.random(size=1))
        phi = 2.0 * np.pi * np.random.random(size=1)
        x = r * np.cos(phi) / self.cluster.mpc_scale
        y = r * np.sin(phi) / self.cluster.mpc_scale
        ra_cen = self.cluster.ra + x / np.cos(np.radians(self.cluster.dec))
        dec_cen = self.cluster.dec + y
        self.ra[0] = ra_cen[0]
        self.dec[0] = dec_cen[0]
        self.ngood = 1
        self.index[0] = -1
        self.maxind = -1
        self.p_cen[0] = 1.0
        self.q_cen[0] = 1.0
        self.p_sat[0] = 0.0
        self.p_fg[0] = 0.0
        self.p_c[0] = 1.0
        return True

class CenteringRandomSatellite(Centering):

    def find_center(self):
        st = np.argsort(self.cluster.neighbors.pmem)[::-1]
        pdf = self.cluster.neighbors.pmem[st]
        pdf /= np.sum(pdf)
        cdf = np.cumsum(pdf, dtype=np.float64)
        cdfi = (cdf * st.size).astype(np.int32)
        rand = (np.random.uniform(size=1) * st.size).astype(np.int32)
        ind = np.where(cdfi >= rand[0])[0][0]
        maxind = st[ind]
        ra_cen = self.cluster.neighbors.ra[maxind]
        dec_cen = self.cluster.neighbors.dec[maxind]
        self.ra[0] = ra_cen
        self.dec[0] = dec_cen
        self.index[0] = maxind
        self.maxind = maxind
        self.ngood = 1
        self.p_cen[0] = 1.0
        self.q_cen[0] = 1.0
        self.p_sat[0] = 0.0
        self.p_fg[0] = 0.0
        self.p_c[0] = 1.0
        return True
