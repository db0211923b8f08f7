import fitsio
import numpy as np
import esutil
import copy
import warnings
from .cluster import ClusterCatalog
from .catalog import Catalog
from .background import Background
from .mask import HPMask
from .galaxy import GalaxyCatalog
from .cluster import Cluster
from .cluster import ClusterCatalog
from .depthmap import DepthMap
from .zlambda import Zlambda
from .zlambda import ZlambdaCorrectionPar
from .cluster_runner import ClusterRunner
from .utilities import chisq_pdf, interpol

class RunLikelihoods(ClusterRunner):

    def _additional_initialization(self):
        self.runmode = 'likelihoods'
        if self.config.likelihoods_use_zred:
            self.read_zreds = True
            self.zreds_required = True
        else:
            self.read_zreds = False
            self.zreds_required = False
        self.cutgals_bkgrange = True
        self.cutgals_chisqmax = True
        self.filetype = 'like'

    def run(self, *args, **kwargs):
        return super(RunLikelihoods, self).run(*args, **kwargs)

    def _more_setup(self, *args, **kwargs):
        self.cleaninput = kwargs.pop('cleaninput', False)
        self.config.logger.info('%s: Likelihoods using catfile: %s' % (self.hpix_logstr, self.config.catfile))
        self.cat = ClusterCatalog.from_catfile(self.config.catfile, zredstr=self.zredstr, config=self.config, bkg=self.bkg, cosmo=self.cosmo, r0=self.r0, beta=self.beta)
        keepz = kwargs.pop('keepz', False)
        zrange = copy.copy(self.config.zrange)
        if keepz:
            zrange[0] -= self.config.calib_zrange_cushion
            zrange[0] = zrange[0] if zrange[0] > 0.05 else 0.05
            zrange[1] += self.config.calib_zrange_cushion
        use, = np.where((self.cat.z > zrange[0]) & (self.cat.z < zrange[1]) & (self.cat.Lambda > 0.0))
        if use.size == 0:
            self.cat = None
            self.config.logger.info('No usable inputs for likelihood on pixel %s' % self.hpix_logstr)
            return False
        mstar = self.zredstr.mstar(self.cat.z[use])
        mlim = mstar - 2.5 * np.log10(self.limlum)
        good, = np.where(self.cat.refmag[use] < mlim)
        if good.size == 0:
            self.cat = None
            self.config.logger.info('No good inputs for likelihood on pixel %s' % self.hpix_logstr)
            return False
        self.cat = self.cat[use[good]]
        if self.cleaninput:
            catmask = self.mask.compute_radmask(self.cat.ra, self.cat.dec)
            self.cat = self.cat[catmask]
            if self.cat.size == 0:
                self.cat = None
                self.config.logger.info('No input cluster positions are in the mask on pixel %s' % self.hpix_logstr)
                return False
        self.do_lam_plusminus = False
        self.match_centers_to_galaxies = False
        self.record_members = False
        self.do_correct_zlambda = False
        self.do_pz = False
        return True

    def _reset_bad_values(self, cluster):
        cluster.lnlamlike = -100000000000.0
        cluster.lncglike = -100000000000.0
        cluster.lnlike = -100000000000.0
        super(RunLikelihoods, self)._reset_bad_values(cluster)

    def _process_cluster(self, cluster):
        bad = False
        maxmag = cluster.mstar - 2.5 * np.log10(self.limlum)
        lam = cluster.calc_richness(self.mask)
        minrind = np.argmin(cluster.neighbors.r)
        incut, = np.where((cluster.neighbors.pmem > 0.0) & (cluster.neighbors.r > cluster.neighbors.r[minrind]))
        if cluster.Lambda < self.config.likelihoods_minlambda or incut.size < 3:
            self._reset_bad_values(cluster)
            bad = True
            return bad
        cluster.lnlamlike = -cluster.Lambda / cluster.scaleval - np.sum(np.log(1.0 - cluster.neighbors.pmem[incut]))
        if self.config.lnw_cen_sigma <= 0.0:
            cluster.lncglike = 0.0
        else:
            mbar = cluster.mstar + self.config.wcen_Delta0 + self.config.wcen_Delta1 * np.log(cluster.Lambda / self.config.wcen_pivot)
            phi_cen = 1.0 / (np.sqrt(2.0 * np.pi) * self.config.wcen_sigma_m) * np.exp(-0.5 * (cluster.neighbors.refmag[minrind] - mbar) ** 2.0 / self.config.wcen_sigma_m ** 2.0)
            if self.config.likelihoods_use_zred:
                if self.zlambda_corr is not None:
                    zrmod = interpol(self.zlambda_corr.zred_uncorr, self.zlambda_corr.z, cluster.z_lambda)
                else:
                    zrmod = cluster.z_lambda
                g = 1.0 / (np.sqrt(2.0 * np.pi) * cluster.neighbors.zred_e[minrind]) * np.exp(-0.5 * (cluster.neighbors.zred[minrind] - zrmod) ** 2.0 / cluster.neighbors.zred_e[minrind] ** 2.0)
            else:
                g = chisq_pdf(cluster.neighbors.chisq[minrind], self.zredstr.ncol)
            lum = 10.0 ** ((cluster.mstar - cluster.neighbors.refmag) / 2.5)
            u, = np.where((cluster.neighbors.r > 1e-05) & (cluster.neighbors.pmem > 0.0))
            w = np.log(np.sum(cluster.neighbors.pmem[u] * lum[u] / np.sqrt(cluster.neighbors.r[u] ** 2.0 + self.config.wcen_rsoft ** 2.0)) / (1.0 / cluster.r_lambda * np.sum(cluster.neighbors.pmem[u] * lum[u])))
            sig = self.config.lnw_cen_sigma / np.sqrt(np.clip(cluster.Lambda, None, self.config.wcen_maxlambda) / cluster.scaleval / self.config.wcen_pivot)
            fw = 1.0 / (np.sqrt(2.0 * np.pi) * sig) * np.exp(-0.5 * (np.log(w) - self.config.lnw_cen_mean) ** 2.0 / sig ** 2.0)
            with warnings.catch_warnings():
                warnings.simplefilter('error')
                cluster.lncglike = np.log(phi_cen * np.clip(g, 1e-10, None) * fw)
        cluster.lnlike = cluster.lncglike + cluster.lnlamlike
        return bad

    def _postprocess(self):
        use, = np.where(self.cat.lnlamlike > -100000000000.0)
        self.cat = ClusterCatalog(self.cat._ndarray[use])
