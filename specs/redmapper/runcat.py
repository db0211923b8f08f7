import fitsio
import numpy as np
import esutil
from .cluster import ClusterCatalog
from .background import Background
from .mask import HPMask
from .galaxy import GalaxyCatalog
from .cluster import Cluster
from .cluster import ClusterCatalog
from .depthmap import DepthMap
from .zlambda import Zlambda
from .zlambda import ZlambdaCorrectionPar
from .cluster_runner import ClusterRunner

class RunCatalog(ClusterRunner):

    def _additional_initialization(self, **kwargs):
        self.runmode = 'percolation'
        self.read_zreds = False
        self.zreds_required = False
        self.cutgals_bkgrange = True
        self.cutgals_chisqmax = True
        self.filetype = 'lambda_chisq'

    def run(self, *args, **kwargs):
        return super(RunCatalog, self).run(*args, **kwargs)

    def _more_setup(self, *args, **kwargs):
        self.config.logger.info('Reading in catalog file...')
        self.cat = ClusterCatalog.from_catfile(self.config.catfile, zredstr=self.zredstr, config=self.config, bkg=self.bkg, cosmo=self.cosmo, r0=self.r0, beta=self.beta)
        self._generate_mem_match_ids()
        self.do_percolation_masking = kwargs.pop('do_percolation_masking', False)
        self.maxiter = kwargs.pop('maxiter', 5)
        self.tol = kwargs.pop('tol', 0.005)
        self.converge_zlambda = kwargs.pop('converge_zlambda', False)
        self.do_lam_plusminus = True
        self.match_centers_to_galaxies = True
        self.record_members = True
        self.do_correct_zlambda = True
        self.do_pz = True
        if self.config.percolation_memlum is not None:
            if self.config.percolation_memlum > 0.0 and self.config.percolation_memlum < self.config.lval_reference:
                if self.config.percolation_memlum < self.limlum:
                    self.limlum = self.config.percolation_memlum
        if self.config.percolation_lmask is not None:
            if self.config.percolation_lmask > 0.0:
                if self.config.percolation_lmask < self.limlum:
                    self.limlum = self.config.percolation_lmask
        return True

    def _process_cluster(self, cluster):
        bad = False
        iteration = 0
        done = False
        maxmag = cluster.mstar - 2.5 * np.log10(self.limlum)
        while iteration < self.maxiter and (not done):
            if bad:
                done = True
                continue
            if cluster.maskfrac > 0.7:
                bad = True
                done = True
                continue
            lam = cluster.calc_richness(self.mask)
            if lam < 3.0:
                bad = True
                done = True
                self._reset_bad_values(cluster)
                continue
            zlam = Zlambda(cluster)
            z_lambda, z_lambda_e = zlam.calc_zlambda(cluster.redshift, self.mask, calc_err=True, calcpz=True)
            if z_lambda < 0.0:
                bad = True
                done = True
                self._reset_bad_values(cluster)
                continue
            cluster.z_lambda = z_lambda
            cluster.z_lambda_e = z_lambda_e
            cluster.z_lambda_niter = zlam.niter
            cluster.pzbins = zlam.pzbins
            cluster.pz = zlam.pz
            if self.converge_zlambda:
                if np.abs(cluster.redshift - cluster.z_lambda) < self.tol:
                    done = True
                cluster.redshift = cluster.z_lambda
            else:
                done = True
        return bad
