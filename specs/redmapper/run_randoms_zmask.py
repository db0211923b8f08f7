import fitsio
import numpy as np
import esutil
import os
from .cluster import ClusterCatalog
from .catalog import Catalog
from .background import Background
from .mask import HPMask
from .galaxy import GalaxyCatalog
from .randoms import RandomCatalog
from .cluster import Cluster
from .depthmap import DepthMap
from .cluster_runner import ClusterRunner

class RunRandomsZmask(ClusterRunner):

    def _additional_initialization(self):
        self.runmode = 'percolation'
        if self.config.depthfile is None:
            self.read_gals = True
        else:
            self.read_gals = False
        self.read_zreds = False
        self.zreds_required = False
        self.filetype = 'randoms_zmask'

    def run(self, *args, **kwargs):
        return super(RunRandomsZmask, self).run(*args, **kwargs)

    def _more_setup(self, *args, **kwargs):
        incat = RandomCatalog.from_randfile(self.config.randfile, nside=self.config.d.nside, hpix=self.config.d.hpix, border=self.config.border)
        dtype = [('MEM_MATCH_ID', 'i4'), ('RA', 'f8'), ('DEC', 'f8'), ('Z', 'f4'), ('LAMBDA', 'f4'), ('LAMBDA_E', 'f4'), ('Z_LAMBDA', 'f4'), ('Z_LAMBDA_E', 'f4'), ('R_LAMBDA', 'f4'), ('R_MASK', 'f4'), ('SCALEVAL', 'f4'), ('MASKFRAC', 'f4'), ('EBV_MEAN', 'f4'), ('ID_INPUT', 'i4'), ('LAMBDA_IN', 'f4'), ('Z_IN', 'f4')]
        self.cat = ClusterCatalog.zeros(incat.size, zredstr=self.zredstr, config=self.config, bkg=self.bkg, cosmo=self.cosmo, r0=self.r0, beta=self.beta, dtype=dtype)
        self.cat.ra = incat.ra
        self.cat.dec = incat.dec
        self.cat.mem_match_id = incat.id
        self.cat.z = incat.z
        self.cat.Lambda = incat.Lambda
        self.cat.id_input = incat.id_input
        self.cat.lambda_in = incat.Lambda
        self.cat.z_in = incat.z
        self.do_lam_plusminus = False
        self.match_centers_to_galaxies = False
        self.do_percolation_masking = False
        self.record_members = False
        return True

    def _process_cluster(self, cluster):
        cluster.Lambda = cluster.lambda_in
        cluster.r_lambda = cluster.r0 * (cluster.Lambda / 100.0) ** cluster.beta
        cluster.r_mask = cluster.r_lambda
        maxmag = cluster.mstar - 2.5 * np.log10(self.config.lval_reference)
        cpars = self.mask.calc_maskcorr(cluster.mstar, maxmag, cluster.zredstr.limmag)
        cval = np.sum(cpars * cluster.r_lambda ** np.arange(cpars.size)[::-1])
        cluster.scaleval = 1.0 / (1.0 - cval)
        return False
