import fitsio
import numpy as np
import esutil
import os
import gc
from esutil.cosmology import Cosmo
from .configuration import Configuration
from .cluster import ClusterCatalog
from .background import Background, ZredBackground
from .color_background import ColorBackground
from .mask import get_mask
from .galaxy import GalaxyCatalog
from .catalog import Catalog
from .cluster import Cluster
from .cluster import ClusterCatalog
from .depthmap import DepthMap
from .zlambda import Zlambda
from .zlambda import ZlambdaCorrectionPar
from .redsequence import RedSequenceColorPar
from .depth_fitting import DepthLim
from .utilities import getMemoryString

class ClusterRunner(object):

    def __init__(self, conf, **kwargs):
        if not isinstance(conf, Configuration):
            self.config = Configuration(conf)
        else:
            self.config = conf
        self.read_gals = True
        self.read_zreds = False
        self.zreds_required = False
        self.did_read_zreds = False
        self.zredbkg_required = False
        self.use_colorbkg = False
        self.use_parfile = True
        self.use_maxmag_in_matching = True
        self.use_rmask_settings = True
        self.cutgals_chisqmax = False
        self._filename = None
        self._additional_initialization(**kwargs)

    def _additional_initialization(self, **kwargs):
        self.runmode = None
        self.filetype = None
        raise RuntimeError('Method _additional_initialization requires override')

    def _setup(self):
        if len(self.config.d.hpix) == 0:
            self.hpix_logstr = 'All'
        else:
            self.hpix_logstr = ', '.join((str(x) for x in self.config.d.hpix))
        self.r0 = self.config.__getattribute__(self.runmode + '_r0')
        self.beta = self.config.__getattribute__(self.runmode + '_beta')
        if self.use_rmask_settings:
            self.rmask_0 = self.config.percolation_rmask_0
            self.rmask_beta = self.config.percolation_rmask_beta
            self.rmask_gamma = self.config.percolation_rmask_gamma
            self.rmask_zpivot = self.config.percolation_rmask_zpivot
        else:
            self.rmask_0 = self.r0
            self.rmask_beta = self.beta
            self.rmask_gamma = self.config.percolation_rmask_gamma
            self.rmask_zpivot = self.config.percolation_rmask_zpivot
        if self.config.percolation_lmask is None or self.config.percolation_lmask < 0.0:
            self.percolation_lmask = self.config.lval_reference
        else:
            self.percolation_lmask = self.config.percolation_lmask
        if self.beta == 0.0:
            self.maxrad = 1.2 * self.r0
            self.maxrad2 = 1.2 * self.rmask_0
        else:
            self.maxrad = self.r0 * (300.0 / 100.0) ** self.beta
            self.maxrad2 = self.rmask_0 * (300.0 / 100.0) ** self.rmask_beta
        if self.maxrad2 > self.maxrad:
            self.maxrad = self.maxrad2
        if self.config.bkg_local_compute or self.config.bkg_local_use:
            if self.config.bkg_local_annuli[1] > self.maxrad:
                self.maxrad = self.config.bkg_local_annuli[1]
        if self.use_colorbkg:
            self.cbkg = ColorBackground(self.config.bkgfile_color, usehdrarea=True)
            self.bkg = None
        else:
            self.bkg = Background(self.config.bkgfile)
            self.cbkg = None
        if self.zredbkg_required:
            self.zredbkg = ZredBackground(self.config.bkgfile)
        else:
            self.zredbkg = None
        if self.use_parfile:
            self.zredstr = RedSequenceColorPar(self.config.parfile, fine=True)
        else:
            self.zredstr = RedSequenceColorPar(None, config=self.config)
        try:
            self.zlambda_corr = ZlambdaCorrectionPar(parfile=self.config.zlambdafile, zlambda_pivot=self.config.zlambda_pivot)
        except:
            self.zlambda_corr = None
        self.mask = get_mask(self.config)
        try:
            self.depthstr = DepthMap(self.config)
        except:
            self.depthstr = None
        if self.depthstr is None and (not self.read_gals):
            raise RuntimeError('Must have a valid depthstr if read_gals is False')
        self.cosmo = self.config.cosmo
        if self.read_zreds:
            zredfile = self.config.zredfile
        else:
            zredfile = None
        if self.zreds_required and zredfile is None:
            raise RuntimeError('zreds are required, but zredfile is None')
        self.gals = None
        if self.read_gals:
            if self.cutgals_bkgrange:
                refmag_low = self.bkg.refmagbins[0]
                refmag_high = self.bkg.refmagbins[-1] + (self.bkg.refmagbins[1] - self.bkg.refmagbins[0])
            else:
                refmag_low = -1000.0
                refmag_high = 1000.0
            if self.config.use_tempfiles_to_conserve_memory:
                if self.cutgals_chisqmax:
                    chisq_max = self.config.chisq_max
                else:
                    chisq_max = 1e+100
                self.gals = GalaxyCatalog.from_galfile(self.config.galfile, nside=self.config.d.nside, hpix=self.config.d.hpix, border=self.config.border, zredfile=zredfile, use_tempfile=True, refmag_range=[refmag_low, refmag_high], chisq_max=chisq_max, zspec=self.config.centering_use_zspec)
                if zredfile is not None:
                    self.did_read_zreds = True
            else:
                self.gals = GalaxyCatalog.from_galfile(self.config.galfile, nside=self.config.d.nside, hpix=self.config.d.hpix, border=self.config.border, zredfile=zredfile, zspec=self.config.centering_use_zspec)
                if zredfile is not None:
                    self.did_read_zreds = True
                guse = (self.gals.refmag > refmag_low) & (self.gals.refmag < refmag_high)
                if self.did_read_zreds and self.cutgals_chisqmax:
                    guse &= self.gals.chisq < self.config.chisq_max
                self.config.logger.info('Cutting %d of %d galaxies.' % (guse.sum(), self.gals.size))
                self.gals = self.gals[guse]
            if len(self.gals) == 0:
                self.config.logger.info('No good galaxies for %s in pixel %s' % (self.runmode, self.hpix_logstr))
                return False
        if self.depthstr is None:
            try:
                self.depthlim = DepthLim(self.gals.refmag, self.gals.refmag_err)
            except RuntimeError:
                self.config.logger.info('Failed to obtain depth info in %s for pixel %s with %d galaxies.  Skipping pixel.' % (self.runmode, self.hpix_logstr, len(self.gals)))
                return False
        self.limlum = np.clip(self.config.lval_reference - 0.1, 0.01, None)
        self.do_percolation_masking = False
        self.do_lam_plusminus = False
        self.use_memradius = False
        self.use_memlum = False
        self.match_centers_to_galaxies = False
        self.min_lambda = -1.0
        self.record_members = False
        self.doublerun = False
        self.do_correct_zlambda = False
        self.do_pz = False
        return True

    def _more_setup(self, *args, **kwargs):
        return True

    def _generate_mem_match_ids(self):
        min_id = self.cat.mem_match_id.min()
        max_id = self.cat.mem_match_id.max()
        if min_id == max_id:
            self.cat.mem_match_id = np.arange(self.cat.size) + 1
        elif np.unique(self.cat.mem_match_id).size != self.cat.size:
            raise RuntimeError('Input values for mem_match_id are not unique (and not all unset)')

    def _reset_bad_values(self, cluster):
        cluster.Lambda = -1.0
        cluster.Lambda_e = -1.0
        cluster.scaleval = -1.0
        cluster.z_lambda = -1.0
        cluster.z_lambda_e = -1.0

    def _process_cluster(self, cluster):
        raise RuntimeError('_process_cluster must have an override')

    def run(self, *args, **kwargs):
        self.config.start_file_logging()
        if not self._setup():
            self.config.logger.info('Cluster initialization failed on pixel %s. No catalog will be produced.' % self.hpix_logstr)
            self.cat = None
            return
        if not self._more_setup(*args, **kwargs):
            self.config.logger.info('Cluster initialization failed on pixel %s. No catalog will be produced.' % self.hpix_logstr)
            self.cat = None
            return
        if self.match_centers_to_galaxies:
            i0, i1, dist = self.gals.match_many(self.cat.ra, self.cat.dec, 1.0 / 3600.0)
            self.cat.refmag[i0] = self.gals.refmag[i1]
            self.cat.refmag_err[i0] = self.gals.refmag_err[i1]
            self.cat.mag[i0, :] = self.gals.mag[i1, :]
            self.cat.mag_err[i0, :] = self.gals.mag_err[i1, :]
            if self.did_read_zreds:
                self.cat.zred[i0] = self.gals.zred[i1]
                self.cat.zred_e[i0] = self.gals.zred_e[i1]
                self.cat.zred_chisq[i0] = self.gals.chisq[i1]
        if self.do_percolation_masking or self.doublerun:
            self.pgal = np.zeros(self.gals.size, dtype=np.float32)
        self.members = None
        if self.doublerun:
            nruniter = 2
        else:
            nruniter = 1
        for it in range(nruniter):
            if self.doublerun:
                if it == 0:
                    self.config.logger.info('First iteration...')
                    self.do_percolation_masking = False
                else:
                    self.config.logger.info('Second iteration with percolation...')
                    self._doublerun_sort()
                    self.do_percolation_masking = True
                    self.record_members = True
            cctr = 0
            for cluster in self.cat:
                cluster.maskgal_index = self.mask.select_maskgals_sample()
                if cctr % 1000 == 0:
                    self.config.logger.info('%s: Working on cluster %d of %d' % (self.hpix_logstr, cctr, self.cat.size))
                cctr += 1
                if self.use_maxmag_in_matching:
                    maxmag = cluster.mstar - 2.5 * np.log10(self.limlum)
                else:
                    maxmag = None
                if self.read_gals:
                    cluster.find_neighbors(self.maxrad, self.gals, megaparsec=True, maxmag=maxmag)
                    if cluster.neighbors.size == 0:
                        self._reset_bad_values(cluster)
                        continue
                    if self.do_percolation_masking:
                        cluster.neighbors.pfree[:] = 1.0 - self.pgal[cluster.neighbors.index]
                    else:
                        cluster.neighbors.pfree[:] = 1.0
                if self.depthstr is None:
                    self.depthlim.calc_maskdepth(self.mask.maskgals, cluster.neighbors.refmag, cluster.neighbors.refmag_err)
                else:
                    self.depthstr.calc_maskdepth(self.mask.maskgals, cluster.ra, cluster.dec, cluster.mpc_scale)
                cluster.lim_exptime = np.median(self.mask.maskgals.exptime)
                cluster.lim_limmag = np.median(self.mask.maskgals.limmag)
                cluster.lim_limmag_hard = self.config.limmag_catalog
                self.mask.set_radmask(cluster)
                inside, = np.where(self.mask.maskgals.r < 1.0)
                bad, = np.where(self.mask.maskgals.mark[inside] == 0)
                cluster.maskfrac = float(bad.size) / float(inside.size)
                if cluster.maskfrac == 1.0 or cluster.lim_limmag <= 1.0:
                    bad_cluster = True
                else:
                    bad_cluster = self._process_cluster(cluster)
                if bad_cluster:
                    self._reset_bad_values(cluster)
                    continue
                if self.read_gals:
                    if self.config.bkg_local_compute and (not self.config.bkg_local_use):
                        if self.depthstr is None:
                            depth = self.depthlim
                        else:
                            depth = self.depthstr
                        cluster.bkg_local = cluster.compute_bkg_local(self.mask, depth)
                if self.do_correct_zlambda and self.zlambda_corr is not None and self.read_gals:
                    if self.do_pz:
                        zlam, zlam_e, pzbins, pzvals = self.zlambda_corr.apply_correction(cluster.Lambda, cluster.z_lambda, cluster.z_lambda_e, pzbins=cluster.pzbins, pzvals=cluster.pz)
                        cluster.pzbins = pzbins
                        cluster.pz = pzvals
                    else:
                        zlam, zlam_e = self.zlambda_corr.apply_correction(cluster.Lambda, cluster.z_lambda, cluster.z_lambda_e)
                    cluster.z_lambda = zlam
                    cluster.z_lambda_e = zlam_e
                inside, = np.where(self.mask.maskgals.r < cluster.r_lambda)
                bad, = np.where(self.mask.maskgals.mark[inside] == 0)
                if inside.size == 0:
                    cluster.maskfrac = 1.0
                else:
                    cluster.maskfrac = float(bad.size) / float(inside.size)
                if self.do_lam_plusminus and self.read_gals:
                    cluster_temp = cluster.copy()
                    cluster_temp.redshift = cluster.z_lambda - self.config.zlambda_epsilon
                    lam_zmeps = cluster_temp.calc_richness(self.mask)
                    elambda_zmeps = cluster_temp.lambda_e
                    cluster_temp.redshift = cluster.z_lambda + self.config.zlambda_epsilon
                    lam_zpeps = cluster_temp.calc_richness(self.mask)
                    elambda_zpeps = cluster_temp.lambda_e
                    if lam_zmeps > 0 and lam_zpeps > 0:
                        cluster.dlambda_dz = (np.log(lam_zpeps) - np.log(lam_zmeps)) / (2.0 * self.config.zlambda_epsilon)
                        cluster.dlambda_dz2 = (np.log(lam_zpeps) + np.log(lam_zmeps) - 2.0 * np.log(cluster.Lambda)) / self.config.zlambda_epsilon ** 2.0
                        cluster.dlambdavar_dz = (elambda_zpeps ** 2.0 - elambda_zmeps ** 2.0) / (2.0 * self.config.zlambda_epsilon)
                        cluster.dlambdavar_dz2 = (elambda_zpeps ** 2.0 + elambda_zmeps ** 2.0 - 2.0 * cluster.Lambda_e ** 2.0) / self.config.zlambda_epsilon ** 2.0
                if self.do_percolation_masking and self.read_gals:
                    r_mask = self.rmask_0 * (cluster.Lambda / 100.0) ** self.rmask_beta * ((1.0 + cluster.redshift) / (1.0 + self.rmask_zpivot)) ** self.rmask_gamma
                    if r_mask < cluster.r_lambda:
                        r_mask = cluster.r_lambda
                    cluster.r_mask = r_mask
                    lim = cluster.mstar - 2.5 * np.log10(self.percolation_lmask)
                    u, = np.where((cluster.neighbors.refmag < lim) & (cluster.neighbors.r < r_mask) & (cluster.neighbors.p > 0.0))
                    if u.size > 0:
                        self.pgal[cluster.neighbors.index[u]] += cluster.neighbors.p[u]
                if self.read_gals:
                    pfree_temp = cluster.neighbors.pfree[:]
                if (self.use_memradius or self.use_memlum) and self.read_gals:
                    ok = cluster.neighbors.p > 0.01
                    if self.use_memradius:
                        ok &= cluster.neighbors.r < self.config.percolation_memradius * cluster.r_lambda
                    if self.use_memlum:
                        ok &= cluster.neighbors.refmag < cluster.mstar - 2.5 * np.log10(self.config.percolation_memlum)
                    pfree_temp[~ok] = 0.0
                elif self.read_gals:
                    ok = cluster.neighbors.pmem > 0.01
                    pfree_temp[~ok] = 0.0
                if self.record_members and self.read_gals:
                    pfree_temp = cluster.neighbors.pfree[:]
                    if self.use_memradius or self.use_memlum:
                        ok = cluster.neighbors.p > 0.01
                        if self.use_memradius:
                            ok &= cluster.neighbors.r < self.config.percolation_memradius * cluster.r_lambda
                        if self.use_memlum:
                            ok &= cluster.neighbors.refmag < cluster.mstar - 2.5 * np.log10(self.config.percolation_memlum)
                        pfree_temp[~ok] = 0.0
                    else:
                        ok = cluster.neighbors.pmem > 0.01
                        pfree_temp[~ok] = 0.0
                    memuse, = np.where((pfree_temp > 0.01) | (cluster.neighbors.centering_cand == 1))
                    mem_temp = Catalog.zeros(memuse.size, dtype=self.config.member_dtype)
                    mem_temp.mem_match_id[:] = cluster.mem_match_id
                    mem_temp.id[:] = cluster.neighbors.id[memuse]
                    mem_temp.z[:] = cluster.redshift
                    mem_temp.ra[:] = cluster.neighbors.ra[memuse]
                    mem_temp.dec[:] = cluster.neighbors.dec[memuse]
                    mem_temp.r[:] = cluster.neighbors.r[memuse]
                    mem_temp.p[:] = cluster.neighbors.p[memuse]
                    mem_temp.pfree[:] = pfree_temp[memuse]
                    mem_temp.pcol[:] = cluster.neighbors.pcol[memuse]
                    mem_temp.theta_i[:] = cluster.neighbors.theta_i[memuse]
                    mem_temp.theta_r[:] = cluster.neighbors.theta_r[memuse]
                    mem_temp.refmag[:] = cluster.neighbors.refmag[memuse]
                    mem_temp.refmag_err[:] = cluster.neighbors.refmag_err[memuse]
                    if self.did_read_zreds:
                        mem_temp.zred[:] = cluster.neighbors.zred[memuse]
                        mem_temp.zred_e[:] = cluster.neighbors.zred_e[memuse]
                    mem_temp.chisq[:] = cluster.neighbors.chisq[memuse]
                    mem_temp.ebv[:] = cluster.neighbors.ebv[memuse]
                    mem_temp.mag[:, :] = cluster.neighbors.mag[memuse, :]
                    mem_temp.mag_err[:, :] = cluster.neighbors.mag_err[memuse, :]
                    if self.members is None:
                        self.members = mem_temp
                    else:
                        self.members.append(mem_temp)
        self._postprocess()
        self._cleanup()

    def _postprocess(self):
        use, = np.where(self.cat.Lambda >= self.min_lambda)
        self.cat = ClusterCatalog(self.cat._ndarray[use])
        if self.members is not None:
            a, b = esutil.numpy_util.match(self.cat.mem_match_id, self.members.mem_match_id)
            self.members = Catalog(self.members._ndarray[b])

    def _cleanup(self):
        del self.gals
        del self.bkg
        del self.cbkg
        del self.zredbkg
        del self.zredstr
        del self.depthstr
        del self.zlambda_corr
        del self.mask
        del self.cosmo
        gc.collect()

    def output(self, savemembers=True, withversion=True, clobber=False, outbase=None):
        self._filename = self.config.redmapper_filename(self.filetype + '_catalog', withversion=withversion, outbase=outbase)
        if self.cat is None:
            self.config.logger.info('Warning: no catalog generated for %s' % self._filename)
            return
        if savemembers:
            if self.members is None:
                self.config.logger.info('Warning: no members generated for %s' % self._filename)
            else:
                memfilename = self.config.redmapper_filename(self.filetype + '_catalog_members', withversion=withversion, outbase=outbase)
                self.members.to_fits_file(memfilename, clobber=clobber)
        self.config.logger.info('Writing catalog to file: %s' % self._filename)
        self.cat.to_fits_file(self._filename, clobber=clobber)

    @property
    def filename(self):
        if self._filename is None:
            return self.config.redmapper_filename(self.filetype + '_catalog')
        else:
            return self._filename
