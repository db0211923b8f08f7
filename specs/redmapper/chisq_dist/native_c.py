import numpy as np
import gsl
MIN_EIGENVAL = 1e-06
SIGINT_DEFAULT = 0.001

def chisq_dist(mode, do_chisq, nophotoerr, ncalc, ncol, covmat, c, slope, pivotmag, refmag, refmagerr, magerr, color, lupcorr, dist, sigint):
    nmag = ncol + 1
    covmat_temp = None
    use_refmagerr = 0
    norm = 1.0
    covmat_stride = ncol * ncol
    mrotmat = np.empty((ncol, nmag))
    mrotmat[:] = 0.0
    for i in range(ncol):
        mrotmat[i, i] = 1.0
        mrotmat[i, i + 1] = -1.0
    cobs = np.empty((nmag, nmag))
    cobsmat = np.empty((ncol, ncol))
    cobstemp = np.empty((ncol, nmag))
    pp = np.empty((ncol,))
    mmetric = np.empty((ncol, ncol))
    vdc = np.empty((ncol,))
    vdcm = np.empty((ncol,))
    cimat = None
    if refmagerr is not None:
        use_refmagerr = 1
        cimat = np.empty((ncol, ncol))
    if mode == 0:
        covmat_temp = np.zeros((ncol * ncol, gsl.sizeof('double')))
        if covmat_temp is None:
            return -1
        for i in range(ncalc):
            covmat_temp[:] = gsl.memcpy(covmat, gsl.sizeof('double') * ncol * ncol)
            cobs[:] = gsl.identity(1)
            for j in range(nmag):
                cobs[j, j] = magerr[i * nmag + j] * magerr[i * nmag + j]
            cobstemp[:] = 0.0
            cobstemp[:] = gsl.dgemm(CblasNoTrans, CblasTrans, 1.0, mrotmat, cobs, 0.0)
            cobsmat[:] = gsl.dgemm(CblasNoTrans, CblasTrans, 1.0, mrotmat, cobstemp, 0.0)
            mvcovmat = gsl.shape(ncol, ncol)
            if use_refmagerr:
                cimat[:] = 0.0
                for j in range(ncol):
                    for k in range(j, ncol):
                        val = slope[j] * slope[k] * refmagerr[i] * refmagerr[i]
                        cimat[j, k] = val
                        if k != j:
                            cimat[k, j] = val
            test = 1
            for j in range(ncol):
                if covmat_temp[j, j] < sigint * sigint:
                    test = 0
            if test == 0:
                if do_chisq:
                    dist[i] = 100000000000.0
                else:
                    dist[i] = -100000000000.0
            else:
                if not nophotoerr:
                    covmat_temp[:] = covmat_temp + cobsmat
                if use_refmagerr:
                    covmat_temp[:] = covmat_temp + cimat
                check_and_fix_covmat(covmat_temp)
                _lu1 = gsl.value(covmat_temp)
                covmat_temp[:] = gsl.LU(_lu1)
                pp[:] = gsl.LUperm(_lu1)
                s = gsl.LUsign(_lu1)
                mmetric[:] = gsl.LUinvert(covmat_temp, pp)
                if not do_chisq:
                    norm = gsl.LUdet(covmat_temp, s)
                for j in range(ncol):
                    vdc[j] = c[j] + slope[j] * (refmag[i] - pivotmag[0]) + lupcorr[i * ncol + j] - color[i * ncol + j]
                vdcm[:] = gsl.dgemv(CblasNoTrans, 1.0, mmetric, vdc, 0.0)
                chisq = gsl.ddot(vdcm, vdc)
                if do_chisq:
                    dist[i] = chisq
                else:
                    dist[i] = -0.5 * chisq - 0.5 * np.log(norm)
    elif mode == 1:
        covmat_temp = np.zeros((ncol * ncol * ncalc, gsl.sizeof('double')))
        if covmat_temp is None:
            return -1
        covmat_temp[:] = gsl.memcpy(covmat, gsl.sizeof('double') * ncol * ncol * ncalc)
        cobs[:] = gsl.identity(1)
        for j in range(nmag):
            cobs[j, j] = magerr[j] * magerr[j]
        cobstemp[:] = 0.0
        cobstemp[:] = gsl.dgemm(CblasNoTrans, CblasTrans, 1.0, mrotmat, cobs, 0.0)
        cobsmat[:] = gsl.dgemm(CblasNoTrans, CblasTrans, 1.0, mrotmat, cobstemp, 0.0)
        for i in range(ncalc):
            mvcovmat = gsl.shape(ncol, ncol)
            if use_refmagerr:
                cimat[:] = 0.0
                for j in range(ncol):
                    for k in range(j, ncol):
                        val = slope[i * ncol + j] * slope[i * ncol + k] * refmagerr[0] * refmagerr[0]
                        cimat[j, k] = val
                        if k != j:
                            cimat[k, j] = val
            test = 1
            for j in range(ncol):
                if covmat_temp[covmat_stride * i, j, j] < sigint * sigint:
                    test = 0
            if test == 0:
                if do_chisq:
                    dist[i] = 100000000000.0
                else:
                    dist[i] = -100000000000.0
            else:
                if not nophotoerr:
                    covmat_temp[covmat_stride * i] = covmat_temp[covmat_stride * i] + cobsmat
                if use_refmagerr:
                    covmat_temp[covmat_stride * i] = covmat_temp[covmat_stride * i] + cimat
                check_and_fix_covmat(covmat_temp[covmat_stride * i])
                _lu2 = gsl.value(covmat_temp[covmat_stride * i])
                covmat_temp[covmat_stride * i] = gsl.LU(_lu2)
                pp[:] = gsl.LUperm(_lu2)
                s = gsl.LUsign(_lu2)
                mmetric[:] = gsl.LUinvert(covmat_temp[covmat_stride * i], pp)
                if not do_chisq:
                    norm = gsl.LUdet(covmat_temp[covmat_stride * i], s)
                for j in range(ncol):
                    vdc[j] = c[i * ncol + j] + slope[i * ncol + j] * (refmag[0] - pivotmag[i]) + lupcorr[i * ncol + j] - color[j]
                vdcm[:] = gsl.dgemv(CblasNoTrans, 1.0, mmetric, vdc, 0.0)
                chisq = gsl.ddot(vdcm, vdc)
                if do_chisq:
                    dist[i] = chisq
                else:
                    dist[i] = -0.5 * chisq - 0.5 * np.log(norm)
    else:
        covmat_temp = np.zeros((ncol * ncol * ncalc, gsl.sizeof('double')))
        if covmat_temp is None:
            return -1
        covmat_temp[:] = gsl.memcpy(covmat, gsl.sizeof('double') * ncol * ncol * ncalc)
        for i in range(ncalc):
            cobs[:] = gsl.identity(1)
            for j in range(nmag):
                cobs[j, j] = magerr[i * nmag + j] * magerr[i * nmag + j]
            cobstemp[:] = 0.0
            cobstemp[:] = gsl.dgemm(CblasNoTrans, CblasTrans, 1.0, mrotmat, cobs, 0.0)
            cobsmat[:] = gsl.dgemm(CblasNoTrans, CblasTrans, 1.0, mrotmat, cobstemp, 0.0)
            mvcovmat = gsl.shape(ncol, ncol)
            if use_refmagerr:
                cimat[:] = 0.0
                for j in range(ncol):
                    for k in range(j, ncol):
                        val = slope[i * ncol + j] * slope[i * ncol + k] * refmagerr[i] * refmagerr[i]
                        cimat[j, k] = val
                        if k != j:
                            cimat[k, j] = val
            test = 1
            for j in range(ncol):
                if covmat_temp[covmat_stride * i, j, j] < sigint * sigint:
                    test = 0
            if test == 0:
                if do_chisq:
                    dist[i] = 100000000000.0
                else:
                    dist[i] = -100000000000.0
            else:
                if not nophotoerr:
                    covmat_temp[covmat_stride * i] = covmat_temp[covmat_stride * i] + cobsmat
                if use_refmagerr:
                    covmat_temp[covmat_stride * i] = covmat_temp[covmat_stride * i] + cimat
                check_and_fix_covmat(covmat_temp[covmat_stride * i])
                _lu3 = gsl.value(covmat_temp[covmat_stride * i])
                covmat_temp[covmat_stride * i] = gsl.LU(_lu3)
                pp[:] = gsl.LUperm(_lu3)
                s = gsl.LUsign(_lu3)
                mmetric[:] = gsl.LUinvert(covmat_temp[covmat_stride * i], pp)
                if not do_chisq:
                    norm = gsl.LUdet(covmat_temp[covmat_stride * i], s)
                for j in range(ncol):
                    vdc[j] = c[i * ncol + j] + slope[i * ncol + j] * (refmag[i] - pivotmag[i]) + lupcorr[i * ncol + j] - color[i * ncol + j]
                vdcm[:] = gsl.dgemv(CblasNoTrans, 1.0, mmetric, vdc, 0.0)
                chisq = gsl.ddot(vdcm, vdc)
                if do_chisq:
                    dist[i] = chisq
                else:
                    dist[i] = -0.5 * chisq - 0.5 * np.log(norm)
    if use_refmagerr:
        pass
    return 0

def check_and_fix_covmat(covmat):
    nelt = covmat.size1
    mat = np.empty((nelt, nelt))
    wval = np.empty((nelt,))
    wvec = np.empty((nelt,))
    eigenval = np.empty((nelt,))
    mat[:] = gsl.value(covmat)
    _ev1 = gsl.value(mat)
    mat[:] = gsl.eigdestroyed(_ev1)
    eigenval[:] = gsl.eigvals(_ev1)
    test = 0
    for i in range(nelt):
        eigenval_i = eigenval[i]
        if eigenval_i < MIN_EIGENVAL:
            test = 1
            eigenval[i] = MIN_EIGENVAL
    if test:
        Q = np.empty((nelt, nelt))
        Qinv = np.empty((nelt, nelt))
        Lambda = np.empty((nelt, nelt))
        temp = np.empty((nelt, nelt))
        eigenval_temp = np.empty((nelt,))
        pp = np.empty((nelt,))
        mat[:] = gsl.value(covmat)
        _ev2 = gsl.value(mat)
        mat[:] = gsl.eigdestroyed(_ev2)
        eigenval_temp[:] = gsl.eigvals(_ev2)
        Q[:] = gsl.eigvecs(_ev2)
        temp[:] = gsl.value(Q)
        _lu3 = gsl.value(temp)
        temp[:] = gsl.LU(_lu3)
        pp[:] = gsl.LUperm(_lu3)
        s = gsl.LUsign(_lu3)
        Qinv[:] = gsl.LUinvert(temp, pp)
        diag = gsl.gsl_matrix_diagonal(Lambda)
        Lambda[:] = 0.0
        diag.vector[:] = gsl.value(eigenval)
        temp[:] = gsl.dgemm(CblasNoTrans, CblasNoTrans, 1.0, Q, Lambda, 0.0)
        covmat[:] = gsl.dgemm(CblasNoTrans, CblasNoTrans, 1.0, temp, Qinv, 0.0)
    return 0

def ChisqDistObject_dealloc(self):
    if self.allocated:
        self.allocated = 0
    gsl.Py_TYPE(self).tp_free(self)

def ChisqDistObject_init(self, args):
    covmat_obj = None
    c_obj = None
    slope_obj = None
    pivotmag_obj = None
    refmag_obj = None
    refmagerr_obj = None
    magerr_obj = None
    color_obj = None
    lupcorr_obj = None
    self.allocated = 0
    mode = gsl.arg(args, 0, 'i')
    ngal = gsl.arg(args, 1, 'i')
    nz = gsl.arg(args, 2, 'i')
    ncol = gsl.arg(args, 3, 'i')
    covmat_obj = gsl.arg(args, 4, 'O')
    c_obj = gsl.arg(args, 5, 'O')
    slope_obj = gsl.arg(args, 6, 'O')
    pivotmag_obj = gsl.arg(args, 7, 'O')
    refmag_obj = gsl.arg(args, 8, 'O')
    refmagerr_obj = gsl.arg(args, 9, 'O')
    magerr_obj = gsl.arg(args, 10, 'O')
    color_obj = gsl.arg(args, 11, 'O')
    lupcorr_obj = gsl.arg(args, 12, 'O')
    if not gsl.parsed(args, 'iiiiOOOOOOOOO'):
        raise PyExc_RuntimeError('Failed to parse init')
    self.chisq_dist = np.zeros((1, gsl.sizeof('struct chisq_dist')))
    if self.chisq_dist is None:
        raise PyExc_RuntimeError('Failed to allocate struct chisq_dist')
    self.allocated = 1
    self.chisq_dist.mode = mode
    self.chisq_dist.ngal = ngal
    self.chisq_dist.nz = nz
    self.chisq_dist.ncol = ncol
    if gsl.PyArray_TYPE(covmat_obj) != NPY_FLOAT64:
        raise PyExc_ValueError('covmat must be of type float64')
    self.chisq_dist.covmat = covmat_obj
    if gsl.PyArray_TYPE(c_obj) != NPY_FLOAT64:
        raise PyExc_ValueError('c must be of type float64')
    self.chisq_dist.c = c_obj
    if gsl.PyArray_TYPE(slope_obj) != NPY_FLOAT64:
        raise PyExc_ValueError('slope must be of type float64')
    self.chisq_dist.slope = slope_obj
    if gsl.PyArray_TYPE(pivotmag_obj) != NPY_FLOAT64:
        raise PyExc_ValueError('pivotmag must be of type float64')
    self.chisq_dist.pivotmag = pivotmag_obj
    if gsl.PyArray_TYPE(refmag_obj) != NPY_FLOAT64:
        raise PyExc_ValueError('refmag must be of type float64')
    self.chisq_dist.refmag = refmag_obj
    if gsl.PyArray_TYPE(refmagerr_obj) != NPY_FLOAT64:
        raise PyExc_ValueError('refmagerr must be of type float64')
    self.chisq_dist.refmagerr = refmagerr_obj
    if gsl.PyArray_TYPE(magerr_obj) != NPY_FLOAT64:
        raise PyExc_ValueError('magerr must be of type float64')
    self.chisq_dist.magerr = magerr_obj
    if gsl.PyArray_TYPE(color_obj) != NPY_FLOAT64:
        raise PyExc_ValueError('color must be of type float64')
    self.chisq_dist.color = color_obj
    if gsl.PyArray_TYPE(lupcorr_obj) != NPY_FLOAT64:
        raise PyExc_ValueError('lupcorr must be of type float64')
    self.chisq_dist.lupcorr = lupcorr_obj
    if self.chisq_dist.mode == 0:
        self.chisq_dist.ncalc = ngal
    else:
        self.chisq_dist.ncalc = nz
    self.chisq_dist.sigint = SIGINT_DEFAULT
    return 0

def ChisqDistObject_repr(self):
    repr = np.empty(256)
    repr[:] = gsl.sprintf('Chisq Dist Object')
    return gsl.Py_BuildValue('y', repr)

def ChisqDistObject_compute(self, args):
    dims = np.empty(1)
    chisq_obj = None
    dims[0] = self.chisq_dist.ncalc
    chisq_obj = np.zeros((1, dims[0], 0), NPY_FLOAT64)
    chisq = chisq_obj
    do_chisq = gsl.arg(args, 0, 'i')
    nophotoerr = gsl.arg(args, 1, 'i')
    if not gsl.parsed(args, 'ii'):
        raise PyExc_RuntimeError('Failed to parse args')
    chisq_dist(self.chisq_dist.mode, do_chisq, nophotoerr, self.chisq_dist.ncalc, self.chisq_dist.ncol, self.chisq_dist.covmat, self.chisq_dist.c, self.chisq_dist.slope, self.chisq_dist.pivotmag, self.chisq_dist.refmag, self.chisq_dist.refmagerr, self.chisq_dist.magerr, self.chisq_dist.color, self.chisq_dist.lupcorr, chisq, self.chisq_dist.sigint)
    return chisq_obj
ChisqDistObject_methods = (('compute', ChisqDistObject_compute, METH_VARARGS, 'compute()'), (None,))
PyChisqDistType = (0, '_chisq_dist_pywrap.ChisqDist', gsl.sizeof('struct ChisqDistObject'), 0, ChisqDistObject_dealloc, 0, 0, 0, 0, ChisqDistObject_repr, 0, 0, 0, 0, 0, 0, 0, 0, 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, 'ChisqDist Class', 0, 0, 0, 0, 0, 0, ChisqDistObject_methods, 0, 0, 0, 0, 0, 0, 0, ChisqDistObject_init, 0, PyType_GenericNew)
ChisqDist_module_methods = ((None,),)
moduledef = (PyModuleDef_HEAD_INIT, '_chisq_dist_pywrap', 'ChisqDist (with color)', -1, ChisqDist_module_methods, None, None, None, None)

def PyInit__chisq_dist_pywrap():
    PyChisqDistType.tp_new = PyType_GenericNew
    if gsl.PyType_Ready(PyChisqDistType) < 0:
        return None
    m = gsl.PyModule_Create(moduledef)
    if m is None:
        return None
    gsl.PyModule_AddObject(m, 'ChisqDist', PyChisqDistType)
    return m
