import numpy as np
import gsl
CPAR_NTERMS = 4
CVAL_DEFAULT = 0.0
RSIG_DEFAULT = 0.0
SCALEVAL_DEFAULT = 1.0
SCALEVAL_DEFAULT_NOTUSE = -1.0
TOL_DEFAULT = 0.01

def nfw_weights(inlambda, r0, beta, ngal, ucounts, bcounts, r, w, p, wt, rlambda, theta_r, rsig, update_all):
    rsig_const = 1.0 / (np.sqrt(2) * rsig)
    rlambda[0] = r0 * (inlambda / 100.0) ** beta
    logrlambda = np.log(rlambda[0])
    nfwnorm = np.exp(1.65169 - 0.54785 * logrlambda + 0.138202 * logrlambda ** 2 - 0.0719021 * logrlambda ** 3 - 0.0158241 * logrlambda ** 4 - 0.000854985 * logrlambda ** 5)
    for i in range(ngal):
        if update_all:
            p[i] = inlambda * ucounts[i] * nfwnorm / (inlambda * ucounts[i] * nfwnorm + bcounts[i])
        if not np.isfinite(p[i]):
            p[i] = 0.0
        if rsig <= 0.0:
            if r[i] < rlambda[0]:
                if update_all:
                    wt[i] = p[i] * w[i]
                theta_r[i] = 1.0
            else:
                wt[i] = 0.0
                theta_r[i] = 0.0
        else:
            if r[i] < rlambda[0] - 5.0 * rsig:
                theta_r[i] = 1.0
            elif r[i] > rlambda[0] + 5.0 * rsig:
                theta_r[i] = 0.0
            else:
                theta_r[i] = 0.5 + 0.5 * gsl.erf((rlambda[0] - r[i]) * rsig_const)
            if update_all:
                wt[i] = p[i] * w[i] * theta_r[i]
    return 0

def solver_nfw(r0, beta, ngal, ucounts, bcounts, r, w, lambda_, p, wt, rlambda, theta_r, tol, cpars, rsig):
    lamlo = 0.5
    lamhi = 2000.0
    outlo = -1.0
    while np.abs(lamhi - lamlo) > 2 * tol:
        mid = (lamhi + lamlo) / 2.0
        if outlo < 0.0:
            nfw_weights(lamlo, r0, beta, ngal, ucounts, bcounts, r, w, p, wt, rlambda, theta_r, rsig, 1)
            outlo = 0.0
            for i in range(ngal):
                outlo = outlo + wt[i]
            cval = cpars[3] + cpars[2] * rlambda[0] + cpars[1] * rlambda[0] * rlambda[0] + cpars[0] * rlambda[0] * rlambda[0] * rlambda[0]
            if cval < 0.0:
                cval = 0.0
            outlo = outlo + lamlo * cval
        nfw_weights(mid, r0, beta, ngal, ucounts, bcounts, r, w, p, wt, rlambda, theta_r, rsig, 1)
        outmid = 0.0
        for i in range(ngal):
            outmid = outmid + wt[i]
        cval = cpars[3] + cpars[2] * rlambda[0] + cpars[1] * rlambda[0] * rlambda[0] + cpars[0] * rlambda[0] * rlambda[0] * rlambda[0]
        if cval < 0.0:
            cval = 0.0
        outmid = outmid + mid * cval
        if outlo < 1.0:
            outlo = 0.9
        if (outlo - lamlo) * (outmid - mid) > 0.0:
            lamlo = mid
            outlo = -1.0
        else:
            lamhi = mid
    lambda_[0] = (lamlo + lamhi) / 2.0
    nfw_weights(lambda_[0], r0, beta, ngal, ucounts, bcounts, r, w, p, wt, rlambda, theta_r, rsig, 0)
    if lambda_[0] < 1.0:
        lambda_[0] = -1.0
        rlambda[0] = -1.0
    return 0

def SolverObject_dealloc(self):
    if self.allocated:
        self.allocated = 0
    gsl.Py_TYPE(self).tp_free(self)

def SolverObject_init(self, args):
    ucounts_obj = None
    bcounts_obj = None
    r_obj = None
    w_obj = None
    cpars_obj = None
    self.allocated = 0
    r0 = gsl.arg(args, 0, 'd')
    beta = gsl.arg(args, 1, 'd')
    ucounts_obj = gsl.arg(args, 2, 'O')
    bcounts_obj = gsl.arg(args, 3, 'O')
    r_obj = gsl.arg(args, 4, 'O')
    w_obj = gsl.arg(args, 5, 'O')
    cpars_obj = gsl.arg(args, 6, 'O')
    rsig = gsl.arg(args, 7, 'd')
    if not gsl.parsed(args, 'ddOOOOOd'):
        raise PyExc_RuntimeError('Failed to parse init')
    self.solver = np.zeros((1, gsl.sizeof('struct solver')))
    if self.solver is None:
        raise PyExc_RuntimeError('Failed to allocate struct solver')
    self.allocated = 1
    self.solver.ucounts = ucounts_obj
    self.solver.bcounts = bcounts_obj
    self.solver.r = r_obj
    self.solver.w = w_obj
    self.solver.cpars = cpars_obj
    self.solver.ngal = gsl.PyArray_DIM(ucounts_obj, 0)
    self.solver.r0 = r0
    self.solver.beta = beta
    self.solver.rsig = rsig
    if gsl.PyArray_DIM(cpars_obj, 0) != CPAR_NTERMS:
        raise PyExc_ValueError('cpars with wrong number of terms')
    return 0

def SolverObject_repr(self):
    repr = np.empty(256)
    repr[:] = gsl.sprintf('Solver Object')
    return gsl.Py_BuildValue('y', repr)

def SolverObject_solver_nfw(self, args):
    dims = np.empty(1)
    lam_obj = None
    rlam_obj = None
    p_obj = None
    wt_obj = None
    thetar_obj = None
    dims[0] = 1
    lam_obj = np.zeros((0, dims[0], 0), NPY_DOUBLE)
    rlam_obj = np.zeros((0, dims[0], 0), NPY_DOUBLE)
    dims[0] = self.solver.ngal
    p_obj = np.zeros((1, dims[0], 0), NPY_DOUBLE)
    wt_obj = np.zeros((1, dims[0], 0), NPY_DOUBLE)
    thetar_obj = np.zeros((1, dims[0], 0), NPY_DOUBLE)
    self.solver.p = p_obj
    self.solver.wt = wt_obj
    self.solver.lambda_ = lam_obj
    self.solver.rlambda = rlam_obj
    self.solver.theta_r = thetar_obj
    solver_nfw(self.solver.r0, self.solver.beta, self.solver.ngal, self.solver.ucounts, self.solver.bcounts, self.solver.r, self.solver.w, self.solver.lambda_, self.solver.p, self.solver.wt, self.solver.rlambda, self.solver.theta_r, TOL_DEFAULT, self.solver.cpars, self.solver.rsig)
    retval = np.empty(5, 'PyTuple')
    retval[0] = lam_obj
    retval[1] = p_obj
    retval[2] = wt_obj
    retval[3] = rlam_obj
    retval[4] = thetar_obj
    return retval
SolverObject_methods = (('solve_nfw', SolverObject_solver_nfw, METH_NOARGS, 'solve_nfw()'), (None,))
PySolverType = (0, '_solver_nfw_pywrap.Solver', gsl.sizeof('struct SolverObject'), 0, SolverObject_dealloc, 0, 0, 0, 0, SolverObject_repr, 0, 0, 0, 0, 0, 0, 0, 0, 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, 'Solver Class', 0, 0, 0, 0, 0, 0, SolverObject_methods, 0, 0, 0, 0, 0, 0, 0, SolverObject_init, 0, PyType_GenericNew)
Solver_module_methods = ((None,),)
moduledef = (PyModuleDef_HEAD_INIT, '_solver_nfw_pywrap', 'Solver (w/ NFW) method', -1, Solver_module_methods, None, None, None, None)

def PyInit__solver_nfw_pywrap():
    PySolverType.tp_new = PyType_GenericNew
    if gsl.PyType_Ready(PySolverType) < 0:
        return None
    m = gsl.PyModule_Create(moduledef)
    if m is None:
        return None
    gsl.PyModule_AddObject(m, 'Solver', PySolverType)
    return m
