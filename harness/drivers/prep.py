"""What C16, C22 and the pipeline checks share: the methods applied to data prepared by the specification."""
import contextlib, io
import numpy as np
import drv
from conf import identification
from src.models.matrix_operations import duplication_matrix, transformation_matrix, elimination_sym_matrix, elimination_lap_matrix
from src.models.regression import ComplexRegression, BayesianRegression
from src.models.error_in_variable import TotalLeastSquares, BayesianEIVRegression
from src.models.noise_transformation import average_true_noise_covariance, naive_noise_covariance
from src.identification import run


def quiet(f, *a, **kw):
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **kw)


def builders(lap):
    if lap:
        return (lambda n: duplication_matrix(n) @ transformation_matrix(n)), (lambda n: elimination_lap_matrix(n) @ elimination_sym_matrix(n))
    return duplication_matrix, elimination_sym_matrix


def ols(v, i):
    m = ComplexRegression()
    m.fit(v, i)
    return m.fitted_admittance_matrix


def tls(v, i):
    m = TotalLeastSquares()
    m.fit(v, i)
    return m.fitted_admittance_matrix


def lasso(v, i, lap, its):
    y = ols(v, i)
    if its == 0:
        return y
    d, e = builders(lap)
    m = BayesianRegression(run.build_lasso_prior(v.shape[1], y, lap), identification.lambda_lasso, identification.abs_tol,
                           identification.rel_tol, its, False, d, e)
    quiet(m.fit, v, i, (y + y.T) / 2)
    return m.fitted_admittance_matrix


def covariance(model, of, mag, ph, inv=True):
    mag = np.array(mag) if len(mag) > 1 else float(mag[0])
    if model == "average":
        return average_true_noise_covariance(of, mag, ph, inv)
    return naive_noise_covariance(of, mag, ph, inv)


def information(v, i, wv, wi, y):
    return np.asarray(TotalLeastSquares().fisher_info(v, i, wv, wi, y)[0])


def eiv(v, i, wv, wi, y_init, y_exact, lap, its):
    n = v.shape[1]
    p = run.build_complex_prior(n, identification.lambdaprime, y_init, lap, identification.use_tls_diag,
                                identification.contrast_each_row, identification.regularize_diag)
    if y_exact is not None:
        p = run.add_known_lines(n, p, identification.lambdaprime, y_exact, laplacian=False, prior_type="optimal")
    d, e = builders(lap)
    m = BayesianEIVRegression(p, identification.lambda_eiv, identification.abs_tol, identification.rel_tol, its, False, d, e)
    quiet(m.fit, v, i, wv, wi, y_init=y_init)
    return m.fitted_admittance_matrix, m.iterations


def flat(res):
    """estimates and history as one vector, the targets (of any size) in relative terms"""
    y, it = res
    return np.concatenate([np.asarray(y).ravel()] + [np.asarray(s.fitted_parameters).ravel() for s in it]
                          + [np.log(1e-12 + np.abs([s.target_function for s in it]))])


def stable(f, tol, *data):
    """f(*data), or None if it is too sensitive to tiny changes of the data to be compared"""
    rng = np.random.RandomState(7)
    ref = f(*data)
    if not np.all(np.isfinite(ref)):
        return None
    s = max(1e-300, np.max(np.abs(ref)))
    for k in range(2):
        pert = [d if d is None else d * (1 + 1e-7 * rng.randn(*d.shape)) for d in data]
        other = f(*pert)
        if other.shape != ref.shape or not np.max(np.abs(other - ref)) < tol * s:
            return None
    return ref


def same_iterations(what, got, want):
    drv.same(what + ": number of iterations", len(got), len(want))
    for k, (a, b) in enumerate(zip(got, want)):
        drv.same(what + ": number of iteration %d" % k, a.iteration, b.iteration)
        drv.close(what + ": parameters of iteration %d" % k, a.fitted_parameters, b.fitted_parameters, 1e-12, 0)
        drv.close(what + ": target of iteration %d" % k, a.target_function, b.target_function, 1e-12, 0)
