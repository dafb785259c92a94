"""Names of the library under test used by the checks, and small adapters."""
import contextlib
import logging

import numpy as np

from robuststats.estimation import covariance as cov
from robuststats.estimation import base
from robuststats.estimation import structured
from robuststats.models import manifolds, mappings, probability, cost
from robuststats.online import estimation as online
from robuststats.utils import (linalg, generation_data, montecarlo, checking,
                               backend, verbose)

TYLER = {False: cov.TylerShapeMatrix, True: cov.ComplexTylerShapeMatrix}
STUDENT = {False: cov.CenteredStudentMLE,
           True: cov.ComplexCenteredStudentMLE}
HUBER = {False: cov.HuberMEstimator, True: cov.ComplexHuberMEstimator}
EMPIRICAL = {False: base.RealEmpiricalCovariance,
             True: base.ComplexEmpiricalCovariance}
TYLER_FP = {False: cov.tyler_shape_matrix_fixedpoint,
            True: cov.complex_tyler_shape_matrix_fixedpoint}
TYLER_NG = {False: cov.tyler_shape_matrix_naturalgradient,
            True: cov.complex_tyler_shape_matrix_naturalgradient}
STUDENT_FP = {False: cov.student_t_mle_fixed_point,
              True: cov.complex_student_t_mle_fixed_point}
HUBER_FP = {False: cov.huber_m_estimator_fixed_point,
            True: cov.complex_huber_m_estimator_fixed_point}
TYLER_COST = {False: cost.Tyler_cost_real, True: cost.Tyler_cost_complex}

NORMS = ('None', 'trace', 'determinant', 'element')


@contextlib.contextmanager
def log_records(level=logging.INFO):
    """Log records emitted in the block, whatever logger they come from."""
    records = []

    class H(logging.Handler):
        def emit(self, record):
            records.append(record)
    h = H(level)
    root = logging.getLogger()
    old = root.level
    root.addHandler(h)
    root.setLevel(level)
    try:
        yield records
    finally:
        root.setLevel(old)
        root.removeHandler(h)


def frozen(x):
    """A copy that raises if anything writes to it."""
    x = np.array(x, order='K')
    x.flags.writeable = False
    return x
