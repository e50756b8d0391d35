"""Tables of solvers: name -> (kind, factory(rtol, atol, norm))."""

from collections.abc import Callable
from typing import Any

import optax
import optimistix as optx


def _quiet(**kwargs):
    del kwargs


class CustomBFGS(optx.AbstractBFGS):
    rtol: float
    atol: float
    norm: Callable
    use_inverse: bool
    descent: Any
    search: Any
    verbose: Callable = _quiet


class CustomDFP(optx.AbstractDFP):
    rtol: float
    atol: float
    norm: Callable
    use_inverse: bool
    descent: Any
    search: Any
    verbose: Callable = _quiet


class CustomLBFGS(optx.AbstractLBFGS):
    rtol: float
    atol: float
    norm: Callable
    use_inverse: bool
    history_length: int
    descent: Any
    search: Any
    verbose: Callable = _quiet


class CustomGD(optx.AbstractGradientDescent):
    rtol: float
    atol: float
    norm: Callable
    descent: Any
    search: Any


class CustomGN(optx.AbstractGaussNewton):
    rtol: float
    atol: float
    norm: Callable
    descent: Any
    search: Any
    verbose: Callable = _quiet


def _ncg(method):
    return lambda r, a, n: optx.NonlinearCG(r, a, n, method=method)


MINIMISERS = {
    "GradientDescent": lambda r, a, n: optx.GradientDescent(0.125, r, a, n),
    "BFGS": lambda r, a, n: optx.BFGS(r, a, n),
    "BFGS-direct": lambda r, a, n: optx.BFGS(r, a, n, use_inverse=False),
    "DFP": lambda r, a, n: optx.DFP(r, a, n),
    "DFP-direct": lambda r, a, n: optx.DFP(r, a, n, use_inverse=False),
    "LBFGS": lambda r, a, n: optx.LBFGS(r, a, n, history_length=2),
    "LBFGS-direct": lambda r, a, n: optx.LBFGS(
        r, a, n, use_inverse=False, history_length=3
    ),
    "NonlinearCG-PR": _ncg(optx.polak_ribiere),
    "NonlinearCG-FR": _ncg(optx.fletcher_reeves),
    "NonlinearCG-HS": _ncg(optx.hestenes_stiefel),
    "NonlinearCG-DY": _ncg(optx.dai_yuan),
}
OPTAX = {
    "Optax-sgd": lambda r, a, n: optx.OptaxMinimiser(optax.sgd(0.125), r, a, n),
    "Optax-adam": lambda r, a, n: optx.OptaxMinimiser(optax.adam(0.25), r, a, n),
}
LSQ = {
    "GaussNewton": lambda r, a, n: optx.GaussNewton(r, a, n),
    "LevenbergMarquardt": lambda r, a, n: optx.LevenbergMarquardt(r, a, n),
    "IndirectLevenbergMarquardt": lambda r, a, n: optx.IndirectLevenbergMarquardt(r, a, n),
    "Dogleg": lambda r, a, n: optx.Dogleg(r, a, n),
}
# Combinations of searches and descents assembled by a user
CUSTOM_MIN = {
    "BFGS+LinearTR": lambda r, a, n: CustomBFGS(
        r, a, n, True, optx.NewtonDescent(), optx.LinearTrustRegion()
    ),
    "BFGS+ClassicalTR": lambda r, a, n: CustomBFGS(
        r, a, n, False, optx.NewtonDescent(), optx.ClassicalTrustRegion()
    ),
    "BFGS+ClassicalTR+Dogleg": lambda r, a, n: CustomBFGS(
        r, a, n, False, optx.DoglegDescent(), optx.ClassicalTrustRegion()
    ),
    "BFGS+ClassicalTR+Damped": lambda r, a, n: CustomBFGS(
        r, a, n, False, optx.DampedNewtonDescent(), optx.ClassicalTrustRegion()
    ),
    "DFP+LinearTR": lambda r, a, n: CustomDFP(
        r, a, n, True, optx.NewtonDescent(), optx.LinearTrustRegion()
    ),
    "LBFGS+LinearTR": lambda r, a, n: CustomLBFGS(
        r, a, n, True, 2, optx.NewtonDescent(), optx.LinearTrustRegion()
    ),
    "Steepest+Armijo": lambda r, a, n: CustomGD(
        r, a, n, optx.SteepestDescent(), optx.BacktrackingArmijo()
    ),
    "Steepest+LinearTR": lambda r, a, n: CustomGD(
        r, a, n, optx.SteepestDescent(), optx.LinearTrustRegion()
    ),
    "CG+LinearTR": lambda r, a, n: CustomGD(
        r, a, n, optx.NonlinearCGDescent(optx.polak_ribiere), optx.LinearTrustRegion()
    ),
}
CUSTOM_LSQ = {
    "GN+Armijo": lambda r, a, n: CustomGN(
        r, a, n, optx.NewtonDescent(), optx.BacktrackingArmijo()
    ),
    "GN+ClassicalTR": lambda r, a, n: CustomGN(
        r, a, n, optx.NewtonDescent(), optx.ClassicalTrustRegion()
    ),
    "Damped+LinearTR": lambda r, a, n: CustomGN(
        r, a, n, optx.DampedNewtonDescent(), optx.LinearTrustRegion()
    ),
    "Steepest-lsq+Armijo": lambda r, a, n: CustomGN(
        r, a, n, optx.SteepestDescent(), optx.BacktrackingArmijo()
    ),
    "CG-lsq+LinearTR": lambda r, a, n: CustomGN(
        r, a, n, optx.NonlinearCGDescent(optx.fletcher_reeves), optx.LinearTrustRegion()
    ),
    "Dogleg-lsq+LinearTR": lambda r, a, n: CustomGN(
        r, a, n, optx.DoglegDescent(), optx.LinearTrustRegion()
    ),
}
NORMS = dict(max=optx.max_norm, rms=optx.rms_norm, two=optx.two_norm)


def kind_of(name):
    return "lsq" if name in LSQ or name in CUSTOM_LSQ else "min"


ALL = {**MINIMISERS, **OPTAX, **LSQ, **CUSTOM_MIN, **CUSTOM_LSQ}
