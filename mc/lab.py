"""Construction helpers around the public API of elli, shared by the checks."""

import itertools
import warnings

import numpy as np

warnings.simplefilter("ignore")

import elli  # noqa: E402
from elli import Solver2x2, Solver4x4  # noqa: E402
from elli.solver4x4 import PropagatorEig, PropagatorExpm, PropagatorLinear  # noqa: E402

SOLVERS = {
    "2x2": lambda: dict(solver=Solver2x2),
    "4x4": lambda: dict(solver=Solver4x4),
    "scipy": lambda: dict(
        solver=Solver4x4, propagator=PropagatorExpm(backend="scipy")
    ),
    "torch": lambda: dict(
        solver=Solver4x4, propagator=PropagatorExpm(backend="torch")
    ),
    "eig": lambda: dict(solver=Solver4x4, propagator=PropagatorEig()),
    "linear": lambda: dict(solver=Solver4x4, propagator=PropagatorLinear()),
}
try:
    PropagatorExpm(backend="torch")
except ImportError:
    SOLVERS.pop("torch")
EXACT4 = [s for s in ("4x4", "scipy", "torch", "eig") if s in SOLVERS]


def ev(struct, lbda, theta, solver="4x4"):
    return struct.evaluate(lbda, theta, **SOLVERS[solver]())


def iso(n):
    return elli.ConstantRefractiveIndex(n=n).get_mat()


def uni(no, ne, R=None):
    m = elli.UniaxialMaterial(
        elli.ConstantRefractiveIndex(n=no), elli.ConstantRefractiveIndex(n=ne)
    )
    if R is not None:
        m.set_rotation(R)
    return m


def bi(nx, ny, nz, R=None):
    m = elli.BiaxialMaterial(
        *(elli.ConstantRefractiveIndex(n=n) for n in (nx, ny, nz))
    )
    if R is not None:
        m.set_rotation(R)
    return m


def cplx(x):
    """JSON -> complex."""
    return complex(*x) if isinstance(x, (list, tuple)) else x


def j(x):
    """complex -> JSON."""
    x = complex(x)
    return x.real if x.imag == 0 else [x.real, x.imag]


def err(a, b):
    """max abs difference; inf on shape mismatch, NaN disagreement counts as inf."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return np.inf
    if a.size == 0:
        return 0.0
    d = np.abs(a - b)
    if np.any(np.isnan(d)):
        return np.inf
    return float(d.max())


def product(*args, repeat=1):
    return itertools.product(*args, repeat=repeat)
