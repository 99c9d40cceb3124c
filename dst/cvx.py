"""Seam: the convex solver (cvxpy.Problem.solve)."""
import warnings

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    import cvxpy

_real = cvxpy.Problem.solve
_hook = [None]


def _solve(self, *a, **k):
    h = _hook[0]
    if h is None:
        return _real(self, *a, **k)
    return h(lambda *a2, **k2: _real(self, *a2, **k2), self, a, k)


cvxpy.Problem.solve = _solve


def set_hook(h):
    _hook[0] = h


def set_solution(problem, value, status='optimal'):
    """Makes a problem look as if a solver had left (value, status)."""
    v = problem.variables()[0]
    v.save_value(value)
    problem._status = status
    return None
