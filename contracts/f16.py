"""shared helpers of the F-16 contracts"""
from contracts.f16data import TABLES

LL = "external.aerobench.lowlevel."
TOL = 1e-9


def table(vc, name):
    return [[vc.num(x) for x in r.split()] for r in TABLES[name]]


def fn(vc, name):
    return getattr(vc.mod(LL + name), name)


def inside(vc, x, first, step, cells, i):
    """x lies in cell i of the breakpoints first, first+step, ...; outer cells are unbounded"""
    if i > 0:
        vc.assume(x >= first + step * i)
    if i < cells - 1:
        vc.assume(x <= first + step * (i + 1))
    return (x - (first + step * i)) * vc.q(1, step)


def angle(vc, name, first, step, cells, i, big=None):
    """a real in the given cell; unbounded in symbolic mode"""
    if vc.symbolic:
        x = vc.real(name)
    else:
        lo, hi = first + step * i, first + step * (i + 1)
        if i == 0:
            lo -= vc.rng.choice((1, 40, 400, 1e4))
        if i == cells - 1:
            hi += vc.rng.choice((1, 40, 400, 1e4))
        x = vc.real(name, lo=lo, hi=hi)
    return x


def pick(vc, label, cells):
    return vc.choice(label, tuple(range(cells)))


def lin(a, b, f):
    return a + (b - a) * f


def bound(vc, *xs):
    return None if vc.symbolic else max(abs(float(x)) for x in xs)


def interp2(T, i, j, fa, fb):
    return lin(lin(T[j][i], T[j][i + 1], fa), lin(T[j + 1][i], T[j + 1][i + 1], fa), fb)
