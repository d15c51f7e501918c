"""Long series made of blocks separated by gaps over which the process is forgotten.

Each block then has the law of a series of its own, so that the exact answers for thousands of measurements come
from dense matrices of the size of one block.
"""
import numpy as np
from hypothesis import strategies as st

import gens
import oracle

FORGET = 45.0        # exp(-45) = 3e-20


def layout(tb, roots, far=1.0):
    """(times of one block on a dyadic grid, period) or None; sums of the two are exact for up to 2^20 blocks."""
    tb = np.asarray(tb, dtype=float) - float(tb[0])
    gap = far * FORGET / float(np.min(-np.real(roots)))
    P = 2.0 ** np.ceil(np.log2(tb[-1] + gap))
    g = P * 2.0 ** -30
    tb = np.round(tb / g) * g
    if not np.min(np.diff(tb)) > 1000 * g:
        return None
    return tb, P


def expand(b):
    """t, y, e (flat) and the times, values (blocks x points) and errors of the blocks of a case's 'blocks' entry."""
    tb, P, nb = np.array(b['tb']), b['P'], b['count']
    rs = np.random.RandomState(b['seed'])
    Y = b['off'] + b['sd'] * (rs.normal(size=(nb, len(tb))) if b['style'] == 'normal' else
                              np.clip(rs.standard_t(1.5, size=(nb, len(tb))), -50, 50))
    t = (np.arange(nb)[:, None] * P + tb).ravel()
    e = np.tile(np.array(b['e']), nb)
    return t, Y.ravel(), e, tb, Y, np.array(b['e'])


def onestep(proc, tb, Y, eb):
    """One-step means, variances and standardised residuals of all blocks (blocks x points)."""
    K = proc.cov(tb, tb) + np.diag(np.asarray(eb, dtype=oracle.LD) ** 2)
    L = oracle.chol(K)
    d = np.diag(L)
    Y = np.asarray(Y, dtype=oracle.LD)
    Z = oracle.fsolve(L, Y.T).T
    return Y - d * Z, np.tile(d * d, (len(Y), 1)), Z


@st.composite
def blocks(draw, tb, roots, sd, off=0.0, top=12000, zero=True, far=1.0):
    """The 'blocks' entry of a case, or None when a block cannot be laid out exactly."""
    lay = layout(tb, roots, far)
    if lay is None:
        return None
    tb, P = lay
    n = draw(st.sampled_from([x for x in (600, 1300, 2500, 5000, 12000) if x <= top]))
    return dict(tb=[float(x) for x in tb], P=float(P), count=max(2, n // len(tb)), seed=draw(gens.seeds()), sd=float(sd),
                off=float(off), style=draw(st.sampled_from(['normal', 'normal', 'outlier'])), e=draw(gens.errors(len(tb), sd, zero)))
