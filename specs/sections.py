"""Reference cascade of second-order sections."""
import numpy as np
from specs.butter import ptf


def split(r):
    """one of each conjugate pair, and the real roots, both in ascending order"""
    r = np.atleast_1d(r)
    if len(r) == 0:
        return r, r
    tol = 100 * np.finfo((1.0 * r).dtype).eps
    r = r[np.lexsort((np.abs(r.imag), r.real))]
    real = np.abs(r.imag) <= tol * np.abs(r)
    if np.sum(real) == len(r):
        return np.array([]), r[real].real
    c = r[~real]
    up, down = c[c.imag > 0], c[c.imag < 0]
    if len(up) != len(down):
        raise ValueError
    near = np.diff(np.concatenate(([0], np.diff(up.real) <= tol * np.abs(up[:-1]), [0])))
    first, last = np.flatnonzero(near > 0), np.flatnonzero(near < 0)
    for i in range(len(first)):
        a, b = first[i], last[i] + 1
        up[a:b] = up[a:b][np.argsort(np.abs(up[a:b].imag))]
        down[a:b] = down[a:b][np.argsort(np.abs(down[a:b].imag))]
    if np.any(np.abs(up - np.conj(down)) > tol * np.abs(down)):
        raise ValueError
    return (up + np.conj(down)) / 2, r[real].real


def nearest(pool, to, kind):
    order = np.argsort(np.abs(pool - to))
    if kind == 'any':
        return order[0]
    real = np.isreal(pool[order])
    return order[np.flatnonzero(real if kind == 'real' else ~real)[0]]


def section(z, p):
    row = np.zeros(6)
    b, a = ptf(np.array(z), np.array(p), np.ones(1))
    row[3 - len(b):3] = b
    row[6 - len(a):] = a
    return row


def worst(p, analog):
    return np.argmin(np.abs(p.real)) if analog else np.argmin(np.abs(1 - np.abs(p)))


def sections(x, y, z, pg=None, *, ag=False):
    if pg is None:
        pg = 'ml' if ag else 'nr'
    if pg not in ('nr', 'kd', 'ml') or ag and pg != 'ml':
        raise ValueError
    if len(x) == 0 and len(y) == 0:
        return np.array([[0, 0, z, 0, 0, 1.0]]) if ag else np.array([[z, 0, 0, 1.0, 0, 0]])
    if pg == 'ml':
        if len(x) > len(y):
            raise ValueError
        count = (len(y) + 1) // 2
    else:
        count = (max(len(x), len(y)) + 1) // 2
        short = max(0, len(x) - len(y)), max(0, len(y) - len(x))
        y = np.concatenate((y, np.zeros(short[0])))
        x = np.concatenate((x, np.zeros(short[1])))
        if pg == 'nr' and len(y) % 2:
            y = np.concatenate((y, [0.0]))
            x = np.concatenate((x, [0.0]))
    x = np.concatenate(split(x))
    y = np.concatenate(split(y))
    if not np.isreal(z):
        raise ValueError
    rows = np.zeros((count, 6))
    for c in reversed(range(count)):
        i = worst(y, ag)
        p1 = y[i]
        y = np.delete(y, i)
        reals = np.isreal(y).sum()
        if np.isreal(p1) and reals == 0:
            if pg == 'ml' and len(x) == 0:
                zs, ps = [], [p1]
            else:
                i = nearest(x, p1, 'real')
                z1 = x[i]
                x = np.delete(x, i)
                zs, ps = ([z1], [p1]) if pg == 'ml' else ([z1, 0], [p1, 0])
            rows[c] = section(zs, ps)
            continue
        if not np.isreal(p1) and reals == 1 and len(x) == len(y) + 1 and np.isreal(x).sum() == 1:
            i = nearest(x, p1, 'complex')
            z1 = x[i]
            x = np.delete(x, i)
            rows[c] = section([z1, z1.conj()], [p1, p1.conj()])
            continue
        if np.isreal(p1):
            others = np.flatnonzero(np.isreal(y))
            i = others[worst(y[others], ag)]
            p2 = y[i]
            y = np.delete(y, i)
        else:
            p2 = p1.conj()
        if len(x) == 0:
            rows[c] = section([], [p1, p2])
            continue
        i = nearest(x, p1, 'any')
        z1 = x[i]
        x = np.delete(x, i)
        if not np.isreal(z1):
            rows[c] = section([z1, z1.conj()], [p1, p2])
        elif len(x) == 0:
            rows[c] = section([z1], [p1, p2])
        else:
            i = nearest(x, p1, 'real')
            z2 = x[i]
            x = np.delete(x, i)
            rows[c] = section([z1, z2], [p1, p2])
    rows[0, :3] *= z.real
    return rows
