"""Reference root finder and minimiser (Brent)."""
import math
import numpy as np


def brentq(f, a, b, xtol=1.48e-08, rtol=1.48e-08, maxiter=500, full=False):
    if a >= b:
        raise ValueError
    fa = f(a)
    fb = f(b)
    if fa == 0:
        return _report(a, 2, 0, True) if full else a
    if fb == 0:
        return _report(b, 2, 0, True) if full else b
    if (fa > 0) == (fb > 0):
        raise ValueError
    xp, xc, fp, fc = a, b, fa, fb
    xb = fbk = sp = sc = 0
    for i in range(maxiter):
        if np.sign(fp) != np.sign(fc):
            xb, fbk = xp, fp
            sp = xc - xp
            sc = xc - xp
        if abs(fbk) < abs(fc):
            xp, fp, xc, fc, xb, fbk = xc, fc, xb, fbk, xc, fc
        tol = 0.5 * (xtol + rtol * abs(xc))
        half = 0.5 * (xb - xc)
        if fc == 0 or abs(half) < tol:
            return _report(xc, i + 2, i + 1, True) if full else xc
        step = half
        if abs(sp) > tol and abs(fc) < abs(fp):
            if xp == xb:
                t = -fc * (xc - xp) / (fc - fp)
            else:
                d1 = (fp - fc) / (xp - xc)
                d2 = (fbk - fc) / (xb - xc)
                t = -fc * (fbk * d2 - fp * d1) / (d2 * d1 * (fbk - fp))
            if 2 * abs(t) < min(abs(sp), 3 * abs(half) - tol):
                sp = sc
                sc = t
            else:
                sp = half
                sc = half
        else:
            sp = half
            sc = half
        xp, fp = xc, fc
        if abs(sc) > tol:
            xc = xc + sc
        elif half > 0:
            xc = xc + tol
        else:
            xc = xc - tol
        fc = f(xc)
    if full:
        return {'root': xc, 'function_calls': maxiter + 2, 'iterations': maxiter, 'converged': False, 'flag': 'convergence not achieved'}
    raise ValueError


def _report(x, calls, its, ok):
    return {'root': x, 'function_calls': calls, 'iterations': its, 'converged': ok, 'flag': 'converged'}


def fminbound(f, lo, hi, par=(), tol=1e-5, maxfun=500, full=False):
    if not (np.isfinite(lo) and np.isfinite(hi)):
        raise ValueError
    if lo > hi:
        raise ValueError
    g = 0.5 * (3 - math.sqrt(5))
    a, b = lo, hi
    x = a + g * (b - a)
    w = v = x
    d = e = 0.0
    fx = f(x, *par)
    fu = np.inf
    fw = fv = fx
    n = 1
    mid = 0.5 * (a + b)
    t1 = np.sqrt(2.2e-16) * abs(x) + tol / 3
    t2 = 2 * t1
    flag = 0
    while abs(x - mid) > t2 - 0.5 * (b - a):
        golden = True
        if abs(e) > t1:
            golden = False
            r = (x - w) * (fx - fv)
            q = (x - v) * (fx - fw)
            p = (x - v) * q - (x - w) * r
            q = 2 * (q - r)
            if q > 0:
                p = -p
            q = abs(q)
            last = e
            e = d
            if abs(p) < abs(0.5 * q * last) and p > q * (a - x) and p < q * (b - x):
                d = p / q
                u = x + d
                if u - a < t2 or b - u < t2:
                    d = t1 * (1 if mid >= x else -1)
            else:
                golden = True
        if golden:
            e = (a - x) if x >= mid else (b - x)
            d = g * e
        u = x + (1 if d >= 0 else -1) * max(abs(d), t1)
        fu = f(u, *par)
        n += 1
        if fu <= fx:
            if u >= x:
                a = x
            else:
                b = x
            v, fv = w, fw
            w, fw = x, fx
            x, fx = u, fu
        else:
            if u < x:
                a = u
            else:
                b = u
            if fu <= fw or w == x:
                v, fv = w, fw
                w, fw = u, fu
            elif fu <= fv or v == x or v == w:
                v, fv = u, fu
        mid = 0.5 * (a + b)
        t1 = np.sqrt(2.2e-16) * abs(x) + tol / 3
        t2 = 2 * t1
        if n >= maxfun:
            flag = 1
            break
    if np.isnan(x) or np.isnan(fx) or np.isnan(fu):
        flag = 2
    return (x, fx, flag, n) if full else x
