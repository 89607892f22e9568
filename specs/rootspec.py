"""Reference search for the plug-in bandwidth equation."""
from scipy import optimize


def root(fun, n):
    n = min(max(n, 50), 1050)
    tol = 1e-12 + 0.01 * (n - 50) / 1000
    solved = False
    while not solved:
        try:
            t = optimize.brentq(fun, 0, tol)
            solved = True
        except ValueError:
            tol = min(2 * tol, 0.1)
        if tol >= 0.1:
            t = optimize.fminbound(lambda x: abs(fun(x)), 0, 0.1)
            solved = True
    return t
