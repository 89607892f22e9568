"""C25 progress of loops and recursions."""
import ast
import os
import time
from . import oblig
from .oblig import Result, Anchor, EXPLAIN
from . import variants

EXPLAIN['ProgressOb'] = ('Every loop, comprehension and recursive call of every module: for-loops must walk a collection that is finite and not lengthened by the body; for the others all paths '
                         'through the body are summarised over linear forms, and a measure is sought that every path which repeats advances towards a limit tested on that path. A path that repeats '
                         'without changing what its tests read, a counter some path does not advance, a limit no test reaches and a recursion that does not approach its base case are violations. '
                         'Known arguments are also propagated along the calls (one copy of a function per argument combination): a combination that certainly leads back to itself is a violation.')


def sources():
    root = os.path.join(oblig.REPO, 'proadv')
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ('tests', 'test', '__pycache__'))
        out += [os.path.relpath(os.path.join(d, f), oblig.REPO) for f in sorted(fs) if f.endswith('.py')]
    return out


class ProgressOb:
    def __init__(self, path):
        self.path = path
        self.fn = path
        self.name = path

    def run(self, loader, seed, tier, limit):
        t0 = time.time()
        p = os.path.join(oblig.REPO, self.path)
        tree = ast.parse(open(p).read())
        names = {a.name.rsplit('.', 1)[-1] for n in ast.walk(tree) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names} | {
            n.module.rsplit('.', 1)[-1] for n in ast.walk(tree) if isinstance(n, ast.ImportFrom) and n.module}
        variants.OTHERS[:] = [ast.parse(open(os.path.join(oblig.REPO, q)).read()) for q in sources() if q != self.path and os.path.basename(q)[:-3] in names]
        r = variants.analyse(tree)
        st = {'loops': sum(1 for k in r if k[0] == 'loop'), 'recursive_calls': sum(1 for k in r if k[0] == 'recursion'),
              'measures': ['%s:%d %s: %s' % (k[2], k[1], k[3], k[4]) for k in r if not k[4].startswith('walks')],
              'functions': sorted({k[2] for k in r})}
        bad = [k for k in r if k[3] == 'violated']
        und = [k for k in r if k[3] == 'undecided']
        if bad:
            res = Result(self, 'violated', '%s line %d: %s' % (bad[0][2], bad[0][1], bad[0][4]), [(self.path, k[1]) for k in bad[:4]], '; '.join('%s:%d %s' % (k[2], k[1], k[4]) for k in bad), st)
        elif und:
            res = Result(self, 'undecided', '%s line %d: %s' % (und[0][2], und[0][1], und[0][4]), stats=st)
        else:
            res = Result(self, 'holds', stats=st)
        res.secs = time.time() - t0
        return res


def C25():
    return [ProgressOb(p) for p in sources()]
