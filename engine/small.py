"""Second look at undecided obligations: the same analysis with the extents of arrays instantiated by small constants, so that
loops unroll and every index is decided by constant propagation (elements stay symbolic).  An obligation that fails for an
instance fails; one that does not stays undecided."""
import time, interp
from report import Report
CONFIGS = [(2, 3, 1), (3, 2, 2), (2, 2, 2), (1, 3, 2)]
SKIP = ('C16', 'C25')     # these instantiate extents themselves
def refine(fn, A, rep, tier, deadline):
    if rep.pid in SKIP: return
    und = {i['key']: i for i in rep.items if i['status'] == '?'}
    for cfg in CONFIGS:
        if not und or time.time() > deadline: return
        names = {}
        def small(n):
            if n == 'AXES': return None
            return cfg[names.setdefault(n, len(names)) % len(cfg)]
        interp.SMALL = small
        r2 = Report(rep.pid, tier); r2.tmp = getattr(rep, 'tmp', None); r2.repo = getattr(rep, 'repo', None)
        t0 = time.time()
        try: fn(A, r2, tier)
        except Exception as e: rep.notes.append('small instance %s: %s' % (cfg, repr(e)[:100]))
        finally: interp.SMALL = None
        for i in r2.items:
            if i['status'] == 'no' and i['key'] in und:
                j = und.pop(i['key']); j['status'] = 'no'
                j['msg'] = 'for extents %s: %s' % (', '.join('%s=%d' % (n, cfg[k % len(cfg)]) for n, k in sorted(names.items())), i['msg'])
        if time.time() + 1.5 * (time.time() - t0) > deadline: return
