"""Term algebra: canonical forms (rational functions over non-arithmetic atoms, exp/ln/pow laws,
linear sums with index deltas), case splitting over gates, and counter-valuations.

equal(a, b) -> ('yes', None) | ('no', witness) | ('?', reason)
  yes : the canonical forms coincide in every case of the gates
  no  : the canonical forms differ and a valuation of the symbols separates the two value graphs
  ?   : neither (an unanalysed construct, or an identity the normaliser does not know)
"""
from fractions import Fraction
import math, hashlib, itertools
from terms import *
import terms as tm
import loops, interp

F0 = Fraction(0); F1 = Fraction(1)
RANGES = {}

# ------------------------------------------------------------------ polynomials
def pconst(c): return {(): Fraction(c)} if c else {}
def patom(a, e=F1): return {((a, e),): F1}
def padd(p, q, s=1):
    r = dict(p)
    for k, v in q.items():
        w = r.get(k, F0) + s * v
        if w: r[k] = w
        else: r.pop(k, None)
    return r
_sk = {}
def skey(t):
    """structural ordering key, independent of creation order and of the names of fresh variables"""
    r = _sk.get(t)
    if r is None:
        vs = []
        h = hashlib.blake2b(digest_size=8)
        h.update(t.op.encode())
        if t.op == 'var': vs.append(t.a[0])
        else:
            for x in t.a:
                if x.__class__ is T:
                    k = skey(x); h.update(k[0]); vs.extend(k[1])
                else: h.update(repr(x).encode() + b';')
        r = (h.digest(), tuple(vs[:12]))
        _sk[t] = r
    return r
def mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for a, e in n:
        w = d.get(a, F0) + e
        if w: d[a] = w
        else: d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda x: skey(x[0])))
class TooBig(Exception): pass
def pmul(p, q):
    if len(p) * len(q) > 4000: raise TooBig()
    r = {}
    for m, a in p.items():
        for n, b in q.items():
            k = mmul(m, n)
            w = r.get(k, F0) + a * b
            if w: r[k] = w
            else: r.pop(k, None)
    return r
def mpow(m, e): return tuple((a, x * e) for a, x in m)

class Rat:
    __slots__ = ('n', 'd')
    def __init__(self, n, d=None):
        self.n = n; self.d = d if d is not None else {(): F1}
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if m or c != 1:
                inv = mpow(m, -1)
                self.n = {mmul(k, inv): v / c for k, v in n.items()}
                self.d = {(): F1}
    def const(self):
        if not self.n: return F0
        if len(self.n) == 1 and len(self.d) == 1 and () in self.n and () in self.d: return self.n[()]
        return None
    def mono(self):
        if len(self.n) == 1 and len(self.d) == 1 and () in self.d:
            return next(iter(self.n.items()))
        return None
def radd(a, b, s=1):
    if a.d == b.d: return Rat(padd(a.n, b.n, s), a.d)
    return Rat(padd(pmul(a.n, b.d), pmul(b.n, a.d), s), pmul(a.d, b.d))
def rmul(a, b): 
    if a.d == b.n: return Rat(a.n, b.d) if b.d is not None else None
    if b.d == a.n: return Rat(b.n, a.d)
    return Rat(pmul(a.n, b.n), pmul(a.d, b.d))
def rinv(a): return Rat(a.d, a.n)
def req(a, b):
    return not padd(pmul(a.n, b.d), pmul(b.n, a.d), -1)
def rconst(c): return Rat(pconst(c))
def ratom(t): return Rat(patom(t))

def rpow(r, e):
    """e: Fraction"""
    if e == 0: return rconst(1)
    c = r.const()
    if c is not None and c == 0:
        return rconst(0) if e > 0 else ratom(mk('pow', ZERO, num(e)))
    if e.denominator == 1 and abs(e) <= 8:
        k = int(e)
        if k < 0: r = rinv(r); k = -k
        o = r
        for _ in range(k - 1): o = rmul(o, r)
        return o
    m = r.mono()
    if m is not None and m[1] > 0 or (m is not None and e.denominator == 1):
        mono, c = m
        if e.denominator == 1 or all(x == 1 or x.denominator != 1 for _, x in mono):
            if c == 1: return Rat({mpow(mono, e): F1})
            out = Rat({mpow(mono, e): F1}) if mono else rconst(1)
            return rmul(out, ratom_c('pow', num(c), e))
    return ratom(mk('pow', unrat(r), num(e)))
def ratom_c(op, x, e): return ratom(mk(op, x, num(e)))

def rexp(r):
    """exp of a rational function"""
    if r.const() == 0: return rconst(1)
    if not (len(r.d) == 1 and () in r.d):
        return ratom(mk('exp', unrat(r)))
    out = rconst(1)
    for m, c in r.n.items():
        c = c / r.d[()]
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ln':
            out = rmul(out, rpow(rat(m[0][0].a[0]), c))
        else:
            out = rmul(out, Rat({((mk('exp', unrat(Rat({m: F1}))), c),): F1}))
    return out

def rln(r):
    c = r.const()
    if c == 1: return rconst(0)
    m = r.mono()
    if m is not None and m[1] > 0 and m[0]:
        mono, c = m
        out = rconst(0)
        for a, e in mono:
            if a.op == 'exp': t = rmul(rconst(e), rat(a.a[0]))
            elif e.denominator == 1 and e % 2 == 0: t = None
            else: t = rmul(rconst(e), ratom(mk('ln', a)))
            if t is None:
                return ratom(mk('ln', unrat(r)))
            out = radd(out, t)
        if c != 1: out = radd(out, ratom(mk('ln', num(c))))
        return out
    return ratom(mk('ln', unrat(r)))

_rat = {}
def rat(t):
    r = _rat.get(t)
    if r is None:
        try: r = _ratc(t)
        except TooBig: r = ratom(t)
        _rat[t] = r
    return r

def _ratc(t):
    o = t.op; a = t.a
    if o == 'num': return rconst(a[0])
    if o == 'add': return radd(rat(a[0]), rat(a[1]))
    if o == 'neg': return radd(rconst(0), rat(a[0]), -1)
    if o == 'mul': return rmul(rat(a[0]), rat(a[1]))
    if o == 'div':
        d = rat(a[1])
        if not d.n: return ratom(mk('div', canon(a[0]), ZERO))
        return rmul(rat(a[0]), rinv(d))
    if o == 'pow':
        b = rat(a[0]); e = rat(a[1]); c = e.const()
        if c is not None: return rpow(b, c)
        if b.const() is not None:
            if b.const() == 1: return rconst(1)
            if b.const() <= 0: return ratom(mk('pow', unrat(b), unrat(e)))
        return rexp(rmul(e, rln(b)))
    if o == 'exp': return rexp(rat(a[0]))
    if o == 'ln':
        r = rat(a[0])
        if r.const() == 0: return ratom(t)
        return rln(r)
    if o == 'log10': return rmul(rln(rat(a[0])), rinv(rln(rconst(10))))
    if o == 'log2': return rmul(rln(rat(a[0])), rinv(rln(rconst(2))))
    if o == 'sinh' or o == 'cosh':
        p = rexp(rat(a[0])); q = rinv(p)
        return rmul(rconst(Fraction(1, 2)), radd(p, q, -1 if o == 'sinh' else 1))
    if o == 'tanh':
        p = rexp(rat(a[0])); q = rinv(p)
        return rmul(radd(p, q, -1), rinv(radd(p, q)))
    if o == 'tan': return rmul(rat(mk('sin', a[0])), rinv(rat(mk('cos', a[0]))))
    if o in ('sin', 'cos', 'asin', 'atan', 'erf', 'abs', 'signum'):
        r = rat(a[0])
        if o in ('sin', 'asin', 'atan', 'erf') and r.const() == 0: return rconst(0)
        if o == 'cos' and r.const() == 0: return rconst(1)
        if o in ('abs',) and r.const() is not None: return rconst(abs(r.const()))
        if o == 'abs' and r.mono() is not None and all(e.denominator == 1 and e % 2 == 0 or at.op == 'exp' for at, e in r.mono()[0]):
            return r if r.mono()[1] > 0 else radd(rconst(0), r, -1)
        u = unrat(r)
        # parity
        sgn = lead_sign(r)
        if sgn < 0:
            u = unrat(radd(rconst(0), r, -1))
            base = ratom(mk(o, u))
            return base if o in ('cos', 'abs') else radd(rconst(0), base, -1)
        return ratom(mk(o, u))
    if o == 'sum': return csum(a[0], a[1])
    if o == 'bsum':
        v = fresh(); b = rat(app(a[1], v))
        if not (len(b.d) == 1 and () in b.d): return ratom(canon_atom(t))
        out = rconst(0)
        for m, c in b.n.items():
            dep = tuple((x, e) for x, e in m if has(x, v)); ind = tuple((x, e) for x, e in m if not has(x, v))
            s = mk('card', canon(a[0])) if not dep else mk('bsum', canon(a[0]), lam(v, unrat(Rat({dep: F1}))))
            out = radd(out, rmul(Rat({ind: c}), ratom(s)))
        return out
    return ratom(canon_atom(t))

def lead_sign(r):
    if not r.n: return 1
    k = min(r.n, key=mkey)
    return 1 if r.n[k] > 0 else -1
def mkey(m): return tuple((skey(a), e) for a, e in m)

def csum(n, l):
    """canonical linear sum"""
    n = canon(n)
    v = fresh()
    RANGES[v] = (ZERO, n)
    b = app(l, v)
    # gates on the summation index: sum(ite(v==j, A, B)) = sum(B) + [j<n](A(j)-B(j))
    g = split_gate(b, v)
    if g is not None:
        c, j = g
        A = subst(b, {c: TRUE}); B = subst(b, {c: FALSE})
        inr = TRUE if in_range(j, n) else lt(j, n)
        Aj = subst(A, {v: j}); Bj = subst(B, {v: j})
        rest = csum(n, lam(v, B))
        if inr is TRUE:
            return radd(rest, radd(rat(Aj), rat(Bj), -1))
        return radd(rest, rat(ite(inr, sub(Aj, Bj), ZERO)))
    r = rat(b)
    out = rconst(0)
    if not (len(r.d) == 1 and () in r.d):
        if not any(has(x, v) for m in r.d for x, _ in m):
            inner = csum_poly(n, v, r.n)
            return rmul(inner, Rat(pconst(1), r.d))
        return ratom(mk('sum', n, lam(v, unrat(r))))
    return csum_poly(n, v, r.n)

def csum_poly(n, v, poly):
    out = rconst(0)
    groups = {}
    for m, c in poly.items():
        dep = tuple((a, e) for a, e in m if has(a, v)); ind = tuple((a, e) for a, e in m if not has(a, v))
        g = groups.setdefault(dep, {})
        g[ind] = g.get(ind, F0) + c
    for dep, coef in groups.items():
        if not dep: s = rat(n)
        else: s = ratom(mk('sum', n, lam(v, unrat(Rat({dep: F1})))))
        out = radd(out, rmul(Rat(coef), s))
    return out

def split_gate(b, v):
    for x in subterms(b):
        if x.op == 'eq' and x.a[0].__class__ is T:
            d, c = tm.lin_sub(x.a[0], x.a[1])
            if d.get(v) in (1, -1) and not any(has(k, v) for k in d if k is not v):
                if any(y.op == 'bv' for y in subterms(x)): continue
                s = d[v]
                j = num(-c / s)
                for k, q in d.items():
                    if k is not v: j = add(j, mul(num(-q / s), k) if -q / s != 1 else k)
                return x, loops.renorm(j)
    return None

def in_range(j, n):
    if j.op == 'num' and n.op == 'num': return 0 <= j.a[0] < n.a[0]
    r = RANGES.get(j)
    if r and r[1] is not None and r[0] is ZERO and (r[1] is n or canon(r[1]) is n): return True
    return False

ELEMWISE = {'sin', 'cos', 'exp', 'ln', 'abs', 'gamma', 'digamma', 'loggamma', 'erf', 'erfc', 'signum'}
def canon_atom(t):
    o = t.op; a = t.a
    if not a or not any(x.__class__ is T for x in a): return t
    if o == 'lam':
        v = fresh()
        return lam(v, canon(app(t, v)))
    if o == 'ite':
        if t.b: return canonb(t)
        return ite(canonb(a[0]), canon(a[1]), canon(a[2]))
    if o == 'arr':
        n = canon(a[0]); v = fresh(); RANGES[v] = (ZERO, n)
        return arr(n, lam(v, canon(app(a[1], v))))
    if o in ('eq', 'lt', 'isvar', 'batom', 'any'):
        return canonb(t)
    return build(o, *[canon(x) if x.__class__ is T else x for x in a])

_canon = {}
ARITH = {'num', 'bsum', 'add', 'neg', 'mul', 'div', 'pow', 'exp', 'ln', 'sinh', 'cosh', 'tanh', 'tan', 'sum', 'sin', 'cos', 'abs', 'log10', 'log2', 'asin', 'atan', 'erf', 'signum'}
def canon(t):
    r = _canon.get(t)
    if r is None:
        if t.op in ARITH: r = unrat(rat(t))
        else: r = canon_atom(t)
        _canon[t] = r
    return r

def canonb(c):
    if c is TRUE or c is FALSE: return c
    if c.op == 'ite':
        return b_ite(canonb(c.a[0]), canonb(c.a[1]), canonb(c.a[2]))
    if c.op == 'eq':
        x, y = canon(c.a[0]), canon(c.a[1])
        if numeric(x) or numeric(y):
            r = radd(rat(x), rat(y), -1)
            k = r.const()
            if k is not None: return TRUE if k == 0 else FALSE
            if lead_sign(r) < 0: r = radd(rconst(0), r, -1)
            if len(r.n) == 2 and () in r.n and len(r.d) == 1:
                (m, cf), = [(m, q) for m, q in r.n.items() if m]
                return eq(unrat(Rat({m: F1})), num(-r.n[()] / cf))
            return eq(unrat(Rat(r.n)), ZERO)
        return eq(x, y)
    if c.op == 'lt':
        r = radd(rat(c.a[1]), rat(c.a[0]), -1)
        k = r.const()
        if k is not None: return TRUE if k > 0 else FALSE
        # keep  lhs < rhs  with non-negative coefficients on both sides
        P = {m: q for m, q in r.n.items() if q > 0}; N = {m: -q for m, q in r.n.items() if q < 0}
        if len(r.d) == 1: return lt(unrat(Rat(N)), unrat(Rat(P)))
        return lt(unrat(rat(c.a[0])), unrat(rat(c.a[1])))
    if c.op == 'any':
        v = fresh(); n = canon(c.a[0]); RANGES[v] = (ZERO, n)
        return loops.any_(n, lam(v, canonb(app(c.a[1], v))))
    return build(c.op, *[canon(x) if x.__class__ is T else x for x in c.a])

def numeric(x): return x.op in ARITH or x.op in ('bel', 'fld_num')

def unrat(r):
    """canonical term of a rational function"""
    n, d = r.n, r.d
    if len(d) > 1:
        # monic denominator with the smallest monomial content removed
        q = pdiv(n, d)
        if q is not None: return unpoly(q)
        k = min(d, key=mkey); c = d[k]
        inv = mpow(k, -1)
        d = {mmul(m, inv): v / c for m, v in d.items()}
        n = {mmul(m, inv): v / c for m, v in n.items()}
        return mk('div', unpoly(n), unpoly(d))
    return unpoly(n)

def pdiv(n, d):
    """exact quotient if d divides n by a constant or a single monomial"""
    if not n: return {}
    kd = min(d, key=mkey)
    for kn in list(n)[:6]:
        m = mmul(kn, mpow(kd, -1)); c = n[kn] / d[kd]
        if {mmul(m, k): c * v for k, v in d.items()} == n: return {m: c}
    return None

def unpoly(p):
    if not p: return ZERO
    out = None
    for m in sorted(p, key=mkey):
        c = p[m]
        t = None
        for a, e in m:
            f = a if e == 1 else mk('pow', a, num(e))
            t = f if t is None else mk('mul', t, f)
        if t is None: t = num(c)
        elif c != 1: t = mk('mul', num(c), t)
        out = t if out is None else mk('add', out, t)
    return out

# ------------------------------------------------------------------ consistency of gate assignments
INTS = set()        # terms (or the arrays holding them) whose type is an unsigned integer
def root(t):
    while t.op == 'sel': t = t.a[0]
    return t
def isint(t):
    return t.op in ('alen', 'icount', 'idiv') or (t.op == 'sym' and t.a[0] == 'const') or t in RANGES or root(t) in INTS
def integral(p):
    """a polynomial with integer values"""
    return all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and isint(a) for a, e in m) for m, c in p.items())

def feasible(facts):
    """facts: list of (atom, bool) with canonical atoms; cheap refutation only"""
    lo = []      # linear constraints  poly > 0 / >= 0
    ne = []
    ints = {}
    for a, v in facts:
        if a.op == 'eq' and not any(x.op in ('adt', 'tup', 'arr', 'arrlit', 'buf', 'ite', 'lam', 'inf', 'clo') for x in a.a):
            p = radd(rat(a.a[0]), rat(a.a[1]), -1)
            if v: lo.append((p.n, False)); lo.append((radd(rconst(0), p, -1).n, False))
            elif len(ne) < 4 and len(p.d) == 1 and integral(p.n): ne.append(p.n)
        elif a.op == 'lt':
            p = radd(rat(a.a[1]), rat(a.a[0]), -1)
            if v: lo.append((p.n, True))
            else: lo.append((radd(rconst(0), p, -1).n, False))
    for i, (p, s) in enumerate(lo):
        if s and integral(p): lo[i] = (padd(p, pconst(1), -1), False)
    for p in ne: ints.update((a, 1) for m in p for a, e in m)
    lo += [(patom(a), False) for a in ints if a not in RANGES]
    def split(cs, k):
        if k == len(ne): return fm(cs)
        return split(cs + [(padd(ne[k], pconst(1), -1), False)], k + 1) or split(cs + [(padd(padd({}, ne[k], -1), pconst(1), -1), False)], k + 1)
    return fm(lo) and (not ne or split(lo, 0))

def fm(cs, depth=0):
    cs = [c for c in cs]
    for p, strict in cs:
        if not any(p) and p == {} and strict: return False
        if len(p) == 1 and () in p:
            if p[()] < 0 or (strict and p[()] <= 0): return False
    vs = {}
    for p, _ in cs:
        for m in p:
            if m: vs[m] = vs.get(m, 0) + 1
    if not vs or depth > 6 or len(cs) > 60: return True
    m = min(vs, key=lambda k: (vs[k], mkey(k)))
    pos = [(p, s) for p, s in cs if p.get(m, 0) > 0]; neg_ = [(p, s) for p, s in cs if p.get(m, 0) < 0]
    rest = [(p, s) for p, s in cs if not p.get(m)]
    for p, s in pos:
        for q, u in neg_:
            a, b = p[m], -q[m]
            r = padd({k: v / a for k, v in p.items()}, {k: v / b for k, v in q.items()})
            rest.append((r, s or u))
    return fm(rest, depth + 1)

def range_facts(t):
    out = []
    for x in subterms(t):
        if x.op == 'sym' and x.a == ('epsilon',): out.append((mk('lt', ZERO, x), True))
        if RANGES.get(x) and RANGES[x][1] is not None:
            out.append((canonb_raw_lt(x, RANGES[x][1]), True)); out.append((mk('lt', tm.sub(RANGES[x][1], ONE), x), False)); out.append((mk('lt', x, ZERO), False))
    return out
def canonb_raw_lt(x, n): return mk('lt', x, n)

# ------------------------------------------------------------------ equality
class Budget(Exception): pass

def free_atom(t, bound=()):
    """a gate atom of t that does not mention bound variables, outermost first"""
    seen = set(); st = [t]
    while st:
        x = st.pop(0)
        if x in seen: continue
        seen.add(x)
        if x.op == 'ite':
            c = x.a[0]
            if not any(y.op == 'bv' for y in subterms(c)): return c
        if x.op in ('any',) and x.b and not any(y.op == 'bv' for y in outside_bv(x)): pass
        for y in x.a:
            if y.__class__ is T: st.append(y)
    return None
def outside_bv(x): return ()

ATOMIC = ('sym', 'var', 'sel', 'bel', 'fld', 'call', 'sval', 'val')
def assign(t, atom, v):
    t = subst(t, {atom: TRUE if v else FALSE})
    if v and atom.op == 'eq':
        x, y = atom.a
        # substitute an atomic side by the other
        for p, q in ((x, y), (y, x)):
            if (p.op in ATOMIC or p.op == 'alen' and q.op == 'num') and not has(q, p) and (q.op == 'num' or p.op in ('var', 'sym') or q.op not in ('num',)):
                if p.op == 'num': continue
                t = replace_terms(t, {p: q})
                break
    return t

import signal
class Stop(Exception): pass
class limit:
    """bound the wall-clock time of one analysis step; overrunning makes the obligation undecided"""
    def __init__(self, s): self.s = s
    def __enter__(self):
        self.on = signal.getitimer(signal.ITIMER_REAL)[0] == 0
        if not self.on: return
        def h(*_): raise Stop('time limit %ds' % self.s)
        self.old = signal.signal(signal.SIGALRM, h); signal.setitimer(signal.ITIMER_REAL, self.s)
    def __exit__(self, *a):
        if self.on: signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, self.old)

def equal(a, b, facts=(), budget=None, depth=0):
    """are the two values equal under every valuation satisfying the facts?  ('yes'|'no'|'?', why)"""
    if depth: return equal_(a, b, facts, budget, depth)
    try:
        with limit(60): return split_small(a, b, facts) if interp.SMALL is not None else equal_(a, b, facts, budget, depth)
    except (Exception, RecursionError) as e: return ('?', 'comparison stopped: %s' % repr(e)[:100])
def split_small(a, b, facts):
    """compare at each index when the extents are small constants"""
    idx = []
    for t in (a, b) + tuple(f for f, _ in facts):
        for x in subterms(t):
            r = RANGES.get(x) if x.op == 'var' else None
            if r and r[1] is not None and r[1].op == 'num' and 0 < r[1].a[0] <= 4 and x not in idx: idx.append(x)
    n = 1
    for x in idx: n *= int(RANGES[x][1].a[0])
    if not idx or n > 300: return equal_(a, b, facts)
    rs = []
    for js in itertools.product(*[range(int(RANGES[x][1].a[0])) for x in idx]):
        m = {x: num(j) for x, j in zip(idx, js)}
        fs = [(subst(f, m), v) for f, v in facts]
        if any(f is (FALSE if v else TRUE) for f, v in fs): continue
        rs.append(equal_(subst(a, m), subst(b, m), tuple(f for f in fs if f[0] not in (TRUE, FALSE))))
        if rs[-1][0] == 'no': break
    return conj(rs) if rs else ('yes', None)
def equal_(a, b, facts=(), budget=None, depth=0):
    budget = budget if budget is not None else [4000]
    budget[0] -= 1
    if budget[0] < 0: return ('?', 'case budget exhausted')
    if a is b: return ('yes', None)
    u = find_unk(a) or find_unk(b)
    if a.op == 'bot' or b.op == 'bot':
        if a.op == b.op: return ('yes', None)
        return ('?', 'one side does not return') if u else differ('one side does not return', facts)
    ag = ('adt', 'tup', 'arr', 'arrlit', 'buf')
    if a.op in ag and b.op in ag:
        return eq_struct(a, b, facts, budget, depth, u)
    c = top_gate(a) or top_gate(b)
    if c is None and not u:
        ca, cb = canon(a), canon(b)
        if ca is cb or (ca.op in ag and cb.op in ag and ca.op == cb.op and equal_c(ca, cb)): return same_domain(a, b, facts)
        if ca.op in ARITH or cb.op in ARITH:
            try:
                if req(rat(ca), rat(cb)): return same_domain(a, b, facts)
            except TooBig: pass
        c = free_atom(ca) or free_atom(cb)
        if c is None:
            a2, b2 = expand_abs(ca), expand_abs(cb)
            if (a2 is ca and b2 is cb) or depth > 38:
                pq = peel(ca, cb, facts) if depth < 39 else None
                return refute(a, b, facts) if pq is None else equal(pq[0], pq[1], facts, budget, 39) if depth == 38 else \
                    (lambda r: r if r[0] == 'yes' else refute(a, b, facts))(equal(pq[0], pq[1], facts, budget, max(depth + 1, 30)))
            r = equal(a2, b2, facts, budget, 39)
            return r if r[0] == 'yes' else refute(a, b, facts)
        a, b = ca, cb
    if c is None:
        c = free_atom(a) or free_atom(b)
    if c is None:
        return ('?', 'unanalysed construct: %s' % (u.a[0] if u else ''))
    if depth > 60: return ('?', 'gate depth')
    cc = canonb(c)
    res = ('yes', None)
    if cc is TRUE or cc is FALSE:
        return equal(subst(a, {c: cc}), subst(b, {c: cc}), facts, budget, depth + 1)
    cas = [c] if cc.op != 'ite' else None
    for v in (True, False):
        f2 = list(facts)
        if cc.op != 'ite':
            if (cc, not v) in facts: continue
            f2.append((cc, v))
        elif cc.a[1].b and cc.a[2] in (TRUE,) and cc.a[1] is FALSE:
            f2.append((cc.a[0], not v))
        if not feasible(f2 + range_facts(mk('tup', *[x for x, _ in f2]))): continue
        a2, b2 = assign(a, c, v), assign(b, c, v)
        if cc.op == 'lt' and not v and (lt(cc.a[1], cc.a[0]), False) in f2:
            e = eq(cc.a[0], cc.a[1])
            if (e, False) in f2: continue
            if e.op == 'eq': a2, b2 = assign(a2, e, True), assign(b2, e, True)
        r = equal(a2, b2, tuple(f2), budget, depth + 1)
        if r[0] == 'no': return r
        if r[0] == '?': res = r
    return res

_fb = {}
def openbv(t):
    """bound variables that occur free in t"""
    r = _fb.get(t)
    if r is None:
        if t.op == 'bv': r = frozenset((t.a[0],))
        else:
            r = frozenset()
            for x in t.a:
                if x.__class__ is T: r |= openbv(x)
            if t.op == 'lam': r -= {t.a[0]}
        _fb[t] = r
    return r
def peel(a, b, facts):
    """a reduction over n and one over n - 1 steps: write the longer one as a step before or after the shorter one"""
    fa = [x for x in subterms(a) if x.op in ('fold', 'sum', 'prod') and not openbv(x)]; fb = [x for x in subterms(b) if x.op in ('fold', 'sum', 'prod') and not openbv(x)]
    for xs, ys, swap in ((fa, fb, False), (fb, fa, True)):
        for x in xs:
            for y in ys:
                if x.op != y.op: continue
                d, c = lin_sub(x.a[0], y.a[0])
                if d or c != 1: continue
                n, m = x.a[0], y.a[0]
                e = canonb(lt(ZERO, n))
                if not (implied(facts, e) or (canonb(eq(n, ZERO)), False) in facts): continue
                k = fresh()
                l = x.a[-1]; front = canon(app(l, add(k, ONE))) is canon(app(y.a[-1], k))
                v = fresh(); shifted = lam(v, app(l, add(v, ONE)))
                if x.op == 'fold':
                    new = mk('fold', m, app(app(l, ZERO), x.a[1]), shifted) if front else app(app(l, m), mk('fold', m, x.a[1], l))
                else:
                    new = BUILD['add' if x.op == 'sum' else 'mul'](app(l, ZERO if front else m), mk(x.op, m, shifted if front else l))
                r = subst(b if swap else a, {x: new})
                return (a, r) if swap else (r, b)
    return None
def implied(facts, e):
    if e is TRUE: return True
    if e is FALSE: return False
    if e.op == 'lt': return (e, True) in facts or not feasible(list(facts) + [(e, False)] + range_facts(mk('tup', *[f for f, _ in facts])))
    if e.op == 'ite' and e.a[1] is FALSE and e.a[2] is TRUE: return (e.a[0], False) in facts or not feasible(list(facts) + [(e.a[0], True)])
    return False

def expand_abs(t):
    for x in list(subterms(t)):
        if x.op in ('abs', 'signum') and not hasbv(x):
            u = x.a[0]
            c = lt(u, ZERO)
            t = replace_terms(t, {x: ite(c, neg(u), u) if x.op == 'abs' else ite(c, num(-1), ONE)})
    return t
def equal_c(a, b): return a is b

def top_gate(t):
    if t.op == 'ite': return t.a[0]
    return None

def eq_struct(a, b, facts, budget, depth, u):
    if a.op == 'adt' or b.op == 'adt':
        if a.op != b.op or a.a[0] != b.a[0]: return ('no', 'different types %s / %s' % (a.a[0], b.a[0]))
        if a.a[1] != b.a[1]:
            return differ('different variants: %s / %s' % (show(a)[:120], show(b)[:120]), facts)
        return conj([equal(x, y, facts, budget, depth + 1) for x, y in zip(a.a[2:], b.a[2:])])
    if a.op == 'tup' and b.op == 'tup':
        if len(a.a) != len(b.a): return differ('different arity', facts)
        return conj([equal(x, y, facts, budget, depth + 1) for x, y in zip(a.a, b.a)])
    if a.op == 'buf' and b.op == 'buf':
        r = equal(a.a[0], b.a[0], facts, budget, depth + 1)
        if r[0] == 'no': return r
        v = fresh()
        return conj([r, equal(app(a.a[1], v), app(b.a[1], v), facts, budget, depth + 1)])
    if a.op in ('arr', 'arrlit') and b.op in ('arr', 'arrlit'):
        na, nb = alen(a), alen(b)
        r = equal(na, nb, facts, budget, depth + 1)
        if r[0] == 'no': return r
        if na.op == 'num' and nb.op == 'num':
            return conj([r] + [equal(sel(a, num(k)), sel(b, num(k)), facts, budget, depth + 1) for k in range(int(na.a[0]))])
        v = fresh(); RANGES[v] = (ZERO, na)
        x, y = sel(a, v), sel(b, v)
        more = []
        for f, val in facts:
            # what holds at every index holds at this one
            if f.op == 'any' and not val and f.a[0] is na:
                g = app(f.a[1], v)
                if g.op == 'ite' and g.a[1] is FALSE and g.a[2] is TRUE: more.append((g.a[0], True))
                elif g.op != 'ite': more.append((g, False))
        for g, val in more: x, y = assign(x, g, val), assign(y, g, val)
        return conj([r, equal(x, y, tuple(facts) + tuple(more), budget, depth + 1)])
    return differ('different structure: %s / %s' % (show(a)[:100], show(b)[:100]), facts)

def differ(why, facts):
    """the values differ wherever the facts hold: a violation if they hold somewhere"""
    if not facts: return ('no', why)
    if any(find_unk(f) for f, _ in facts): return ('?', 'unanalysed condition on: ' + why)
    for V in valuations(200, tuple(f for f, _ in facts)):
        try:
            force(V, facts)
            if all(bool(ev(c, V)) == v for c, v in facts): return ('no', why)
        except (Undef, RecursionError): pass
    return ('?', 'no instance found of: ' + why)

def conj(rs):
    out = ('yes', None)
    for r in rs:
        if r[0] == 'no': return r
        if r[0] == '?': out = r
    return out

# ------------------------------------------------------------------ counter-valuations
class Undef(Exception): pass
class Outside(Undef):
    """outside the domain of a real function (not a pole): evaluation gives NaN there"""
STRICT = True       # being undefined where the specification is defined is a difference
DOMAIN_OF = {'ln': lambda x: x < -1e-9, 'log2': lambda x: x < -1e-9, 'log10': lambda x: x < -1e-9, 'asin': lambda x: abs(x) > 1 + 1e-9, 'acos': lambda x: abs(x) > 1 + 1e-9,
             'acosh': lambda x: x < 1 - 1e-9, 'atanh': lambda x: abs(x) > 1 + 1e-9}

def h01(key, salt):
    d = hashlib.blake2b(repr((key, salt)).encode(), digest_size=8).digest()
    return int.from_bytes(d, 'little') / 2.0 ** 64

class Val:
    """a valuation of the free symbols (hash-seeded, so it is total and deterministic)"""
    def __init__(self, seed, style):
        self.seed = seed; self.style = style; self.memo = {}; self.env = {}
    def keynum(self, key):
        u = h01(key, self.seed)
        s = self.style
        if s == 'hint' and u < 0.6:
            cs = self.hints; v = int(u / 0.6 * len(cs) * 5.999)
            c = cs[v // 6 % len(cs)]
            if h01(('sign', key), self.seed) < 0.4: c = -c
            return float((c, c + 0.5, c - 0.5, c + 1, c - 1, 1.5 * c)[v % 6])
        if s == 'pos': return 0.3 + 1.9 * u
        if s == 'bin': return 0.0 if u < 0.7 else 1.0
        if s == 'coin': return float(int(u * 2.999))
        if s == 'mixed': return -2.0 + 4.0 * u
        if s == 'int': return float([0, 1, 2, -1, 1, 0, 3, 2][int(u * 8)])
        return 0.05 + 0.9 * u
    def nat(self, key):
        if self.style == 'bin': return 2
        u = h01(('nat', key), self.seed)
        if self.style == 'hint' and u < 0.7:
            cs = [c for c in self.hints if 2 < c <= 5000 and c == int(c)]
            if cs:
                v = int(u / 0.7 * len(cs) * 3.999)
                return int(cs[v // 4 % len(cs)]) + v % 4 - 1
        if self.style == 'int' and u < 0.35: return 0      # the empty extent is an extent
        return 1 + int(u * 3.999)
    def idx(self, key):
        """an unsigned integer used as an index or extent"""
        if self.style == 'hint': return self.nat(key)
        u = h01(('idx', key), self.seed)
        return int(u * (1.999 if self.style == 'bin' else 3.999))
    def boolean(self, key): return h01(('b', key), self.seed) < 0.5

class Opq(tuple):
    def dg(self):
        d = self.__dict__.get('d')
        if d is None: d = self.__dict__['d'] = hashlib.blake2b(repr(tuple(self)).encode(), digest_size=12).hexdigest()
        return d

def ev(t, V):
    m = V.memo if not t.fv and not hasbv(t) else None
    if m is not None and t in m: return m[t]
    r = _ev(t, V)
    if m is not None: m[t] = r
    return r
_hb = {}
def hasbv(t):
    r = _hb.get(t)
    if r is None:
        r = any(x.op == 'bv' for x in subterms(t)); _hb[t] = r
    return r

def fnum(x, V):
    if isinstance(x, (int, float)) and not isinstance(x, bool): return x
    if isinstance(x, Opq): return V.keynum(x)
    if isinstance(x, bool): raise Undef('bool as number')
    raise Undef('not a number: %r' % (x,))

def key(x):
    if isinstance(x, float): return ('f', round(x, 9) if abs(x) < 1e12 else x)
    if isinstance(x, int): return ('f', round(float(x), 9))
    if isinstance(x, Opq): return ('o', x.dg())
    if isinstance(x, Arr): return ('arr',) + tuple(key(x.get(i)) for i in range(x.n))
    if isinstance(x, tuple): return tuple(key(y) for y in x)
    if callable(x): return ('fun', id(x))
    return x

class Arr:
    def __init__(self, n, f): self.n = n; self.f = f; self.c = {}
    def get(self, i):
        if i not in self.c: self.c[i] = self.f(i)
        return self.c[i]

def _ev(t, V):
    o = t.op; a = t.a
    if o == 'num': return float(a[0]) if a[0].denominator != 1 else int(a[0])
    if o == 'inf': raise Undef('inf')
    if o == 'true': return True
    if o == 'false': return False
    if o == 'str': return ('str', a[0])
    if o == 'chr': return ('chr', a[0])
    if o == 'sym' and a == ('epsilon',): return 0.02 + 0.3 * h01('epsilon', V.seed)
    if o == 'sym':
        if a[0] == 'const': return V.nat(('const', a[1]))
        if t in INTS: return V.idx(('sym',) + a)
        return Opq(('sym',) + a)
    if o in ('var', 'bv'):
        if t in V.env: return V.env[t]
        r = RANGES.get(t)
        if r and r[1] is not None:
            n = int(fnum(ev(r[1], V), V))
            if n <= 0: raise Undef('empty range')
            u = h01(('var', a[0]), V.seed)
            return min(n - 1, 0 if u < 0.7 else 1) if V.style == 'bin' else int(u * n * 0.9999)
        if o == 'bv': raise Undef('bound')
        return Opq(('var', a[0]))
    if o == 'ite':
        c = ev(a[0], V)
        return ev(a[1] if c else a[2], V)
    if o == 'add': return fnum(ev(a[0], V), V) + fnum(ev(a[1], V), V)
    if o == 'neg': return -fnum(ev(a[0], V), V)
    if o == 'mul': return fnum(ev(a[0], V), V) * fnum(ev(a[1], V), V)
    if o == 'div':
        x, y = fnum(ev(a[0], V), V), fnum(ev(a[1], V), V)
        if abs(y) < 1e-12: raise Outside('div by zero')
        return x / y
    if o == 'pow':
        x, y = fnum(ev(a[0], V), V), fnum(ev(a[1], V), V)
        if x == 0 and y < 0: return math.inf
        try: r = float(x) ** y
        except (ZeroDivisionError, OverflowError): raise Undef('pow')
        if isinstance(r, complex): raise Outside('pow')
        return r
    if o in MATH:
        x = fnum(ev(a[0], V), V)
        if o in DOMAIN_OF and DOMAIN_OF[o](x): raise Outside(o)
        try: return MATH[o](x)
        except (ValueError, OverflowError, ZeroDivisionError): raise Undef(o)
    if o == 'rem':
        y = fnum(ev(a[1], V), V)
        if y == 0: raise Undef('rem')
        return math.fmod(fnum(ev(a[0], V), V), y)
    if o == 'idiv':
        y = fnum(ev(a[1], V), V)
        if y == 0: raise Undef('idiv')
        return int(fnum(ev(a[0], V), V) // y)
    if o in ('shl', 'shr', 'bitand', 'bitor', 'bitxor'):
        x, y = fnum(ev(a[0], V), V), fnum(ev(a[1], V), V)
        if x < 0 or y < 0 or x != int(x) or y != int(y) or y > 31 and o[0] == 's': raise Undef(o)
        x, y = int(x), int(y)
        r = x << y if o == 'shl' else x >> y if o == 'shr' else x & y if o == 'bitand' else x | y if o == 'bitor' else x ^ y
        if r >= 1 << 31: raise Undef(o)
        return r
    if o == 'push':
        x, y = ev(a[0], V), ev(a[1], V)
        if not isinstance(x, Arr): raise Undef('push')
        return Arr(x.n + 1, lambda i: x.get(i) if i < x.n else y)
    if o == 'eq':
        x, y = ev(a[0], V), ev(a[1], V)
        if isinstance(x, (int, float)) and not isinstance(x, bool) or isinstance(y, (int, float)) and not isinstance(y, bool):
            return abs(fnum(x, V) - fnum(y, V)) < 1e-12
        if isinstance(x, Opq) and isinstance(y, Opq): return x == y
        return key(x) == key(y)
    if o == 'lt': return fnum(ev(a[0], V), V) < fnum(ev(a[1], V), V)
    if o == 'isvar': return V.boolean(('isvar', key(ev(a[0], V)), a[1]))
    if o == 'batom': return V.boolean(('batom',) + tuple(key(ev(x, V)) if x.__class__ is T else x for x in a))
    if o == 'any':
        n = int(fnum(ev(a[0], V), V))
        return any(evlam(a[1], i, V) for i in range(n))
    if o == 'first':
        n = int(fnum(ev(a[0], V), V))
        for i in range(n):
            if evlam(a[1], i, V): return i
        raise Undef('first')
    if o in ('sum', 'prod'):
        n = int(fnum(ev(a[0], V), V))
        r = 0 if o == 'sum' else 1
        for i in range(n):
            x = fnum(evlam(a[1], i, V), V)
            r = r + x if o == 'sum' else r * x
        return r
    if o == 'fold':
        n = int(fnum(ev(a[0], V), V)); acc = ev(a[1], V)
        for i in range(n):
            acc = evlam2(a[2], i, acc, V)
        return acc
    if o == 'arr':
        n = int(fnum(ev(a[0], V), V))
        env = dict(V.env)
        return Arr(n, lambda i: evlam(a[1], i, V, env))
    if o == 'arrlit':
        xs = [ev(x, V) for x in a]
        return Arr(len(xs), lambda i: xs[i])
    if o == 'alen':
        x = ev(a[0], V)
        return x.n if isinstance(x, Arr) else V.nat(('alen', key(x)))
    if o == 'sel':
        x, i = ev(a[0], V), ev(a[1], V)
        i = int(fnum(i, V))
        if isinstance(x, Arr):
            if not 0 <= i < x.n: raise Undef('index')
            return x.get(i)
        r = Opq(('sel', key(x), i))
        if root(t) in INTS: return V.idx(r.dg())
        return V.keynum(r) if V.style == 'coin' else r
    if o == 'upd':
        x, i, v = ev(a[0], V), int(fnum(ev(a[1], V), V)), ev(a[2], V)
        if not isinstance(x, Arr): raise Undef('upd')
        return Arr(x.n, lambda j: v if j == i else x.get(j))
    if o == 'dig':
        p = int(fnum(ev(a[0], V), V)); ds = [int(fnum(ev(d, V), V)) for d in a[2:]]
        for j in range(len(ds) - 1, a[1], -1): p //= ds[j] or 1
        return p % (ds[a[1]] or 1)
    if o == 'tup': return tuple(ev(x, V) for x in a)
    if o == 'adt': return ('adt', a[0], a[1]) + tuple(ev(x, V) for x in a[2:])
    if o == 'unk': raise Undef('unknown')
    if o == 'bot': raise Undef('bot')
    if o == 'lam':
        env = dict(V.env)
        return lambda x: evlam(t, x, V, env)
    if o == 'buf':
        # a buffer is determined by its elements at a few abstract indices
        env = dict(V.env)
        s = key(ev(a[0], V))
        return ('buf', s) + tuple(key(evlam(a[1], Opq(('ix', k)), V, env)) for k in range(2))
    if o in ('bsum', 'bfold'):
        c = mk('card', a[0]); INTS.add(c)
        n = int(fnum(ev(c, V), V)); sh = a[0]
        acc = 0 if o == 'bsum' else ev(a[1], V)
        if n > 6: raise Undef('large buffer')
        key_s = key(ev(sh, V))
        for k in range(max(n, 0)):
            ix = Opq(('ixof', key_s, k))
            acc = fnum(acc, V) + fnum(evlam(a[1], ix, V), V) if o == 'bsum' else evlam2(a[2], acc, ix, V)
        return acc
    if o == 'ixof': return Opq(('ixof', key(ev(a[0], V)), key(ev(a[1], V))))
    # uninterpreted
    if t in INTS: return V.idx((o,) + tuple(key(ev(x, V)) if x.__class__ is T else x for x in a))
    return Opq((o,) + tuple(key(ev(x, V)) if x.__class__ is T else x for x in a))

def evlam(l, x, V, env=None):
    if l.op != 'lam': return Opq(('app', key(ev(l, V)), key(x)))
    b = mk('bv', l.a[0])
    old = V.env
    V.env = dict(env if env is not None else old); V.env[b] = x
    try: return ev(l.a[1], V)
    finally: V.env = old
def evlam2(l, x, y, V):
    b = mk('bv', l.a[0]); i = l.a[1]
    old = V.env
    V.env = dict(old); V.env[b] = x
    try:
        if i.op == 'lam':
            V.env[mk('bv', i.a[0])] = y
            return ev(i.a[1], V)
        return Opq(('app', key(ev(i, V)), key(y)))
    finally: V.env = old

def digamma(x):
    if x <= 0: raise ValueError
    r = 0.0
    while x < 6: r -= 1 / x; x += 1
    f = 1 / (x * x)
    return r + math.log(x) - 0.5 / x - f * (1/12 - f * (1/120 - f * (1/252 - f * (1/240 - f / 132))))
MATH = {'exp': math.exp, 'ln': math.log, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos,
        'atan': math.atan, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh, 'asinh': math.asinh, 'acosh': math.acosh,
        'atanh': math.atanh, 'abs': abs, 'gamma': math.gamma, 'loggamma': math.lgamma, 'digamma': digamma, 'erf': math.erf, 'erfc': math.erfc,
        'signum': lambda x: math.copysign(1.0, x), 'log10': math.log10, 'log2': math.log2, 'floor': math.floor, 'ceil': math.ceil,
        'factorial': lambda x: math.gamma(x + 1), 'rgamma': lambda x: 1 / math.gamma(x), 'cbrt': lambda x: math.copysign(abs(x) ** (1/3), x),
        'round': round, 'trunc': math.trunc}

def close(x, y, V):
    nx = isinstance(x, (int, float)) and not isinstance(x, bool); ny = isinstance(y, (int, float)) and not isinstance(y, bool)
    if nx or ny:
        x, y = fnum(x, V), fnum(y, V)
        if x != x or y != y: raise Undef('nan')
        if math.isinf(x) or math.isinf(y): return x == y
        return abs(x - y) <= 1e-7 * (1 + abs(x) + abs(y))
    if isinstance(x, Arr) or isinstance(y, Arr):
        if not (isinstance(x, Arr) and isinstance(y, Arr)): return False
        if x.n != y.n: return False
        return all(close(x.get(i), y.get(i), V) for i in range(x.n))
    if isinstance(x, tuple) and isinstance(y, tuple) and not isinstance(x, Opq) and not isinstance(y, Opq):
        return len(x) == len(y) and all(close(p, q, V) for p, q in zip(x, y))
    if isinstance(x, Opq) and isinstance(y, Opq): return x == y
    return key(x) == key(y)

STYLES = ['pos', 'mixed', 'unit', 'int', 'pos', 'mixed', 'int', 'unit', 'mixed', 'int', 'mixed', 'int', 'pos', 'int', 'unit', 'mixed', 'int', 'bin', 'mixed', 'pos', 'coin', 'coin']
def hints(*ts):
    """the constants compared with something: thresholds a valuation should lie close to"""
    cs = set()
    for t in ts:
        for x in subterms(t):
            if x.op in ('lt', 'eq', 'rem', 'add', 'tdiv'):
                for y in x.a:
                    if y.__class__ is T and y.op == 'num' and (y.a[0] > 2 or y.a[0] < -2 or y.a[0].denominator != 1): cs.add(abs(y.a[0]) if x.op == 'add' else y.a[0])
                    elif y.__class__ is T and y.op == 'add':
                        cs.update(abs(z.a[0]) for z in y.a if z.op == 'num' and abs(z.a[0]) > 2)
    return [float(c) for c in sorted(cs)[:6]]
def valuations(tries, ts):
    hs = hints(*ts)
    for k in range(tries):
        if hs and k >= len(STYLES) and k % 2 == 0:
            V = Val(k, 'hint'); V.hints = hs
        else: V = Val(k, STYLES[k % len(STYLES)])
        yield V
INFS = (mk('inf'), neg(mk('inf')))
def refute(a, b, facts=(), tries=400):
    """search a valuation that separates a and b and satisfies the gate facts"""
    und = 0
    if any(find_unk(f) for f, _ in facts): return ('?', 'unanalysed condition')
    for V in valuations(tries, (a, b) + tuple(f for f, _ in facts)):
        try:
            force(V, facts)
            if not all(bool(ev(c, V)) == v for c, v in facts): continue
            if (a in INFS) != (b in INFS):
                x = ev(b if a in INFS else a, V)
                if isinstance(x, (int, float)) and math.isfinite(x): return ('no', witness(a, b, V, *(('infinite', x) if a in INFS else (x, 'infinite'))))
                continue
            if STRICT:
                p, q = evd(a, V), evd(b, V)
                if (p is NAN) != (q is NAN): return ('no', witness(a, b, V, p, q))
                if p is NAN: continue
            x, y = ev(a, V), ev(b, V)
            if not close(x, y, V): return ('no', witness(a, b, V, x, y))
        except Undef: und += 1
        except RecursionError: und += 1
    return ('?', 'normal forms differ, no separating valuation found: %s / %s' % (show(a)[:160], show(b)[:160]))

PARTIAL = ('div', 'pow') + tuple(DOMAIN_OF)
def same_domain(a, b, facts):
    """equal as formulas; where a rule asks for it, they must also be defined at the same points (x*x/x is not x at zero)"""
    if not STRICT: return ('yes', None)
    pa = {x for x in subterms(a) if x.op in PARTIAL}; pb = {x for x in subterms(b) if x.op in PARTIAL}
    if pa == pb: return ('yes', None)
    for k in range(60):
        V = Val(k, STYLES[k % len(STYLES)])
        try:
            force(V, facts)
            if not all(bool(ev(c, V)) == v for c, v in facts): continue
            p, q = evd(a, V), evd(b, V)
            if (p is NAN) != (q is NAN): return ('no', witness(a, b, V, p, q))
        except (Undef, RecursionError): pass
    return ('yes', None)
NAN = 'undefined (outside the domain)'
def evd(t, V):
    try: r = ev(t, V); return NAN if isinstance(r, float) and (r != r or math.isinf(r)) else r
    except Outside: return NAN

def inside(x, y, V):
    r = RANGES.get(x)
    if r and r[1] is not None and isinstance(y, (int, float)):
        n = ev(r[1], V)
        if isinstance(n, (int, float)) and not 0 <= y < n: raise Undef('index pinned outside its range')

def force(V, facts):
    """pin equalities such as x == 0 so that the facts are satisfiable"""
    pins = {}
    for c, v in facts:
        if c.op == 'eq' and v:
            x, y = c.a
            if x.op == 'num': x, y = y, x
            if y.op == 'num' and x.op in ATOMIC:
                pins[x] = float(y.a[0]) if y.a[0].denominator != 1 else int(y.a[0])
        elif c.op in ('batom', 'isvar'):
            pins[c] = v
    for x, y in pins.items():
        V.memo[x] = y
        inside(x, y, V)
    for _ in range(3):
        for c, v in facts:
            if c.op == 'eq' and v:
                x, y = c.a
                if x.op in ATOMIC and y.op in ATOMIC:
                    x, y = (x, y) if x not in pins else (y, x)
                    if x in pins: continue
                    try: r = ev(y, V)
                    except Undef: continue
                    if x.op in ('var', 'bv'): V.env = dict(V.env); V.env[x] = r
                    V.memo[x] = r; pins[x] = r
                    inside(x, r, V)

def witness(a, b, V, x, y):
    syms = []
    for t in (a, b):
        for s in subterms(t):
            if s.op in ('sym', 'bel') and not hasbv(s) and not s.fv:
                try: syms.append('%s=%s' % (show(s), fmtv(ev(s, V), V)))
                except Undef: pass
    return '%s vs %s [%s vs %s] at %s' % (show(a)[:200], show(b)[:200], fmtv(x, V), fmtv(y, V), ', '.join(sorted(set(syms))[:8]))
def fmtv(x, V):
    if isinstance(x, Opq):
        return '%.4g' % V.keynum(x)
    if isinstance(x, float): return '%.6g' % x
    return str(x)[:60]

def decide(cond, pc, facts=()):
    """is cond implied by pc?  ('yes'|'no'|'?', witness)"""
    try:
        with limit(60): return decide_(cond, pc, facts)
    except (Exception, RecursionError) as e: return ('?', 'decision stopped: %s' % repr(e)[:100])
def decide_(cond, pc, facts=()):
    """is cond implied by pc?  ('yes'|'no'|'?', witness)"""
    if cond.op == 'unk': return ('?', cond.a[0])
    if cond is TRUE or implies_b(pc, cond): return ('yes', None)
    p = canonb(pc); c = canonb(cond)
    bad = band(p, bnot(c))
    if bad is FALSE: return ('yes', None)
    # every path to TRUE of `bad` must be infeasible
    sat = []
    def walk(x, fs):
        if x is FALSE: return
        if len(sat) > 3: return
        if x is TRUE:
            if feasible(fs + range_facts(mk('tup', *[f for f, _ in fs]))): sat.append(fs)
            return
        if x.op == 'ite': at, hi, lo = x.a
        else: at, hi, lo = x, TRUE, FALSE
        for v, nxt in ((True, hi), (False, lo)):
            if nxt is FALSE: continue
            walk(nxt, fs + [(at, v)])
    walk(bad, list(facts))
    if not sat: return ('yes', None)
    u = find_unk(bad)
    if u: return ('?', 'unanalysed construct: %s' % u.a[0])
    for k in range(120):
        try:
            for fs in sat:
                V2 = Val(k, STYLES[k % len(STYLES)])
                if k > 40 and k % 2:
                    hs = hints(*[f for f, _ in fs])
                    if hs: V2 = Val(k, 'hint'); V2.hints = hs
                force(V2, fs)
                if ev(bad, V2) and all(bool(ev(f, V2)) == v for f, v in facts):
                    return ('no', 'fails under %s' % ', '.join(('' if v else 'not ') + show(f)[:120] for f, v in fs[:6]))
        except Undef: pass
    return ('?', 'condition not established: %s' % show(bad)[:200])
