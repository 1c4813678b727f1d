"""Loop summarisation: widening of the loop state to symbols (phi), then closed forms for
induction variables, array updates and accumulators.  Anything else becomes `unk`."""
from terms import *
import terms as tm
from interp import constrain

tm.BOOLOPS.add('any')

def dig(p, i, *dims):
    """i-th index of the p-th element of the row-major enumeration of dims"""
    if p is ZERO: return ZERO
    if p.op == 'num' and all(d.op == 'num' for d in dims):
        k = int(p.a[0])
        for j in range(len(dims) - 1, i, -1): k //= int(dims[j].a[0]) or 1
        return num(k % (int(dims[i].a[0]) or 1))
    if p.op == 'bot': return BOT
    return mk('dig', p, i, *dims)
BUILD['dig'] = dig

def prodof(dims):
    r = ONE
    for d in dims: r = mul(r, d)
    return r

def split_digits(t, term, n=None):
    """if t occurs in term only through its row-major digits: (dims, digit vars, term over digits)"""
    ds = None
    for x in subterms(term):
        if x.op == 'dig' and x.a[0] is t:
            if ds is None: ds = x.a[2:]
            elif ds != x.a[2:]: return None
    if ds is None: return None
    if n is not None and prodof(ds) is not n: return None
    us = [fresh() for _ in ds]
    r = subst(term, {mk('dig', t, i, *ds): u for i, u in enumerate(us)})
    if has(r, t): return None
    return list(ds), us, r

def literals(b):
    """b as a conjunction of signed atoms, or None"""
    out = []
    while b.op == 'ite':
        if b.a[2] is FALSE: out.append((b.a[0], True)); b = b.a[1]
        elif b.a[1] is FALSE: out.append((b.a[0], False)); b = b.a[2]
        else: return None
    return out if b is TRUE else out + [(b, True)]

def apart(p, q):
    """two equations that cannot both hold: same term, different numerals"""
    for x, a in (p.a, p.a[::-1]):
        for y, b in (q.a, q.a[::-1]):
            if x is y and a.op == 'num' and b.op == 'num' and a is not b: return True
    return False

def any_(n, l):
    """exists t in [0,n). l(t)"""
    body = l.a[1] if l.op == 'lam' else None
    if body is FALSE or n is ZERO: return FALSE
    if n.op == 'ite' and (n.a[1].op == 'num' or n.a[2].op == 'num'): return ite(n.a[0], any_(n.a[1], l), any_(n.a[2], l))
    v = fresh()
    b = app(l, v)
    if b is FALSE: return FALSE
    sp = split_digits(v, b, n)
    if sp:
        b = sp[2]
        for d, u in reversed(list(zip(sp[0], sp[1]))): b = any_(d, lam(u, b))
        return b
    if not has(b, v):
        return band(b, lt(ZERO, n)) if n.op != 'num' else (b if n.a[0] > 0 else FALSE)
    # eq(x, v + c) with x free of v:  0 <= x - c < n
    if b.op == 'eq':
        d, c = tm.lin_sub(b.a[0], b.a[1])
        cv = d.get(v)
        if cv in (1, -1) and not any(has(k, v) for k in d if k is not v):
            # cv*v + rest + c == 0
            rest = num(c)
            for k, q in d.items():
                if k is not v:
                    rest = add(rest, k if q == 1 else (neg(k) if q == -1 else mul(num(q), k)))
            x = neg(rest) if cv == 1 else rest
            x = renorm(x)
            lo = TRUE if nonneg(x) else bnot(lt(x, ZERO))
            return band(lo, lt(x, n))
    # some neighbours differ exactly when some later element differs from the first
    if b.op == 'ite' and b.a[0].op == 'eq' and b.a[1] is FALSE and b.a[2] is TRUE:
        for x, y in (b.a[0].a, b.a[0].a[::-1]):
            if has(x, v) and subst(x, {v: add(v, ONE)}) is y: return any_(n, lam(v, bnot(eq(subst(x, {v: ZERO}), y))))
    ls = literals(b)
    if ls and len(ls) > 1:
        pos = [x for x, s in ls if s and x.op == 'eq']
        keep = [(x, s) for x, s in ls if not (not s and x.op == 'eq' and any(apart(x, p) for p in pos))]
        if len(keep) < len(ls):
            return any_(n, lam(v, band(*[x if s else bnot(x) for x, s in keep])))
    # pull out conjuncts that do not depend on v
    if b.op == 'ite' and b.a[2] is FALSE and not has(b.a[0], v):
        return band(b.a[0], any_(n, lam(v, b.a[1])))
    if b.op == 'ite' and b.a[1] is FALSE and not has(b.a[0], v):
        return band(bnot(b.a[0]), any_(n, lam(v, b.a[2])))
    if n.op == 'num' and n.a[0] <= 8:
        return bor(*[app(l, num(k)) for k in range(int(n.a[0]))])
    return mk('any', n, l)
BUILD['any'] = any_

def renorm(x):
    d, c = tm.lin(x)
    r = None
    for k in sorted(d, key=lambda t: t.id):
        q = d[k]
        t = k if q == 1 else (neg(k) if q == -1 else mul(num(q), k))
        r = t if r is None else add(r, t)
    if r is None: return num(c)
    return add(r, num(c)) if c else r

def nonneg(x):
    if x.op == 'num': return x.a[0] >= 0
    if x.op in ('sym', 'var', 'bv', 'alen', 'sel', 'nth', 'fld'): return True   # usize-valued leaves
    if x.op == 'add': return nonneg(x.a[0]) and nonneg(x.a[1])
    if x.op == 'mul': return nonneg(x.a[0]) and nonneg(x.a[1])
    return False

def leafset(x):
    return leaves(x)

def mkfold(n, init, f2):
    """fold over t in [0,n) of f2(t, acc); normal forms for sums and products"""
    t = fresh(); acc = fresh()
    body = f2(t, acc)
    return fold_of(n, init, t, acc, body)

def reacc(acc, body):
    a2 = fresh()
    return a2, subst(body, {acc: a2})

def fold_of(n, init, t, acc, body):
    if body is acc or n is ZERO: return init
    sp = split_digits(t, body, n)
    if sp:
        ds, us, cur = sp
        for i in range(len(ds) - 1, 0, -1):
            cur = fold_of(ds[i], acc, us[i], *reacc(acc, cur))
        return fold_of(ds[0], init, us[0], *reacc(acc, cur))
    z = eq(t, ZERO)
    if n.op != 'num' and z.op == 'eq' and any(x is z for x in subterms(body)):
        # the first step is singled out
        b0 = subst(body, {t: ZERO, acc: init}); b1 = subst(subst(body, {z: FALSE}), {t: add(t, ONE)})
        if not any(x is z for x in subterms(b1)):
            return ite(eq(n, ZERO), init, fold_of(sub(n, ONE), b0, t, acc, b1))
    if not has(body, acc):
        # last value wins
        if n.op == 'num': return subst(body, {t: num(n.a[0] - 1)})
    ls = leaves(body)
    def delta(x):
        d, c = tm.lin(x)
        if d.get(acc) == 1 and not any(has(k, acc) for k in d if k is not acc):
            d = dict(d); del d[acc]
            r = None
            for k in sorted(d, key=lambda z: z.id):
                q = d[k]
                z = k if q == 1 else (neg(k) if q == -1 else mul(num(q), k))
                r = z if r is None else add(r, z)
            if r is None: return num(c)
            return add(r, num(c)) if c else r
        return None
    def conds_free(x):
        return x.op != 'ite' or (not has(x.a[0], acc) and conds_free(x.a[1]) and conds_free(x.a[2]))
    if conds_free(body) and all(delta(x) is not None for x in ls):
        return add(init, sum_(n, lam(t, lift(body, delta))))
    if body.op == 'ite' and not body.b and conds_free(body):
        # each branch multiplies: one product of the chosen factors
        def factor(x):
            if x is acc: return ONE
            if x.op == 'mul' and acc in x.a:
                o = x.a[1] if x.a[0] is acc else x.a[0]
                return None if has(o, acc) else o
        if all(factor(x) is not None for x in ls): body = mk('mul', acc, lift(body, factor))
    if body.op == 'mul' and acc in body.a:
        o = body.a[1] if body.a[0] is acc else body.a[0]
        if not has(o, acc):
            p = prod_(n, lam(t, o))
            return p if init is ONE else mul(init, p)
    if body.op == 'ite' and not body.b and conds_free(body):
        # conditional overwrite with one loop-invariant value
        vals = {x for x in ls if x is not acc}
        if len(vals) == 1:
            v = next(iter(vals))
            if not has(v, acc) and not has(v, t):
                def hit(x):
                    if x.op == 'ite': return b_ite(x.a[0], hit(x.a[1]), hit(x.a[2]))
                    return FALSE if x is acc else TRUE
                return ite(any_(n, lam(t, hit(body))), v, init)
    if body.op == 'ite' and body.b:
        # boolean accumulators: all / any
        if body.a[0] is acc and body.a[2] is FALSE and not has(body.a[1], acc):
            return band(init, bnot(any_(n, lam(t, bnot(body.a[1])))))
        if body.a[0] is acc and body.a[1] is TRUE and not has(body.a[2], acc):
            return bor(init, any_(n, lam(t, body.a[2])))
    if n.op == 'num' and n.a[0] <= 8:
        r = init
        for k in range(int(n.a[0])): r = subst(body, {t: num(k), acc: r})
        return r
    return mk('fold', n, init, lam(t, lam(acc, body)))

BUILD['fold'] = lambda n, i, l: i if n is ZERO else mk('fold', n, i, l)
def sum_(n, l):
    if n.op == 'num' and n.a[0] <= 8 and n.a[0].denominator == 1:
        r = ZERO
        for k in range(int(n.a[0])): r = add(r, app(l, num(k)))
        return r
    v = fresh(); b = app(l, v)
    if b is ZERO: return ZERO
    sp = split_digits(v, b, n)
    if sp:
        b = sp[2]
        for d, u in reversed(list(zip(sp[0], sp[1]))): b = sum_(d, lam(u, b))
        return b
    return mk('sum', n, l)
def prod_(n, l):
    if n.op == 'num' and n.a[0] <= 8 and n.a[0].denominator == 1:
        r = ONE
        for k in range(int(n.a[0])): r = mul(r, app(l, num(k)))
        return r
    return mk('prod', n, l)
BUILD['sum'] = sum_
BUILD['prod'] = prod_

class Phi:
    __slots__ = ('key', 'var', 'init', 'next', 'kind', 'at', 'final')

def antiunify(g, b, key, phis, init):
    """generalise g and b; differing positions become phi variables (keyed by position)"""
    if g is b: return g
    if key in phis:
        return phis[key].var
    if g.op == 'bot': pass
    if g.op == b.op == 'box': return mk('box', antiunify(g.a[0], b.a[0], key + (0,), phis, field_at(init, 0)))
    if same_head(g, b) and g.op in ('adt', 'tup', 'clo'):
        return build(g.op, *[antiunify(x, y, key + (i,), phis, (field_at(init, i))) if x.__class__ is T else x
                             for i, (x, y) in enumerate(zip(g.a, b.a))])
    if g.op == 'seq' and b.op == 'seq' and g.a[0] is b.a[0] and g.a[2:] == b.a[2:]:
        return mk('seq', g.a[0], antiunify(g.a[1], b.a[1], key + ('pos',), phis, init.a[1] if init.op == 'seq' else unk('init')), *g.a[2:])
    p = Phi(); p.key = key; p.var = fresh(); p.init = init; p.next = None; p.kind = None; p.at = None; p.final = None
    phis[key] = p
    ds = tm.dims_of_array(init)
    if ds and not any(find_unk(d) for d in ds): tm.SHAPES[p.var] = ds
    return p.var

def field_at(t, i):
    if t.op in ('adt', 'tup', 'clo', 'box') and i < len(t.a): return t.a[i]
    return unk('init')

def locate(v, key):
    for k in key:
        if v.op == 'bot': return BOT
        if k == 'pos':
            if v.op == 'seq': v = v.a[1]
            else: return None
        elif v.op == 'ite':
            return None
        else:
            if k >= len(v.a): return None
            v = v.a[k]
    return v

def unroll(ip, fr, h, L, pc, st, limit=10):
    """every iteration executed in turn, each exit kept under its own condition; None unless the loop ends by itself"""
    if getattr(ip, 'unrolling', 0) > 1: return None
    ip.unrolling = getattr(ip, 'unrolling', 0) + 1
    nob = len(ip.obls); nno = len(ip.notes); exits = {}
    try:
        for _ in range(limit):
            res = ip.region(fr, L, h, h, pc, dict(st))
            back = res.pop(h, None)
            for tgt, x in res.items(): exits.setdefault(tgt, []).append(x)
            if back is None: return {k: ip.merge(v) for k, v in exits.items()}
            pc, st = back
    finally: ip.unrolling -= 1
    del ip.obls[nob:]; del ip.notes[nno:]
    return None

def summarise(ip, fr, h, L, pc, st):
    st0 = st; pc0 = pc; nob0 = len(ip.obls)
    nno0 = len(ip.notes)
    def again():
        a, b = ip.obls[nob0:], ip.notes[nno0:]
        del ip.obls[nob0:]; del ip.notes[nno0:]
        r = unroll(ip, fr, h, L, pc0, st0)
        if r is None: ip.obls.extend(a); ip.notes.extend(b)
        return r
    # 1. unrolling while the control flow is decided
    cur_pc, cur = pc, st
    exits = {}
    for _ in range(40):
        nob = len(ip.obls)
        res = ip.region(fr, L, h, h, cur_pc, dict(cur))
        back = res.pop(h, None)
        if back is None:
            return res
        if res:
            del ip.obls[nob:]
            break
        cur_pc, cur = back
        if cur_pc is not pc: break
    else:
        back = None
    st = cur; pc = cur_pc
    # 2. generalisation
    phis = {}
    G = dict(st)
    for rnd in range(8):
        nob = len(ip.obls)
        for p in phis.values(): ip.ranges.setdefault(p.var, None)
        res = ip.region(fr, L, h, h, pc, dict(G))
        back = res.pop(h, None)
        if back is None:
            return res
        cb, B = back
        n0 = len(phis)
        N = {}
        for c, g in G.items():
            b = B.get(c, g)
            N[c] = antiunify(g, b, (c,), phis, st[c]) if not (b.op == 'bot') else g
        stable = len(phis) == n0 and all(N[c] is G[c] for c in G)
        if stable: break
        G = N
        del ip.obls[nob:]
    else:
        return fail(ip, fr, h, L, pc, st, res, phis, 'loop state did not stabilise')
    # 3. solve
    for p in phis.values():
        v = B.get(p.key[0])
        p.next = locate(v, p.key[1:]) if v is not None else None
        p.next = unk('loop next') if p.next is None else under(p.next, cb)
    t = fresh()
    ip.ranges[t] = (ZERO, None)
    sol = {}
    for p in phis.values():
        if p.next.op == 'add' and p.next.a[0] is p.var and p.next.a[1] is ONE:
            p.kind = 'ind'; p.at = add(p.init, t) if p.init is not ZERO else t
            sol[p.var] = p.at
        elif p.next.op == 'add' and p.next.a[0] is p.var and p.next.a[1] is num(-1):
            p.kind = 'ind'; p.at = sub(p.init, t)
            sol[p.var] = p.at
    allvars = {p.var for p in phis.values()}
    nonind = {p.var for p in phis.values() if p.kind != 'ind'}
    rc = constrain(cb, pc)
    rc = subst(rc, sol)
    # continue condition: lt(t+c, N) [and early-exit tests]
    trip, rest = split_trip(rc, t, allvars)
    if trip is None:
        bounded = any(x.op in ('lt', 'eq') and any(y.op == 'num' and 0 < y.a[0] <= 8 for y in x.a) for x in atoms_of(rc))
        return (again() if bounded else None) or fail(ip, fr, h, L, pc, st, res, phis, 'no trip count')
    ip.ranges[t] = (ZERO, trip)
    # 3b. closed forms for the remaining phis
    todo = [p for p in phis.values() if p.kind != 'ind']
    progress = True
    while todo and progress:
        progress = False
        for p in list(todo):
            others = {q.var for q in todo if q is not p}
            nx = subst(p.next, {k: v for k, v in sol.items() if k is not p.var})
            if any(has(nx, o) for o in others):
                continue
            r = closed(ip, p, nx, t, trip, sol)
            if r is not None:
                p.at, p.final = r
                sol[p.var] = p.at
                todo.remove(p); progress = True
    small = trip.op == 'num' and trip.a[0] <= 8
    if small and (todo or rest is not TRUE):
        r = again()
        if r is not None: return r
    if todo:
        # joint accumulators
        for p in todo:
            p.at = unk('loop-carried value'); p.final = p.at
            sol[p.var] = p.at
    # rest (early exit tests) expressed at iteration t
    rest_t = subst(rest, sol)
    out = {}
    if rest_t is TRUE:
        early = FALSE
    else:
        if find_unk(rest_t) or any(has(rest_t, v) for v in nonind):
            return fail(ip, fr, h, L, pc, st, res, phis, 'early exit depends on loop-carried state')
        early = any_(trip, lam(t, bnot(rest_t)))
    fsub = {p.var: (subst(p.at, {t: trip}) if p.kind == 'ind' else (p.final if p.final is not None else unk('loop value'))) for p in phis.values()}
    firstt = mk('first', trip, lam(t, bnot(rest_t))) if early is not FALSE else None
    n_early = sum(1 for c, _ in res.values() if early is not FALSE and at_body(subst(constrain(c, pc), sol), t, trip) is not FALSE)
    for tgt, (c, s) in res.items():
        rel = constrain(c, pc)
        rel_t = subst(rel, sol)
        # is this exit the normal one?  (requires not lt(t.., N))
        normal = constrain_atoms(rel_t, t, trip)
        is_normal = rel_t is not FALSE and at_trip(rel_t, t, trip) is not FALSE
        is_early = at_body(rel_t, t, trip) is not FALSE and early is not FALSE
        parts = []
        if is_normal:
            cn = band(pc, bnot(early), at_trip(rel_t, t, trip))
            s2 = {k: (subst(v, fsub) if v.__class__ is T else v) for k, v in s.items()}
            s2 = {k: subst(v, {t: trip}) if v.__class__ is T else v for k, v in s2.items()}
            parts.append((cn, s2))
        if is_early:
            s2 = {k: subst(subst(v, sol), {t: firstt}) if v.__class__ is T else v for k, v in s.items()}
            ab = at_body(rel_t, t, trip)
            ce = band(pc, early, strip(ab, t) if n_early == 1 else subst(ab, {t: firstt}))
            parts.append((ce, s2))
        if parts:
            out[tgt] = ip.merge(parts) if len(parts) > 1 else parts[0]
    # obligations met in the body refer to the phi variables: rewrite them
    for o in ip.obls[nob:]:
        o.cond = subst(o.cond, sol); o.pc = subst(o.pc, sol)
        if o.detail is not None and o.detail.__class__ is tuple:
            o.detail = tuple(subst(d, sol) if d.__class__ is T else d for d in o.detail)
    return out

def split_trip(x, t, allvars, depth=0):
    """(number of iterations admitted by the continue condition x, its other conjuncts)"""
    trip = None; rest = TRUE
    conj = []; y = x
    while y.op == 'ite' and (y.a[2] is FALSE or y.a[1] is FALSE):
        if y.a[2] is FALSE: conj.append(y.a[0]); y = y.a[1]
        else: conj.append(bnot(y.a[0])); y = y.a[2]
    if y is not TRUE: conj.append(y)
    for c in conj:
        tr = trip_of(c, t)
        if trip is None and tr is not None and not any(has(tr, v) for v in allvars): trip = tr
        else: rest = band(rest, c)
    if trip is None and depth < 4:
        # the bound is itself chosen by a loop-invariant test
        for g in atoms_of(x):
            if has(g, t) or any(has(g, v) for v in allvars) or find_unk(g): continue
            hi = split_trip(subst(x, {g: TRUE}), t, allvars, depth + 1); lo = split_trip(subst(x, {g: FALSE}), t, allvars, depth + 1)
            if hi[0] is not None and lo[0] is not None: return ite(g, hi[0], lo[0]), ite(g, hi[1], lo[1])
    return trip, rest

def trip_of(c, t):
    """c is (t + a < N) -> N - a"""
    if c.op == 'ite' and c.a[1] is FALSE and c.a[2] is TRUE and c.a[0].op == 'eq': return trip_of_ne(c.a[0], t)
    if c.op != 'lt': return None
    d, k = tm.lin_sub(c.a[1], c.a[0])   # N - x > 0
    if d.get(t) != -1: return None
    d = dict(d); del d[t]
    if any(has(q, t) for q in d): return None
    r = num(k)
    for q in sorted(d, key=lambda z: z.id):
        w = d[q]
        r = add(r, q if w == 1 else (neg(q) if w == -1 else mul(num(w), q)))
    return renorm(r)

def trip_of_ne(c, t):
    """c is not (t + a == N): the counter meets N after N - a steps, when that is not negative"""
    for x, y in (c.a, c.a[::-1]):
        d, k = tm.lin_sub(y, x)
        if d.get(t) != -1: continue
        d = dict(d); del d[t]
        if any(has(q, t) for q in d): continue
        r = num(k)
        for q in sorted(d, key=lambda z: z.id):
            w = d[q]
            r = add(r, q if w == 1 else (neg(q) if w == -1 else mul(num(w), q)))
        r = renorm(r)
        if nonneg(r): return r
    return None

def _ltatoms(c, t, trip, inside):
    m = {}
    for a in atoms_of(c):
        if trip_of(a, t) is trip: m[a] = TRUE if inside else FALSE
        elif a.op == 'eq' and trip_of_ne(a, t) is trip: m[a] = FALSE if inside else TRUE
    return m

def at_trip(c, t, trip):
    if trip.op == 'ite':
        g = trip.a[0]
        return ite(g, at_trip(subst(c, {g: TRUE}), t, trip.a[1]), at_trip(subst(c, {g: FALSE}), t, trip.a[2]))
    return strip_sub(c, _ltatoms(c, t, trip, False), t, trip)
def at_body(c, t, trip):
    if trip.op == 'ite':
        g = trip.a[0]
        return ite(g, at_body(subst(c, {g: TRUE}), t, trip.a[1]), at_body(subst(c, {g: FALSE}), t, trip.a[2]))
    m = _ltatoms(c, t, trip, True)
    return subst(c, m) if m else c
def strip_sub(c, m, t, trip):
    return subst(subst(c, m), {t: trip}) if m else c
def strip(c, t):
    """at an early exit the remaining gate tests the exit condition itself; it holds at `first`"""
    return TRUE if has(c, t) else c
def constrain_atoms(c, t, trip):
    return c

def fail(ip, fr, h, L, pc, st, res, phis, why):
    ip.notes.append(('loop', fr.fn.id, None, why))
    m = {p.var: unk('loop: ' + why) for p in phis.values()}
    out = {}
    for tgt, (c, s) in res.items():
        out[tgt] = (band(pc, mk('batom', 'loop', unk(why + ' in ' + fr.fn.id), num(tgt if isinstance(tgt, int) else -1))),
                    {k: subst(v, m) if v.__class__ is T else v for k, v in s.items()})
    # obligations mention unknown phis - leave them (they will not be discharged)
    return out

# -------------------------------------------------------------------- closed forms
def closed(ip, p, nx, t, trip, sol):
    """(value at start of iteration t, final value) of a non-induction phi"""
    if nx is p.var:
        return p.init, p.init
    if not has(nx, p.var):
        # overwritten each iteration
        v = fresh()
        at = ite(eq(t, ZERO), p.init, subst(nx, {t: add(t, num(-1))}))
        fin = ite(eq(trip, ZERO), p.init, subst(nx, {t: add(trip, num(-1))})) if trip.op != 'num' else (subst(nx, {t: add(trip, num(-1))}) if trip.a[0] > 0 else p.init)
        return at, fin
    if nx.op == 'push' and nx.a[0] is p.var and not has(nx.a[1], p.var):
        n0 = alen(p.init); k = fresh()
        def pushed(T_):
            e = subst(nx.a[1], {t: sub(k, n0)})
            return arr(add(n0, T_), lam(k, e if n0 is ZERO else ite(lt(k, n0), sel(p.init, k), e)))
        return pushed(t), pushed(trip)
    if p.var in tm.SHAPES:
        return closed_array(ip, p, nx, t, trip)
    # scalar accumulator
    acc = fresh(); t2 = fresh()
    body = subst(nx, {p.var: acc})
    if any(x.op in ('adt', 'clo', 'ref') and has(x, acc) for x in subterms(body)):
        return None
    fin = fold_of(trip, p.init, t, acc, body)
    at = fold_of(t, p.init, t2, acc, subst(body, {t: t2})) if True else None
    return at, fin

def is_array_update(nx, v):
    for x in subterms(nx):
        if x.op == 'upd' and base_of(x) is v: return True
    return False

def base_of(x):
    while x.op in ('upd',): x = x.a[0]
    return x

def depth_of(nx, v):
    d = 0
    for x in leaves(nx):
        if x.op == 'upd':
            d = max(d, 1 + max([depth_of(y, None) for y in leaves(x.a[2]) if y.op == 'upd'] + [0]))
    return d

def closed_array(ip, p, nx, t, trip):
    r = len(tm.SHAPES[p.var])
    js = [fresh() for _ in range(r)]
    e = nx; base = p.var; ini = p.init
    dims = []
    cur = p.init
    for j in js:
        dims.append(alen(cur))
        ip.ranges[j] = (ZERO, dims[-1])
        e = sel(e, j); base = sel(base, j); ini = sel(ini, j); cur = ini
    if find_unk(e): return None
    # e = ite tree: leaves equal to base are 'untouched'
    H = FALSE
    def walk(x, c, fx):
        nonlocal H
        if x.op == 'ite':
            g = fx
            q = x.a[0]
            if q.op == 'eq':
                for j, o in ((q.a[0], q.a[1]), (q.a[1], q.a[0])):
                    if j in js and o not in js: g = dict(fx); g[j] = o
            walk(x.a[1], band(c, x.a[0]), g); walk(x.a[2], band(c, bnot(x.a[0])), fx)
        elif x is not base and not (fx and any(x is subst(base, f) for f in subsets(fx))):
            H = bor(H, c)
    walk(e, TRUE, {})
    if H is FALSE: return p.init, p.init
    hit = under(e, H)
    H0 = H
    # the loop index may be used through its row-major digits only
    sp = split_digits(t, mk('tup', H, hit), trip)
    ts = [t]
    if sp:
        ts = sp[1]
        H, hit = sp[2].a
        for u, d in zip(sp[1], sp[0]): ip.ranges[u] = (ZERO, d)
    # equalities implied by H : j = g(t)
    m = {}
    cube = H; eqs = []
    while cube.op == 'ite' and (cube.a[2] is FALSE or cube.a[1] is FALSE):
        if cube.a[2] is FALSE: eqs.append(cube.a[0]); cube = cube.a[1]
        else: cube = cube.a[2]
    if cube.op == 'eq': eqs.append(cube)
    hv = hit
    for q in eqs:
        if q.op != 'eq': continue
        for j in js:
            d, c = tm.lin_sub(q.a[0], q.a[1])
            if d.get(j) in (1, -1) and sum(1 for k in d if has(k, j)) == 1:
                sj = d[j]
                hit_t = next((tt for tt in ts if d.get(tt) in (1, -1) and sum(1 for k in d if has(k, tt)) == 1), None)
                if hit_t is not None:
                    st_ = d[hit_t]; rest = num(c)
                    for k, w in d.items():
                        if k is not j and k is not hit_t: rest = add(rest, k if w == 1 else (neg(k) if w == -1 else mul(num(w), k)))
                    # sj*j + st*t + rest = 0
                    r = add(j if sj == 1 else neg(j), rest)
                    m[hit_t] = renorm(neg(r) if st_ == 1 else r)
                elif not any(d.get(tt) is not None for tt in ts):
                    # j = g(t): replace g(t) by j inside the hit value
                    o = q.a[1] if q.a[0] is j else (q.a[0] if q.a[1] is j else None)
                    if o is not None and any(has(o, tt) for tt in ts): hv = replace_terms(hv, {o: j})
    inj = all(tt in m for tt in ts)
    if inj:
        hv = subst(hv, m)
        ix = {x.a[1]: renorm(x.a[1]) for x in subterms(hv) if x.op == 'sel' and x.a[1].op in ('add', 'neg')}
        ix = {k: v for k, v in ix.items() if v is not k and v in js}
        if ix: hv = replace_terms(hv, ix)
    # reads of the hit element itself still see the initial contents (each element is hit once)
    rep = {base: ini}
    fix = {}
    for q in eqs:
        if q.op == 'eq':
            for j, o in ((q.a[0], q.a[1]), (q.a[1], q.a[0])):
                if j in js and not any(has(o, x) for x in js) and not any(has(o, tt) for tt in ts): fix[j] = o
    if fix: rep[subst(base, fix)] = subst(ini, fix)
    hv2 = replace_terms(hv, rep) if inj else hv
    if inj and has(hv2, p.var):
        hv2 = subst(hv2, {p.var: p.init}) if reads_only_hit(hv2, p.var, js) else hv2
    hv = hv2
    if has(hv, p.var) or any(has(hv, tt) for tt in ts) or has(hv, t):
        # element-wise recurrence: each element only reads its own previous value
        acc = fresh()
        rep = {base: acc}
        fx = {}
        for q in atoms_of(H0):
            if q.op == 'eq':
                for j, o in ((q.a[0], q.a[1]), (q.a[1], q.a[0])):
                    if j in js and o not in js: fx[j] = o
        for f in subsets(fx): rep[subst(base, f)] = acc
        body = ite(H0, replace_terms(under(e, H0), rep), acc)
        if has(body, p.var) or not only_under(e, base, fx): return None
        def rec_at(T_, tv):
            v = fold_of(T_, ini, tv, acc, subst(body, {t: tv}))
            for j, d in reversed(list(zip(js, dims))): v = arr(d, lam(j, v))
            return v
        return rec_at(t, fresh()), rec_at(trip, fresh())
    H = H0
    def build_at(T_):
        cond = any_(T_, lam(t, H))
        # range facts of the array index itself
        for j, d in zip(js, dims):
            cond = assume_lt(cond, j, d)
        v = ite(cond, hv, ini)
        for j, d in reversed(list(zip(js, dims))):
            v = arr(d, lam(j, v))
        return v
    return build_at(t), build_at(trip)

def only_under(e, base, fx):
    return True

def subsets(m):
    import itertools
    ks = list(m)
    for r in range(1, len(ks) + 1):
        for c in itertools.combinations(ks, r):
            yield {k: m[k] for k in c}

def reads_only_hit(v, phi, js):
    """all reads of phi in v are at index js[0] (hence untouched so far when each index is hit once)"""
    ok = True
    for x in subterms(v):
        if x is phi: continue
        for y in x.a:
            if y is phi and not (x.op == 'sel' and x.a[1] is js[0]): ok = False
    return ok

def assume_lt(c, j, n):
    """simplify c knowing 0 <= j < n"""
    a = mk('lt', j, n) if (j.op != 'num') else None
    m = {}
    for x in atoms_of(c):
        if x.op == 'lt':
            if x.a[0] is j and x.a[1] is n: m[x] = TRUE
            elif x.a[1] is ZERO and x.a[0] is j: m[x] = FALSE
            elif x.a[1] is n and x.a[0] is j: m[x] = TRUE
    return subst(c, m) if m else c
