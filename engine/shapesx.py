"""C16: the algebra of shapes and indices."""
from ana import *
from bufs import *
from nodes import RES
SH = 'aegir::buffers::shapes::'
SHAPE, IX, SPLIT, CONCAT, BCAST, SHAPED = (SH + x for x in ('Shape', 'Ix', 'Split', 'Concat', 'Broadcast', 'Shaped'))

def rank(t):
    """rank of a shape type: a number, or the constant parameter it is fixed to"""
    n = t[1].rsplit('::', 1)[1] if t[0] == 'adt' else ''
    if n == 'SDynamic': return t[2][0]
    if re.fullmatch(r'S\d', n): return ('cval', len(t[2]))
    return None
def is_dyn(t): return t[1].endswith('::SDynamic')
def const(ip, c): return ip.ty_const(c)
def extents(ip, t, v):
    """the extents of shape value v of type t as terms, when the rank is a number"""
    if not is_dyn(t): return [const(ip, c) for c in t[2]]
    n = const(ip, t[2][0])
    if n.op != 'num': return None
    a = field(v, 0, 0)
    return [sel(a, num(i)) for i in range(int(n.a[0]))]
def coords(ip, t, ix):
    """the coordinates of index ix of a shape of type t"""
    if is_dyn(t): k = const(ip, t[2][0])
    else: k = num(len(t[2]))
    if k.op != 'num': return None
    k = int(k.a[0])
    if k == 0: return []
    if k == 1 and not is_dyn(t): return [ix]
    return [sel(ix, num(i)) for i in range(k)]
def eqs(a, b):
    if a is None or b is None: return ('?', 'rank not a number')
    if len(a) != len(b): return ('no', '%d coordinates instead of %d' % (len(a), len(b)))
    return algebra.conj([equal(x, y) for x, y in zip(a, b)]) if a else ('yes', None)

def with_rank(im, k):
    """the impl at run-time-extent rank k"""
    return {g[2]: ('cval', k) for g in im.generics if g[0] == 'const'}

RANKS = range(0, 7)
def c16(A, rep, tier):
    n = {'shape': 0, 'concat': 0, 'split': 0, 'bcast': 0, 'ix': 0, 'shaped': 0}
    for im in impls_of(A, SHAPE):
        t0 = im.targs[0]; rk = rank(t0)
        if rk is None: rep.add('%s: shape type' % ty_show(t0), '?', im.span, 'unknown family of shapes', 'shape family'); continue
        n['shape'] += 1
        insts = [({}, ty_show(t0))] if not is_dyn(t0) else [({}, ty_show(t0))] + [(with_rank(im, k), '%s at rank %d' % (ty_show(t0), k)) for k in RANKS]
        for sub, nm in insts:
            t = ty_subst(t0, sub)
            # membership
            f = im.fns.get('contains') or SHAPE + '::contains'
            r = A.run(f, ['self', 'ix'], sub=sub); ip = r.ip
            t = ip.env.norm(t)
            es = extents(ip, t, r.arg(0)); cs = coords(ip, t, r.arg(1))
            if es is not None:
                want = conjunction([lt(c, e) for c, e in zip(cs, es)])
                rep.eq('%s: member exactly when every coordinate is below its extent' % nm, equal(r.ret, want), f, 'membership')
            else:
                v = fresh(); m = const(ip, t[2][0])
                want = bnot(loops.BUILD['any'](m, lam(v, bnot(lt(sel(r.arg(1), v), sel(field(r.arg(0), 0, 0), v))))))
                rep.eq('%s: member exactly when every coordinate is below its extent' % nm, equal(r.ret, want), f, 'membership')
            # cardinality
            f = im.fns.get('cardinality') or SHAPE + '::cardinality'
            r = A.run(f, ['self'], sub=sub); ip = r.ip
            es = extents(ip, t, r.arg(0))
            if es is not None:
                want = ONE
                for e in es: want = mul(want, e)
            else:
                v = fresh(); want = loops.BUILD['prod'](const(ip, t[2][0]), lam(v, sel(field(r.arg(0), 0, 0), v)))
            rep.eq('%s: cardinality is the product of the extents' % nm, equal(r.ret, want), f, 'cardinality')
            # rank constant
            it = im.consts.get('DIM')
            if it and not sub:
                ip = A.ip(A.P.fns[f]); cb = A.P.consts.get(it[2])
                if cb:
                    v, _, _ = ip.run_body(interp._ConstFn(cb, it[2]), cb['body'], {}, [], {}, TRUE)
                    rep.eq('%s: declared rank' % nm, equal(v, const(ip, rk)), it[2], 'rank')
            # enumeration
            if is_dyn(t): continue
            f = im.fns.get('indices') or SHAPE + '::indices'
            r = A.run(f, ['self'], sub=sub)
            rep.eq('%s: indices enumerate every member once, row-major' % nm, enumerates(A, r, f, t, extents(r.ip, t, r.arg(0))), f, 'enumeration')
    for me, k in (('is_scalar', 0), ('is_vector', 1), ('is_matrix', 2)):
        fid = SHAPE + '::' + me
        if fid in A.P.fns:
            r = A.run(fid, ['self'])
            d = sym('aconst', 'DIM', tuple(A.P.traits[SHAPE]['generics'][:0])) ; ds = [x for x in subterms(r.ret) if x.op == 'sym' and x.a[0] == 'aconst']
            want = eq(ds[0], num(k)) if len(ds) == 1 else None
            rep.eq('Shape::%s: rank %d' % (me, k), equal(r.ret, want) if want is not None else ('?', 'rank constant not read'), fid, 'rank predicates')
    fid = SHAPE + '::is_equivalent'
    if fid in A.P.fns:
        r = A.run(fid, ['self', 'other'])
        rep.eq('Shape::is_equivalent: same cardinality', equal(r.ret, eq(mk('card', r.arg(0)), mk('card', r.arg(1)))), fid, 'cardinality')
    for im in impls_of(A, SHAPE):
        for me in ('is_scalar', 'is_vector', 'is_matrix', 'is_equivalent'):
            if me in im.fns: rep.add('%s overrides %s' % (ty_show(im.targs[0]), me), '?', im.fns[me], 'overridden provided method', 'rank predicates')
    for im in impls_of(A, CONCAT):
        l, r_ = im.targs; key = '%s + %s' % (ty_show(l), ty_show(r_))
        if rank(l) is None or rank(r_) is None: continue
        n['concat'] += 1
        f = im.fns.get('concat'); r = A.run(f, ['self', 'rhs']); ip = r.ip
        out = ip.env.norm(tup(A.P.fns[f].body['locals'][0]))
        if out[0] != 'adt' or rank(out) is None: rep.add(key, '?', f, 'unknown result shape', 'concatenation'); continue
        rep.eq('%s: extents' % key, eqs(extents(ip, out, r.ret), cat(extents(ip, ip.env.norm(l), r.arg(0)), extents(ip, ip.env.norm(r_), r.arg(1)))), f, 'concatenation appends the extents')
        f = im.fns.get('concat_indices'); r = A.run(f, ['left', 'rhs']); ip = r.ip
        rep.eq('%s: indices' % key, eqs(coords_of(ip, out, r.ret), cat(coords(ip, ip.env.norm(l), r.arg(0)), coords(ip, ip.env.norm(r_), r.arg(1)))), f, 'concatenation appends the coordinates')
    for im in impls_of(A, SPLIT):
        t = im.targs[0]; key = ty_show(t); n['split'] += 1
        f = im.fns.get('split'); r = A.run(f, ['self']); ip = r.ip; t = ip.env.norm(t)
        lt_, rt_ = ip.env.norm(tup(A.P.fns[f].body['locals'][0]))[1]
        if rank(lt_) is None or rank(rt_) is None: rep.add(key, '?', f, 'unknown part shapes', 'splitting'); continue
        parts = cat(extents(ip, lt_, field(r.ret, None, 0)), extents(ip, rt_, field(r.ret, None, 1)))
        rep.eq('%s: split undoes concatenation of extents' % key, eqs(parts, extents(ip, t, r.arg(0))), f, 'splitting')
        f = im.fns.get('split_index'); r = A.run(f, ['index']); ip = r.ip
        parts = cat(coords_of(ip, lt_, field(r.ret, None, 0)), coords_of(ip, rt_, field(r.ret, None, 1)))
        rep.eq('%s: split undoes concatenation of indices' % key, eqs(parts, coords(ip, t, r.arg(0))), f, 'splitting')
    for im in impls_of(A, IX):
        t0 = im.targs[0]; n['ix'] += 1; f = im.fns.get('is_diagonal')
        insts = [({}, ty_show(t0))]
        if t0[0] == 'array': insts += [(with_rank(im, k), '%s at rank %d' % (ty_show(t0), k)) for k in RANKS]
        for sub, nm in insts:
            r = A.run(f, ['self'], sub=sub); ip = r.ip; t = ip.env.norm(ty_subst(t0, sub)); a = r.arg(0)
            if t[0] != 'array': want = TRUE
            else:
                m = const(ip, t[2])
                if m.op == 'num': want = conjunction([eq(sel(a, ZERO), sel(a, num(i))) for i in range(1, int(m.a[0]))])
                else:
                    v = fresh(); want = bnot(loops.BUILD['any'](m, lam(v, bnot(eq(sel(a, ZERO), sel(a, v))))))
                    want2 = bnot(ite(lt(ZERO, m), loops.BUILD['any'](sub_(m, ONE), lam(v, bnot(eq(sel(a, ZERO), sel(a, add(v, ONE)))))), FALSE))
                    z = equal(r.ret, want)
                    if z[0] == '?': z = algebra.conj([equal(assume_(r.ret, lt(ZERO, m), True), assume_(want2, lt(ZERO, m), True), ((lt(ZERO, m), True),)), equal(assume_(subst(r.ret, {m: ZERO}), lt(ZERO, ZERO), False), TRUE)])
                    rep.eq('%s: diagonal exactly when all coordinates coincide' % nm, z, f, 'diagonal indices'); continue
            rep.eq('%s: diagonal exactly when all coordinates coincide' % nm, equal(r.ret, want), f, 'diagonal indices')
    for im in impls_of(A, BCAST):
        l, r_ = im.targs; key = '%s with %s' % (ty_show(l), ty_show(r_))
        if rank(l) is None or rank(r_) is None: continue
        n['bcast'] += 1
        f = im.fns.get('broadcast'); r = A.run(f, ['self', 'rhs']); ip = r.ip; l = ip.env.norm(l); r_ = ip.env.norm(r_)
        a, b = r.arg(0), r.arg(1)
        out = ip.env.norm(tup(A.P.fns[f].body['locals'][0])); okt = out[2][0] if out[0] == 'adt' and out[1] == RES else None
        if okt is None or rank(okt) is None: rep.add(key, '?', f, 'unknown result shape', 'broadcasting'); continue
        sc = lambda x: not is_dyn(x) and len(x[2]) == 0
        other = r_ if sc(l) else l
        rep.add('%s: result family' % key, 'yes' if okt == other else 'no', f, 'broadcasts to %s' % ty_show(okt), 'broadcasting')
        if sc(l): want = mk('adt', RES, 0, b)
        elif sc(r_) or not is_dyn(l): want = mk('adt', RES, 0, a)
        else:
            want = ite(eq(field(a, 0, 0), field(b, 0, 0)), mk('adt', RES, 0, a), mk('adt', RES, 1, mk('adt', SH + 'IncompatibleShapes', 0, a, b)))
        rep.eq('%s: result' % key, equal(r.ret, want), f, 'broadcasting')
    for im in impls_of(A, SHAPED):
        t = im.targs[0]; f = im.fns.get('shape')
        r = A.run(f, ['self']); ip = r.ip; t = ip.env.norm(t)
        out = ip.env.norm(tup(A.P.fns[f].body['locals'][0]))
        if out[0] != 'adt' or rank(out) is None: continue      # structured buffers: decided with C03 / C04
        n['shaped'] += 1
        view = None; want = None
        if t[0] == 'tuple': want = [num(len(t[1]))]
        elif t[0] == 'array':
            want = []; x = t
            while x[0] == 'array': want.append(const(ip, x[2])); x = x[1]
        elif t[0] == 'prim': want = []
        elif t[0] == 'adt' and t[1].endswith('::Vec'): want = [alen_(r.arg(0))]
        if want is None: rep.add('%s: shape' % ty_show(t), '?', f, 'unknown buffer family', 'shape of a value'); continue
        rep.eq('%s: the shape of a value is its extents' % ty_show(t), eqs(extents(ip, out, r.ret), want), f, 'shape of a value')
    for k, least in (('shape', 4), ('concat', 30), ('split', 1), ('bcast', 10), ('ix', 2), ('shaped', 8)): rep.floor('%s impls' % k, n[k], least)

def cat(a, b): return None if a is None or b is None else a + b
def sub_(a, b): return tm.sub(a, b)
def alen_(v): return v.a[0] if v.op == 'arr' else mk('alen', v)
def assume_(t, c, val): return algebra.assign(t, c, val)
def conjunction(cs):
    out = TRUE
    for c in cs: out = band(out, c)
    return out
def coords_of(ip, t, v):
    """coordinates of a computed index value"""
    if v.op == 'unk': return None
    if v.op == 'arrlit': return list(v.a)
    if v.op == 'tup' and not v.a: return []
    return coords(ip, t, v)

def enumerates(A, r, f, t, es):
    """the sequence is the lexicographic enumeration of the box with extents es"""
    ip = r.ip; v = r.ret
    while v.op == 'box': v = v.a[0]
    s = stdmodels.to_seq(ip, v, r.st, TRUE)
    if s is None: return ('?', 'unanalysed iterator %s' % show(v)[:100])
    ks, ds, e = stdmodels.open_seq(ip, s)
    got = coords_of(ip, t, e)
    if got is None: return ('?', 'unanalysed element %s' % show(e)[:100])
    if len(got) != len(es): return ('no', '%d coordinates instead of %d' % (len(got), len(es)))
    if not es: return equal(ds[0], ONE) if len(ds) == 1 else ('?', 'enumeration of a point')
    if len(ds) == len(es):
        z = algebra.conj([equal(d, x) for d, x in zip(ds, es)] + [equal(g, k) for g, k in zip(got, ks)])
        if z[0] == 'yes': return z
    # another way of enumerating: compare with the lexicographic order on small boxes
    import itertools
    for sizes in itertools.product((1, 2, 3), repeat=len(es)):
        if len(es) > 3 and max(sizes) * sum(sizes) > 14: continue
        m = {x: num(k) for x, k in zip(es, sizes) if x.op != 'num'}
        dd = [subst(d, m) for d in ds]
        if any(d.op != 'num' for d in dd): return ('?', 'length not computed')
        seq = []
        for pt in itertools.product(*[range(max(0, int(d.a[0]))) for d in dd]):
            g = [subst(subst(x, m), {k: num(i) for k, i in zip(ks, pt)}) for x in got]
            if any(x.op != 'num' for x in g): return ('?', 'element not computed')
            seq.append(tuple(int(x.a[0]) for x in g))
        want = list(itertools.product(*[range(k) for k in sizes]))
        if seq != want: return ('no', 'extents %s enumerate as %s' % (sizes, seq[:8]))
    return ('?', 'enumeration in another form')

# ------------------------------------------------------------------ C25
ITER = 'core::iter::traits::iterator::Iterator'
def leaves(t, path=()):
    """scalar components of a state value, by path"""
    if t.op in ('adt', 'tup', 'arrlit', 'box'):
        k = 2 if t.op == 'adt' else 0
        if t.op == 'adt': yield path + ('variant',), t.a[1]
        for i, x in enumerate(t.a[k:]):
            if x.__class__ is T: yield from leaves(x, path + (i,))
    else: yield path, t
def rebuild(t, f, path=()):
    if t.op in ('adt', 'tup', 'arrlit', 'box'):
        k = 2 if t.op == 'adt' else 0
        return mk(t.op, *(list(t.a[:k]) + [rebuild(x, f, path + (i,)) for i, x in enumerate(t.a[k:])]))
    return f(path, t)

class Enum:
    """the enumeration iterator of SDynamic at a fixed rank, through its own constructor and step function"""
    def __init__(self, A, im, rank):
        self.A = A; self.k = rank; self.im = im
        self.ss = [sym('s%d' % i) for i in range(rank)]; self.cs = [sym('c%d' % i) for i in range(rank)]
        it = im.types['IndexIter'][2] if len(im.types['IndexIter']) > 2 else None
        self.dim = with_rank(im, rank)
        self.indices = im.fns['indices']
        out = ty_subst(tup(A.P.fns[self.indices].body['locals'][0]), self.dim)
        ip = A.ip(A.P.fns[self.indices]); out = ip.env.norm(out)
        self.out = out; self.it = None
        if out[0] == 'adt':
            c = [x for x in A.P.by_trait.get(ITER, ()) if x.targs[0][0] == 'adt' and x.targs[0][1] == out[1]]
            self.it = c[0] if c else None
        if self.it is not None:
            self.isub = {}
            if not unify(self.it.targs[0], out, self.isub): self.it = None
        self.obls = []
    def shape(self, ss):
        return lambda ip: ip.adt(('adt', SH + 'SDynamic', ()), 0, arrlit(*ss))
    def start(self, ss=None):
        r = self.A.run(self.indices, ['self'], concrete={0: self.shape(ss or self.ss)}, sub=self.dim); self.obls += r.obls
        return r.ret
    def method(self, me, state):
        f = self.it.fns.get(me)
        if f is None: return None
        r = self.A.run(f, ['self'], concrete={0: state}, sub=self.isub)
        r.ret = no_overflow(r.ret)
        for o in r.obls: self.obls.append(o)
        return r
    def succ(self, cs, ss):
        """(is there a successor, its coordinates) in row-major order"""
        more = FALSE; out = list(cs); carry = TRUE
        for i in reversed(range(self.k)):
            fits = lt(add(cs[i], ONE), ss[i])
            out[i] = ite(carry, ite(fits, add(cs[i], ONE), ZERO), cs[i])
            more = bor(more, fits); carry = band(carry, bnot(fits))
        return more, out
    def remaining(self, cs, ss):
        n = ZERO
        for i in range(self.k): n = add(mul(n, ss[i]), tm.sub(tm.sub(ss[i], ONE), cs[i]))
        return n
def resolved(t, facts):
    for c, v in facts: t = algebra.assign(t, c, v)
    return t
def no_overflow(t):
    """arithmetic on user-sized integers does not overflow (excepted by the statements)"""
    for _ in range(60):
        xs = [x for x in subterms(t) if x.op == 'batom' and x.a[0] == 'nooverflow']
        if not xs: return t
        for x in xs: t = algebra.assign(t, x, True)
    return t
def some_of(v): return mk('adt', stdmodels.OPT, 1, v)
NONE = lambda: mk('adt', stdmodels.OPT, 0)

def c25(A, rep, tier):
    dyn = [im for im in impls_of(A, SHAPE) if rank(im.targs[0]) is not None and is_dyn(im.targs[0])]
    n = 0
    for im in dyn:
        for k in RANKS:
            E = Enum(A, im, k); key = '%s rank %d' % (ty_show(im.targs[0]), k); f = im.fns['indices']
            if E.it is None: rep.add(key, '?', f, 'iterator type not resolved', 'enumeration'); continue
            n += 1
            enum_rank(A, rep, E, key, k)
    rep.floor('ranks analysed', n, 5)

def enum_rank(A, rep, E, key, k):
    nx = E.it.fns['next']; ss, cs = E.ss, E.cs
    pos = [(lt(ZERO, s), True) for s in ss]
    S0_ = E.start()
    wit = None
    def verdict(what, z, rule, fid=nx):
        nonlocal wit
        if z[0] == 'no' or z[0] == '?':
            if wit is None: wit = walk(A, E, k)
            if wit: z = ('no', wit)
            elif z[0] == 'no': z = ('?', 'not established: %s' % z[1])
        rep.eq('%s: %s' % (key, what), z, fid, rule)
    allpos = conjunction([c for c, _ in pos])
    r1 = E.method('next', S0_)
    first = some_of(arrlit(*[ZERO] * k))
    verdict('first index', equal(r1.ret, ite(allpos, first, NONE())), 'the first index is the origin, none if an extent is zero')
    total = ONE
    for s in ss: total = mul(total, s)
    hint = lambda m: mk('tup', m, some_of(m))
    for me, want in (('size_hint', hint(total)), ('count', total)):
        r = E.method(me, S0_)
        if r is not None: verdict('%s before the first step' % me, equal(r.ret, want), 'lengths match the indices still to come', E.it.fns[me])
    S1 = resolved(r1.out(0), pos)
    if k == 0:
        r2 = E.method('next', r1.out(0))
        verdict('end', equal(r2.ret, NONE()), 'nothing after the last index')
        for me, want in (('size_hint', hint(ZERO)), ('count', ZERO)):
            r = E.method(me, r1.out(0))
            if r is not None: verdict('%s at the end' % me, equal(r.ret, want), 'lengths match the indices still to come', E.it.fns[me])
        return
    # the state after visiting index c, inferred as an affine function of c from single steps
    tmpl = dict(leaves(S1)); ok = True; slope = {p: {} for p in tmpl}
    for i in range(k):
        m = {ss[j]: ONE for j in range(i + 1, k)}
        r = E.method('next', subst(S1, m))
        if r is None: ok = False; break
        st = resolved(r.out(0), pos + [(lt(ONE, ss[i]), True)] + [(lt(add(ZERO, ONE), ss[i]), True)])
        got = dict(leaves(st)); base = dict(leaves(subst(S1, m)))
        if set(got) != set(base): ok = False; break
        for p in got:
            if got[p] is base[p] or got[p].__class__ is not T: continue
            slope[p][i] = unrat_num(tm.sub(got[p], base[p]))
            if slope[p][i] is None: ok = False
    if not ok: verdict('step', ('?', 'state after a step not an affine function of the index'), 'row-major successor'); return
    def fill(cc): return rebuild(S1, lambda p, t: addall([t] + [mul(num(d), cc[i]) for i, d in slope.get(p, {}).items()]))
    M = fill(cs)
    inr = [(lt(c, s), True) for c, s in zip(cs, ss)] + pos + [(lt(c, ZERO), False) for c in cs]
    more, nxt = E.succ(cs, ss)
    r = E.method('next', M)
    facts = tuple(inr)
    verdict('next index', equal(r.ret, ite(more, some_of(arrlit(*nxt)), NONE()), facts), 'row-major successor, none after the last')
    verdict('invariant established', equal(S1, fill([ZERO] * k), facts), 'the state determines the index')
    verdict('invariant kept', equal(ite(more, r.out(0), M), ite(more, fill(nxt), M), facts), 'the state determines the index')
    left = E.remaining(cs, ss)
    for me, want in (('size_hint', hint(left)), ('count', left)):
        r = E.method(me, M)
        if r is not None: verdict('%s mid-way' % me, equal(r.ret, want, facts), 'lengths match the indices still to come', E.it.fns[me])

def addall(xs):
    out = xs[0]
    for x in xs[1:]: out = add(out, x)
    return out
def unrat_num(t):
    if t.op == 'num': return t.a[0]
    z = equal(t, ZERO)
    for c in (1, -1):
        if equal(t, num(c))[0] == 'yes': return c
    return 0 if z[0] == 'yes' else None

def walk(A, E, k):
    """a counterexample by constant propagation from the initial state through the step function"""
    import itertools
    def consts(x): return all(y.op in ('num', 'adt', 'tup', 'arrlit', 'true', 'false') or y in (TRUE, FALSE) for y in subterms(x))
    def literal(x):
        m = {y: arrlit(*[sel(y, num(i)) for i in range(int(y.a[0].a[0]))]) for y in subterms(x) if y.op == 'arr' and y.a[0].op == 'num' and y.a[0].a[0] <= 8}
        return subst(x, m) if m else x
    for sizes in itertools.product((0, 1, 2, 3) if k > 2 else (0, 1, 2, 3, 4, 5, 6) if k == 2 else (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 17, 33), repeat=k):
        if k == 2 and sizes[0] * sizes[1] > 16: continue
        if k > 2 and (max(sizes) + sum(sizes) > 2 + 2 * k or 0 in sizes[1:-1]): continue
        if k > 4 and sizes.count(1) < k - 2: continue
        ss = [num(x) for x in sizes]
        st = E.start(ss); want = list(itertools.product(*[range(x) for x in sizes]))
        for i in range(len(want) + 1):
            if algebra.find_unk(st) is not None: return None
            for me in ('size_hint', 'count'):
                r = E.method(me, st)
                if r is not None:
                    m = num(len(want) - i); w = mk('tup', m, some_of(m)) if me == 'size_hint' else m
                    got = literal(r.ret)
                    if got is not w and consts(got): return 'extents %s: after %d indices %s reports %s' % (sizes, i, me, show(r.ret)[:60])
            r = E.method('next', st)
            w = some_of(arrlit(*[num(x) for x in want[i]])) if i < len(want) else NONE()
            got = literal(r.ret)
            if got is not w:
                if not consts(got): break
                return 'extents %s: step %d yields %s instead of %s' % (sizes, i, show(got)[:60], show(w)[:60])
            st = literal(r.out(0))
    return None
