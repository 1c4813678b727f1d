"""further standard-library functions, in the same form as stdmodels.py"""
from terms import *
from stdmodels import *
import stdmodels as sm
from stdmodels import M, model, adapt, cases, const_ret, callv, deref_all, open_seq, dims_of, to_seq, apply_closure, lam_n, fold_seq, two, guarded, lift1, seq1
from loops import fold_of, any_
import terms as tm
ORD = 'core::cmp::Ordering'
tm.ADTNAMES.setdefault(ORD, ['Less', 'Equal', 'Greater'])
def ordering(x, y):
    return ite(lt(x, y), mk('adt', ORD, 0), ite(eq(x, y), mk('adt', ORD, 1), mk('adt', ORD, 2)))
M['std::cmp::Ord::cmp'] = guarded(two(ordering))
M['std::cmp::PartialOrd::partial_cmp'] = guarded(two(lambda x, y: some(ordering(x, y))))
M['std::cmp::Ord::clamp'] = guarded(lambda ip, c, st, pc: clamp3(*[deref_all(ip, x, st, pc) for x in c.a[:3]]))
def clamp3(x, a, b): return ite(lt(x, a), a, ite(lt(b, x), b, x))

# ------------------------------------------------------------------ bool
@model('std::bool::then')
def b_then(ip, c, st, pc):
    b = deref_all(ip, c.a[0], st, pc)
    if not b.b: return unk('then')
    outs = []
    pk = band(pc, b)
    if pk is not FALSE:
        r, s, cc = callv(ip, c.a[1], [], st, pk, c)
        if cc is not FALSE: outs.append((cc, s, some(r)))
    nk = band(pc, bnot(b))
    if nk is not FALSE: outs.append((nk, st, none()))
    if not outs: return BOT, st, FALSE
    cond, s = ip.merge([(q, dict(s, **{'#r': r})) for q, s, r in outs])
    r = s.pop('#r'); return r, s, cond
@model('std::bool::then_some')
def b_then_some(ip, c, st, pc):
    b = deref_all(ip, c.a[0], st, pc)
    return ite(b, some(c.a[1]), none()) if b.b else unk('then_some')

# ------------------------------------------------------------------ Option / Result
def pred(ip, c, v, st, pc, n, k, other, byref):
    def f(g, st, pc):
        r, st, cc = callv(ip, c.a[1], [mk('refv', g()) if byref else g()], st, pc, c)
        return (r if r.b else unk('predicate')), st, cc
    fs = [const_ret(other)] * n; fs[k] = f
    return cases(ip, v, st, pc, n, fs)
M['std::option::Option::is_some_and'] = lambda ip, c, st, pc: pred(ip, c, c.a[0], st, pc, 2, 1, FALSE, False)
M['std::option::Option::is_none_or'] = lambda ip, c, st, pc: pred(ip, c, c.a[0], st, pc, 2, 1, TRUE, False)
M['std::result::Result::is_ok_and'] = lambda ip, c, st, pc: pred(ip, c, c.a[0], st, pc, 2, 0, FALSE, False)
M['std::result::Result::is_err_and'] = lambda ip, c, st, pc: pred(ip, c, c.a[0], st, pc, 2, 1, FALSE, False)
@model('std::option::Option::filter')
def o_filter(ip, c, st, pc):
    def s(g, st, pc):
        r, st, cc = callv(ip, c.a[1], [mk('refv', g())], st, pc, c)
        return (ite(r, some(g()), none()) if r.b else unk('predicate')), st, cc
    return cases(ip, c.a[0], st, pc, 2, [const_ret(none()), s])
@model('std::option::Option::zip')
def o_zip(ip, c, st, pc):
    def s(g, st, pc):
        x = g()
        return cases(ip, c.a[1], st, pc, 2, [const_ret(none()), lambda h, st, pc: (some(mk('tup', x, h())), st, pc)])
    return cases(ip, c.a[0], st, pc, 2, [const_ret(none()), s])
@model('std::option::Option::and')
def o_and(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [const_ret(none()), const_ret(c.a[1])])
@model('std::option::Option::xor')
def o_xor(ip, c, st, pc):
    def s(g, st, pc):
        x = g()
        return cases(ip, c.a[1], st, pc, 2, [const_ret(some(x)), const_ret(none())])
    return cases(ip, c.a[0], st, pc, 2, [const_ret(c.a[1]), s])
@model('std::option::Option::flatten')
def o_flatten(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [const_ret(none()), lambda g, st, pc: (g(), st, pc)])
@model('std::option::Option::unzip')
def o_unzip(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [const_ret(mk('tup', none(), none())), lambda g, st, pc: (mk('tup', some(field(g(), 0, 0)), some(field(g(), 0, 1))), st, pc)])
@model('std::option::Option::get_or_insert_with')
def o_goi(ip, c, st, pc):
    r = c.a[0]; v = ip.read(r, st, pc)
    def n(g, st, pc):
        x, st, cc = callv(ip, c.a[1], [], st, pc, c)
        return ip.rfield(r, 1, 0), ip.write(r, some(x), st, cc), cc
    return cases(ip, v, st, pc, 2, [n, lambda g, st, pc: (ip.rfield(r, 1, 0), st, pc)])
@model('std::option::Option::get_or_insert')
def o_goi2(ip, c, st, pc):
    r = c.a[0]; v = ip.read(r, st, pc)
    return cases(ip, v, st, pc, 2, [lambda g, st, pc: (ip.rfield(r, 1, 0), ip.write(r, some(c.a[1]), st, pc), pc), lambda g, st, pc: (ip.rfield(r, 1, 0), st, pc)])
@model('std::option::Option::transpose')
def o_transpose(ip, c, st, pc):
    def s(g, st, pc):
        return cases(ip, g(), st, pc, 2, [lambda h, st, pc: (ok(some(h())), st, pc), lambda h, st, pc: (err(h()), st, pc)])
    return cases(ip, c.a[0], st, pc, 2, [const_ret(ok(none())), s])
@model('std::result::Result::transpose')
def r_transpose(ip, c, st, pc):
    def s(g, st, pc):
        return cases(ip, g(), st, pc, 2, [const_ret(none()), lambda h, st, pc: (some(ok(h())), st, pc)])
    return cases(ip, c.a[0], st, pc, 2, [s, lambda g, st, pc: (some(err(g())), st, pc)])
@model('std::result::Result::map_or')
def r_map_or(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [lambda g, st, pc: callv(ip, c.a[2], [g()], st, pc, c), const_ret(c.a[1])])
@model('std::result::Result::cloned', 'std::result::Result::copied')
def r_cloned(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [lambda g, st, pc: (ok(deref_all(ip, g(), st, pc)), st, pc), lambda g, st, pc: (err(g()), st, pc)])
@model('std::result::Result::flatten')
def r_flatten(ip, c, st, pc):
    return cases(ip, c.a[0], st, pc, 2, [lambda g, st, pc: (g(), st, pc), lambda g, st, pc: (err(g()), st, pc)])
def inspect(k):
    def f(ip, c, st, pc):
        fs = [None, None]
        v = c.a[0]
        def hit(g, st, pc):
            r, st, cc = callv(ip, c.a[1], [mk('refv', g())], st, pc, c)
            return under(v, pc), st, cc
        fs[k] = hit; fs[1 - k] = const_ret(v)
        return cases(ip, v, st, pc, 2, fs)
    return f
M['std::option::Option::inspect'] = inspect(1); M['std::result::Result::inspect'] = inspect(0); M['std::result::Result::inspect_err'] = inspect(1)

# ------------------------------------------------------------------ numbers
for p in ('std::num::', 'num_traits::ops::checked::CheckedSub::', 'num_traits::CheckedSub::'):
    M[p + 'checked_sub'] = lambda ip, c, st, pc: (lambda x, y: ite(lt(x, y), none(), some(sub(x, y))))(deref_all(ip, c.a[0], st, pc), deref_all(ip, c.a[1], st, pc))
M['std::num::abs_diff'] = two(lambda x, y: ite(lt(x, y), sub(y, x), sub(x, y)))
M['std::num::checked_div'] = lambda ip, c, st, pc: ite(eq(c.a[1], ZERO), none(), some(tm.BUILD['idiv'](c.a[0], c.a[1])))
for p in ('num_traits::real::Real::', 'num_traits::float::Float::', 'num_traits::Float::', 'std::f64::', 'std::f32::'):
    M.setdefault(p + 'clamp', lambda ip, c, st, pc: clamp3(*[deref_all(ip, x, st, pc) for x in c.a[:3]]))

# ------------------------------------------------------------------ slices
@model('std::slice::split_first', 'std::slice::split_first_mut')
def split_first(ip, c, st, pc):
    r = c.a[0]; n = alen(deref_all(ip, r, st, pc))
    return ite(eq(n, ZERO), none(), some(mk('tup', ip.rindex(r, ZERO), mk('rsub', r, ONE, n))))
@model('std::slice::split_at', 'std::slice::split_at_mut')
def split_at(ip, c, st, pc):
    r, k = c.a[0], c.a[1]; n = alen(deref_all(ip, r, st, pc))
    g = le(k, n); ip.obligation('bounds', c.fr, c.span, pc, g, (n, k))
    pk = band(pc, g)
    if pk is FALSE: return BOT, st, FALSE
    return mk('tup', mk('rsub', r, ZERO, k), mk('rsub', r, k, n)), st, pk
M['std::slice::last_mut'] = M['std::slice::last']; M['std::slice::first_mut'] = M['std::slice::first']
@model('std::slice::contains')
def s_contains(ip, c, st, pc):
    v = deref_all(ip, c.a[0], st, pc); x = deref_all(ip, c.a[1], st, pc); k = fresh()
    return any_(alen(v), lam(k, eq(sel(v, k), x)))
@model('std::slice::copy_from_slice', 'std::slice::clone_from_slice')
def s_copy(ip, c, st, pc):
    d = deref_all(ip, c.a[0], st, pc); s = deref_all(ip, c.a[1], st, pc)
    g = eq(alen(d), alen(s)); ip.obligation('bounds', c.fr, c.span, pc, g, (alen(d), alen(s)))
    pk = band(pc, g)
    if pk is FALSE: return BOT, st, FALSE
    return UNIT, ip.write(sm.strip_box(ip, c.a[0], st, pc), s, st, pk), pk
@model('std::slice::reverse')
def s_reverse(ip, c, st, pc):
    v = deref_all(ip, c.a[0], st, pc); n = alen(v); k = fresh()
    return UNIT, ip.write(sm.strip_box(ip, c.a[0], st, pc), arr(n, lam(k, sel(v, sub(sub(n, ONE), k)))), st, pc), pc
@model('std::slice::windows')
def s_windows(ip, c, st, pc):
    r = sm.strip_box(ip, c.a[0], st, pc); n = alen(deref_all(ip, r, st, pc)); w = c.a[1]; k = fresh()
    return mk('seq', lam(k, mk('rsub', r, k, add(k, w))), ZERO, ite(lt(n, w), ZERO, add(sub(n, w), ONE)))
RNG = {'core::ops::range::Range': lambda a, n: (a[0], a[1]), 'core::ops::range::RangeFrom': lambda a, n: (a[0], n), 'core::ops::range::RangeTo': lambda a, n: (ZERO, a[0]),
       'core::ops::range::RangeFull': lambda a, n: (ZERO, n), 'core::ops::range::RangeToInclusive': lambda a, n: (ZERO, add(a[0], ONE))}
_idx = M['std::ops::Index::index']
def index2(ip, c, st, pc):
    i = c.a[1]
    if i.op == 'adt' and i.a[0] in RNG:
        t = c.targs[0]
        if t[0] == 'adt' and ip.prog.adts.get(t[1], {}).get('local'): return NotImplemented
        r = sm.strip_box(ip, c.a[0], st, pc); n = alen(deref_all(ip, r, st, pc))
        a, b = RNG[i.a[0]](i.a[2:], n)
        g = band(le(a, b), le(b, n)); ip.obligation('bounds', c.fr, c.span, pc, g, (n, b))
        pk = band(pc, g)
        if pk is FALSE: return BOT, st, FALSE
        return mk('rsub', r, a, b), st, pk
    return _idx(ip, c, st, pc)
M['std::ops::Index::index'] = M['std::ops::IndexMut::index_mut'] = index2
@model('std::vec::Vec::extend_from_slice')
def v_extend(ip, c, st, pc):
    v = deref_all(ip, c.a[0], st, pc); s = deref_all(ip, c.a[1], st, pc)
    return UNIT, ip.write(c.a[0], cat_arr(v, s), st, pc), pc
def cat_arr(v, s):
    if v.op == 'arr' and v.a[0] is ZERO: return s
    if v.op == 'arrlit' and s.op == 'arrlit': return arrlit(*(v.a + s.a))
    n, m = alen(v), alen(s); k = fresh()
    return arr(add(n, m), lam(k, ite(lt(k, n), sel(v, k), sel(s, sub(k, n)))))
@model('std::iter::Extend::extend')
def v_extend2(ip, c, st, pc):
    s = to_seq(ip, c.a[1], st, pc)
    v = deref_all(ip, c.a[0], st, pc)
    if s is None: return UNIT, ip.write(c.a[0], unk('extend'), st, pc), pc
    ks, ds, e = open_seq(ip, s)
    if len(ks) != 1: return UNIT, ip.write(c.a[0], unk('extend'), st, pc), pc
    return UNIT, ip.write(c.a[0], cat_arr(v, arr(ds[0], lam(ks[0], deref_all(ip, e, st, pc)))), st, pc), pc
@model('std::vec::Vec::truncate')
def v_truncate(ip, c, st, pc):
    v = deref_all(ip, c.a[0], st, pc); n = alen(v); m = ite(lt(c.a[1], n), c.a[1], n); k = fresh()
    return UNIT, ip.write(c.a[0], arr(m, lam(k, sel(v, k))), st, pc), pc
@model('std::vec::Vec::resize')
def v_resize(ip, c, st, pc):
    v = deref_all(ip, c.a[0], st, pc); n = alen(v); k = fresh()
    return UNIT, ip.write(c.a[0], arr(c.a[1], lam(k, ite(lt(k, n), sel(v, k), c.a[2]))), st, pc), pc

# ------------------------------------------------------------------ iterators
def one(ip, s):
    ks, ds, e = open_seq(ip, s)
    return (ks[0], ds[0], e) if len(ks) == 1 else None
def flat(ip, s):
    """one-dimensional view of a product sequence"""
    ks, ds, e = open_seq(ip, s)
    if len(ks) == 1: return ks[0], ds[0], e
    n = ONE
    for d in ds: n = mul(n, d)
    k = fresh(); ip.ranges[k] = (ZERO, n)
    return k, n, subst(e, {v: dig(k, i, *ds) for i, v in enumerate(ks)})
@model('std::iter::Iterator::last')
@adapt
def it_last(ip, c, s, st, pc):
    if not s.a[2:]: return some(s.a[0])
    k, n, e = flat(ip, s)
    return ite(eq(n, ZERO), none(), some(subst(e, {k: sub(n, ONE)})))
@model('std::iter::Iterator::nth')
def it_nth(ip, c, st, pc):
    v = under(ip.read(c.a[0], st, pc), pc)
    if v.op == 'adt' and ip.prog.adts.get(v.a[0], {}).get('local'): return unk('nth of a library iterator'), ip.write(c.a[0], unk('iterator'), st, pc), pc
    s = to_seq(ip, v, st, pc)
    if s is None or len(s.a) != 3: return unk('nth'), ip.write(c.a[0], unk('iterator'), st, pc), pc
    l, pos, n = s.a; i = add(pos, c.a[1])
    return ite(lt(i, n), some(app(l, i)), none()), ip.write(c.a[0], mk('seq', l, ite(lt(i, n), add(i, ONE), n), n), st, pc), pc
@model('std::iter::Iterator::reduce')
@adapt
def it_reduce(ip, c, s, st, pc):
    k, n, e = flat(ip, s)
    if n.op == 'num':
        m = int(n.a[0])
        if m == 0: return none()
        if m <= 8:
            acc = subst(e, {k: ZERO})
            for i in range(1, m):
                acc, st2 = apply_closure(ip, c.a[1], [acc, subst(e, {k: num(i)})], st, pc)
                if acc is None: return unk('stateful reduce')
            return some(acc)
    acc = fresh(); j = fresh(); ip.ranges[j] = (ZERO, sub(n, ONE))
    body, st2 = apply_closure(ip, c.a[1], [acc, subst(e, {k: add(j, ONE)})], st, pc)
    if body is None: return unk('stateful reduce')
    return ite(eq(n, ZERO), none(), some(fold_of(sub(n, ONE), subst(e, {k: ZERO}), j, acc, body)))
@model('std::iter::Iterator::chain')
@adapt
def it_chain(ip, c, s, st, pc):
    o = to_seq(ip, c.a[1], st, pc)
    if o is None: return unk('chain with ' + c.a[1].op)
    a, b = one(ip, s), one(ip, o)
    if a is None or b is None: return unk('chain of products')
    (k, n, e), (k2, n2, e2) = a, b
    if n is ZERO: return o
    if n2 is ZERO: return s
    j = fresh()
    return mk('seq', lam(j, ite(lt(j, n), subst(e, {k: j}), subst(e2, {k2: sub(j, n)}))), ZERO, add(n, n2))
@model('std::iter::Iterator::eq')
def it_eq(ip, c, st, pc):
    a, b = to_seq(ip, c.a[0], st, pc), to_seq(ip, c.a[1], st, pc)
    if a is None or b is None: return unk('iterator equality')
    a, b = one(ip, a), one(ip, b)
    if a is None or b is None: return unk('iterator equality')
    (k, n, e), (k2, n2, e2) = a, b
    j = fresh()
    x = deref_all(ip, subst(e, {k: j}), st, pc); y = deref_all(ip, subst(e2, {k2: j}), st, pc)
    return band(eq(n, n2), bnot(any_(n, lam(j, bnot(eq(x, y))))))
def it_ne(ip, c, st, pc):
    r = it_eq(ip, c, st, pc)
    return bnot(r) if r.b else r
M['std::iter::Iterator::ne'] = it_ne
def minmax(is_max):
    @adapt
    def f(ip, c, s, st, pc):
        k, n, e = flat(ip, s)
        def step(x, y):
            a, b = deref_all(ip, x, st, pc), deref_all(ip, y, st, pc)
            return ite(lt(b, a), x, y) if is_max else ite(lt(b, a), y, x)
        if n.op == 'num' and n.a[0] <= 8:
            if n is ZERO: return none()
            acc = subst(e, {k: ZERO})
            for i in range(1, int(n.a[0])): acc = step(acc, subst(e, {k: num(i)}))
            return some(acc)
        acc = fresh(); j = fresh(); ip.ranges[j] = (ZERO, sub(n, ONE))
        return ite(eq(n, ZERO), none(), some(fold_of(sub(n, ONE), subst(e, {k: ZERO}), j, acc, step(acc, subst(e, {k: add(j, ONE)})))))
    return f
M['std::iter::Iterator::max'] = minmax(True); M['std::iter::Iterator::min'] = minmax(False)
@model('std::iter::Iterator::step_by')
@adapt
def it_step(ip, c, s, st, pc):
    o = one(ip, s)
    if o is None or c.a[1].op != 'num' or c.a[1] is ZERO: return unk('step_by')
    k, n, e = o; w = c.a[1]
    if w is ONE: return s
    if n.op != 'num': return unk('step_by')
    j = fresh()
    return mk('seq', lam(j, subst(e, {k: mul(j, w)})), ZERO, num(-(-int(n.a[0]) // int(w.a[0]))))
def fixed(ip, s):
    """elements of a sequence of small literal length"""
    ks, ds, e = open_seq(ip, s)
    if not all(d.op == 'num' and d.a[0] <= 8 for d in ds): return None
    import itertools
    return [subst(e, {k: num(i) for k, i in zip(ks, idx)}) for idx in itertools.product(*[range(int(d.a[0])) for d in ds])]
def seek(kind):
    def f(ip, c, st, pc):
        v = under(ip.read(c.a[0], st, pc), pc)
        s = to_seq(ip, v, st, pc)
        xs = fixed(ip, s) if s is not None else None
        if xs is None: return unk(kind), ip.write(c.a[0], unk('iterator'), st, pc), pc
        r = none()
        for i in range(len(xs) - 1, -1, -1):
            p, st2 = apply_closure(ip, c.a[1], [mk('refv', xs[i]) if kind == 'find' else xs[i]], st, pc)
            if p is None or (kind != 'find_map' and not p.b): return unk(kind), ip.write(c.a[0], unk('iterator'), st, pc), pc
            if kind == 'find_map': r = ite(variant_is(p, 1, 2), p, r)
            else: r = ite(p, some(xs[i] if kind == 'find' else num(i)), r)
        return r, ip.write(c.a[0], unk('iterator'), st, pc), pc
    return f
M['std::iter::Iterator::find'] = seek('find'); M['std::iter::Iterator::position'] = seek('position'); M['std::iter::Iterator::find_map'] = seek('find_map')
def try_fold(ip, c, st, pc, each):
    """folds of small literal length, case-split on every step's success"""
    v = under(ip.read(c.a[0], st, pc), pc)
    s = to_seq(ip, v, st, pc)
    xs = fixed(ip, s) if s is not None else None
    if xs is None:
        return unk('try_fold'), ip.write(c.a[0], unk('iterator'), st, pc), pc
    f = c.a[1] if each else c.a[2]
    st = ip.write(c.a[0], unk('iterator'), st, pc)
    def go(i, acc, st, pc):
        if i == len(xs): return ok(acc) if not opt else some(acc), st, pc
        r, st, cc = callv(ip, f, [xs[i]] if each else [acc, xs[i]], st, pc, c)
        if cc is FALSE: return BOT, st, FALSE
        good = lambda g, st, pc: go(i + 1, g(), st, pc)
        if opt: return cases(ip, r, st, cc, 2, [const_ret(none()), good])
        return cases(ip, r, st, cc, 2, [good, lambda g, st, pc: (err(g()), st, pc)])
    opt = any(t[0] == 'adt' and t[1] == OPT for t in c.targs) and not any(t[0] == 'adt' and t[1] == RES for t in c.targs)
    return go(0, UNIT if each else c.a[1], st, pc)
M['std::iter::Iterator::try_fold'] = lambda ip, c, st, pc: try_fold(ip, c, st, pc, False)
M['std::iter::Iterator::try_for_each'] = lambda ip, c, st, pc: try_fold(ip, c, st, pc, True)

def v_capacity(ip, c, st, pc):
    x = deref_all(ip, c.a[0], st, pc)
    return add(alen(x), mk('alen', mk('call', mk('sym', 'spare capacity'), x)))      # at least the length
M['std::vec::Vec::capacity'] = v_capacity

# ------------------------------------------------------------------ more sequences
OMEGA = mk('omega')     # the length of an endless iterator
@model('std::iter::repeat')
def it_repeat(ip, c, st, pc): return mk('seq', mk('lam', c.a[0].h + 1, c.a[0]), ZERO, OMEGA)
M['std::iter::repeat_with'] = lambda ip, c, st, pc: (lambda k: (lambda r: unk('stateful repeat_with') if r[0] is None else mk('seq', lam(k, r[0]), ZERO, OMEGA))(apply_closure(ip, c.a[0], [], st, pc)))(fresh())
def chunks(exact):
    def f(ip, c, st, pc):
        r = sm.strip_box(ip, c.a[0], st, pc); n = alen(deref_all(ip, r, st, pc)); w = c.a[1]
        g = bnot(eq(w, ZERO)); ip.obligation('bounds', c.fr, c.span, pc, g, (n, w))
        if band(pc, g) is FALSE: return BOT, st, FALSE
        k = fresh(); a = mul(w, k); b = add(a, w)
        if exact: return mk('seq', lam(k, mk('rsub', r, a, b)), ZERO, idiv(n, w))
        return mk('seq', lam(k, mk('rsub', r, a, ite(lt(n, b), n, b))), ZERO, idiv(add(n, sub(w, ONE)), w))
    return f
idiv = tm.BUILD['idiv']
M['std::slice::chunks'] = M['std::slice::chunks_mut'] = chunks(False)
M['std::slice::chunks_exact'] = M['std::slice::chunks_exact_mut'] = chunks(True)
@model('std::iter::Iterator::rfold', 'std::iter::DoubleEndedIterator::rfold')
@adapt
def it_rfold(ip, c, s, st, pc):
    o = one(ip, s)
    if o is None: return unk('rfold of products')
    k, n, e = o; j = fresh()
    return sm.fold_seq(ip, mk('seq', lam(j, subst(e, {k: sub(sub(n, ONE), j)})), ZERO, n), c.a[1], lambda acc, x, st, pc: apply_closure(ip, c.a[2], [acc, x], st, pc), st, pc)
