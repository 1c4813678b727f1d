"""Assume-guarantee transfer functions for calls on rigid (generic) receivers: operands of a node,
buffers and shapes of an unknown family, contexts and identifiers.  Each operand is assumed to
satisfy the property being decided for the enclosing node (structural induction over the graph)."""
from terms import *
import terms as tm
import stdmodels as sm
from stdmodels import ok, err, some, none, UNIT, deref_all, cases, callv

SPEC = 'aegir::buffers::spec::Spec'
INC = 'aegir::buffers::shapes::IncompatibleShapes'
S0 = mk('adt', 'aegir::buffers::shapes::compiled::S0', 0)
S0T = ('adt', 'aegir::buffers::shapes::compiled::S0', ())
RAW, FULL, DIAG = 0, 1, 2

class Cfg:
    """per-run configuration: the structured form of each operand and the scalar abstraction"""
    def __init__(self, forms=None, scalar=False, spec_ctr=False):
        self.forms = forms or {}; self.scalar = scalar; self.order = []
    def form(self, child):
        return self.forms.get(child, RAW)

def isscalar(ip, t):
    if ip.cfg_r.scalar: return True
    t = ip.env.norm(t)
    if t[0] == 'prim': return True
    if t[0] == 'ref': return isscalar(ip, t[1])
    return ip.env.is_scalar(t)

def is_num(b): return b.op in ('num', 'bsum', 'bfold', 'add', 'mul', 'div', 'neg', 'pow', 'sum', 'bel') or b.op in sm_math
sm_math = {'exp', 'ln', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'abs', 'signum', 'gamma', 'digamma', 'loggamma',
           'erf', 'erfc', 'asinh', 'acosh', 'atanh', 'log2', 'log10'}

# ------------------------------------------------------------------ buffers
def leafmap(b, f):
    """apply f to the non-gate leaves of b"""
    if b.op == 'ite': return ite(b.a[0], leafmap(b.a[1], f), leafmap(b.a[2], f))
    if b.op in ('bot', 'unk'): return b
    return f(b)

def elem(ip, b, ix):
    def f(x):
        if x.op == 'buf': return app(x.a[1], ix)
        if x.op == 'snum': return x.a[0]
        if ip.cfg_r.scalar: return x
        if is_num(x): return x
        if x.op == 'sval' or ix is IX0: return x
        return mk('bel', x, ix)
    return leafmap(b, f)

def shape_of(ip, b):
    def f(x):
        if x.op == 'buf': return x.a[0]
        if ip.cfg_r.scalar: return S0
        if is_num(x) or x.op in ('sval', 'snum'): return S0
        if x.op == 'ctr': return mk('ctrshape', x.a[0], shape_of(ip, x.a[1]), shape_of(ip, x.a[2]))
        return mk('bshape', x)
    return leafmap(b, f)

def inside(s, v, e):
    """e at an index v of shape s, which that shape contains"""
    a = mk('batom', 'scontains', s, v)
    return subst(e, {a: TRUE}) if has(e, a) else e

def mkbuf(ip, shape, f):
    if ip.cfg_r.scalar or shape is S0: return f(IX0)
    v = fresh()
    return mk('buf', shape, lam(v, inside(shape, v, f(v))))
IX0 = mk('arrlit')

def isdiag(ip, ix):
    if ip.cfg_r.scalar or ix is IX0: return TRUE
    return mk('batom', 'isdiag', ix)

def norm_shape(ip, s):
    if ip.cfg_r.scalar: return S0
    return s

def order2(a, b):
    return (a, b) if a.id <= b.id else (b, a)
def compat(ip, a, b):
    if ip.cfg_r.scalar or a is b or a is S0 or b is S0: return TRUE
    a, b = order2(a, b)
    return mk('batom', 'compat', a, b)
def bshape2(ip, a, b):
    if ip.cfg_r.scalar: return S0
    if a is b or b is S0: return a
    if a is S0: return b
    a, b = order2(a, b)
    return mk('bshape2', a, b)
def bix(ip, s, out, ix):
    """index into an operand of shape s that feeds index ix of a result of shape out"""
    if ip.cfg_r.scalar or s is out: return ix
    if s is S0: return IX0
    return mk('bix', s, out, ix)

def inc(l, r): return mk('adt', INC, 0, l, r)

def dense(ip, s):
    """the buffer a Spec value stands for"""
    def f(x):
        if x.op == 'adt' and x.a[0] == SPEC:
            if x.a[1] == RAW: return x.a[2]
            if x.a[1] == FULL: return mkbuf(ip, norm_shape(ip, x.a[2]), lambda ix: x.a[3])
            return mkbuf(ip, norm_shape(ip, x.a[2]), lambda ix: ite(isdiag(ip, ix), x.a[3], ZERO))
        if x.op == 'ctrspec': return mk('ctr', x.a[0], dense(ip, x.a[1]), dense(ip, x.a[2]))
        return mk('dense', x)
    return leafmap(s, f)

def spec_shape(ip, s):
    def f(x):
        if x.op == 'adt' and x.a[0] == SPEC:
            return shape_of(ip, x.a[2]) if x.a[1] == RAW else norm_shape(ip, x.a[2])
        return shape_of(ip, dense(ip, x))
    return leafmap(s, f)

# ------------------------------------------------------------------ model registry
R = {}
def rigid(*names):
    def d(f):
        for n in names: R[n] = f
        return f
    return d

def default_model(ip, c, st, pc):
    f = R.get(c.fid)
    if f is None:
        # provided builder methods (Node, Identifier) of a rigid receiver: the provided body
        tf = ip.prog.fns.get(c.fid)
        d = ip.prog.defs.get(c.fid, {})
        if tf is not None and d.get('trait') in ('aegir::Node', 'aegir::Identifier'):
            return ip.invoke(tf, ip.fn_sub(tf, c.targs), c.a, st, pc, c.span)
        return NotImplemented
    return f(ip, c, st, pc)

def val_of(ip, v, st, pc): return ip.deep(deref_all(ip, v, st, pc), st)

def strip_ctx(x):
    while x.op == 'ctxw': x = x.a[0]
    return x
def ctxval(ip, v, st, pc):
    return deref_all(ip, v, st, pc)

def event(st, e):
    st = dict(st)
    st['#ev'] = mk('evs', st.get('#ev', mk('ev0')), e)
    return st

# ---- nodes
def node_type_scalar(ip, c):
    """is the value type of the operand a scalar?"""
    n = c.targs[0]
    return isscalar(ip, ('proj', 'aegir::Function::Value', tuple(c.targs[:2])))

def ckey(ctx):
    return ctx if ctx.op != 'sym' or ctx.a[0] != 'ctx' else None
def child_val(ip, c, child, ctx):
    k = [child] + ([ctx] if ckey(ctx) is not None else [])
    sc = node_type_scalar(ip, c)
    base = mk('sval' if sc else 'val', *k)
    fm = ip.cfg_r.form(child)
    if fm == RAW: return base, mk('adt', SPEC, RAW, base)
    sh = S0 if sc else mk('bshape', base)
    v = mk('sval', mk('specv', *k))
    S = mk('adt', SPEC, fm, sh, v)
    return dense(ip, S), S

def iserr(child, ctx): return mk('batom', 'iserr', *([child] + ([ctx] if ckey(ctx) is not None else [])))
def errof(child, ctx): return mk('errof', *([child] + ([ctx] if ckey(ctx) is not None else [])))
def sherr(child, ctx): return mk('batom', 'sherr', *([child] + ([ctx] if ckey(ctx) is not None else [])))
def sherrof(child, ctx): return mk('sherrof', *([child] + ([ctx] if ckey(ctx) is not None else [])))

def node_ctx(ip, c, st, pc):
    child = val_of(ip, c.a[0], st, pc)
    ctx = strip_ctx(ctxval(ip, c.a[1], st, pc))
    return child, ctx

@rigid('aegir::Function::evaluate')
def f_eval(ip, c, st, pc):
    child, ctx = node_ctx(ip, c, st, pc)
    D, S = child_val(ip, c, child, ctx)
    return ite(iserr(child, ctx), err(errof(child, ctx)), ok(D)), event(st, mk('ev', 'evaluate', child))
@rigid('aegir::Function::evaluate_spec')
def f_spec(ip, c, st, pc):
    child, ctx = node_ctx(ip, c, st, pc)
    D, S = child_val(ip, c, child, ctx)
    return ite(iserr(child, ctx), err(errof(child, ctx)), ok(S)), event(st, mk('ev', 'evaluate_spec', child))
@rigid('aegir::Function::evaluate_shape')
def f_shape(ip, c, st, pc):
    child, ctx = node_ctx(ip, c, st, pc)
    D, S = child_val(ip, c, child, ctx)
    return ite(sherr(child, ctx), err(sherrof(child, ctx)), ok(shape_of(ip, D))), event(st, mk('ev', 'evaluate_shape', child))
@rigid('aegir::Differentiable::adjoint')
def f_adj(ip, c, st, pc):
    child = val_of(ip, c.a[0], st, pc); t = val_of(ip, c.a[1], st, pc)
    return mk('adj', child, t), event(st, mk('ev', 'adjoint', child))
@rigid('aegir::Differentiable::evaluate_adjoint')
def f_evadj(ip, c, st, pc):
    child = mk('adj', val_of(ip, c.a[0], st, pc), val_of(ip, c.a[1], st, pc))
    ctx = strip_ctx(ctxval(ip, c.a[2], st, pc))
    return ite(iserr(child, ctx), err(errof(child, ctx)), ok(mk('val', child))), event(event(st, mk('ev', 'adjoint', child.a[0])), mk('ev', 'evaluate', child))
@rigid('aegir::Contains::contains')
def f_contains(ip, c, st, pc):
    child = val_of(ip, c.a[0], st, pc); t = val_of(ip, c.a[1], st, pc)
    return mk('batom', 'contains', child, t), event(st, mk('ev', 'contains', child))
@rigid('aegir::fmt::ToExpr::to_expr')
def f_toexpr(ip, c, st, pc):
    child = val_of(ip, c.a[0], st, pc)
    return ip.cfg_r.forms.get(('expr', child)) or mk('toexpr', child)

# ---- contexts
@rigid('aegir::Read::read')
def ctx_read(ip, c, st, pc):
    ctx = ctxval(ip, c.a[0], st, pc); i = val_of(ip, c.a[1], st, pc)
    return read_val(ip, c, ctx, i), event(st, mk('ev', 'read', i))
def idkey(i): return i
def read_val(ip, c, ctx, i):
    def go(x):
        if x.op == 'ite': return ite(x.a[0], go(x.a[1]), go(x.a[2]))
        if x.op == 'ctxw':
            e = eq(x.a[1], i)
            return ite(e, some(x.a[2]), go(x.a[0]))
        sc = isscalar(ip, ('proj', 'aegir::Read::Buffer', tuple(c.targs[:2])))
        return ite(mk('batom', 'held', i), some(mk('sval' if sc else 'val', mk('slot', i))), none())
    return go(ctx)
def read_spec_val(ip, c, ctx, i):
    def go(x):
        if x.op == 'ite': return ite(x.a[0], go(x.a[1]), go(x.a[2]))
        if x.op == 'ctxw':
            e = eq(x.a[1], i)
            s = x.a[3] if len(x.a) > 3 else mk('adt', SPEC, RAW, x.a[2])
            return ite(e, some(s), go(x.a[0]))
        D, S = slot_val(ip, c, i)
        return ite(mk('batom', 'held', i), some(S), none())
    return go(ctx)
def slot_val(ip, c, i):
    sc = isscalar(ip, ('proj', 'aegir::Read::Buffer', tuple(c.targs[:2])))
    base = mk('sval' if sc else 'val', mk('slot', i))
    fm = ip.cfg_r.form(mk('slot', i))
    if fm == RAW: return base, mk('adt', SPEC, RAW, base)
    S = mk('adt', SPEC, fm, S0 if sc else mk('bshape', base), mk('sval', mk('specv', mk('slot', i))))
    return dense(ip, S), S
@rigid('aegir::Read::read')
def ctx_read2(ip, c, st, pc):
    ctx = ctxval(ip, c.a[0], st, pc); i = val_of(ip, c.a[1], st, pc)
    s = read_spec_val(ip, c, ctx, i)
    r = leafmap(s, lambda o: some(dense(ip, o.a[2])) if o.a[1] == 1 else o)
    return r, event(st, mk('ev', 'read', i))
@rigid('aegir::Read::read_spec')
def ctx_read_spec(ip, c, st, pc):
    ctx = ctxval(ip, c.a[0], st, pc); i = val_of(ip, c.a[1], st, pc)
    return read_spec_val(ip, c, ctx, i), event(st, mk('ev', 'read_spec', i))
@rigid('aegir::Read::read_shape')
def ctx_read_shape(ip, c, st, pc):
    ctx = ctxval(ip, c.a[0], st, pc); i = val_of(ip, c.a[1], st, pc)
    s = read_spec_val(ip, c, ctx, i)
    r = leafmap(s, lambda o: some(spec_shape(ip, o.a[2])) if o.a[1] == 1 else o)
    return r, event(st, mk('ev', 'read_shape', i))
def ctx_write_(ip, c, st, pc, spec):
    r = c.a[0]
    while True:
        v = under(ip.read(r, st, pc), pc)
        if v.op in ('ref', 'rfld', 'rsel'): r = v
        else: break
    i = val_of(ip, c.a[1], st, pc); b = val_of(ip, c.a[2], st, pc)
    S = b if spec else mk('adt', SPEC, RAW, b)
    w = mk('ctxw', v, i, dense(ip, S), S)
    st = ip.write(r, w, dict(st), pc)
    return UNIT, event(st, mk('ev', 'write', i))
@rigid('aegir::Write::write')
def ctx_write(ip, c, st, pc): return ctx_write_(ip, c, st, pc, False)
@rigid('aegir::Write::write_spec')
def ctx_write_spec(ip, c, st, pc): return ctx_write_(ip, c, st, pc, True)

# ---- buffers
def B(ip, v, st, pc): return ip.deep(deref_all(ip, v, st, pc), st)

def apply_fn(ip, f, args, st, pc, c):
    """apply an (assumed pure) closure; the caller checks that the store is unchanged"""
    r, st2, cc = callv(ip, f, args, st, pc, c)
    for k, x in st.items():
        if st2.get(k) is not x and k != '#ev': return unk('closure with side effects')
    return ip.freeze_temps(r, st2, st)

@rigid('aegir::buffers::shapes::Shaped::shape')
def b_shape(ip, c, st, pc):
    if isscalar(ip, c.targs[0]): return S0
    b = B(ip, c.a[0], st, pc)
    return shape_of(ip, b)

def map_(ip, c, b, f, st, pc, byref=False):
    sh = shape_of(ip, b)
    if isscalar(ip, c.targs[0]): return apply_fn(ip, f, [b], st, pc, c)
    v = fresh()
    x = elem(ip, b, v)
    r = apply_fn(ip, f, [mk('refv', x) if byref == 'ref' else x], st, pc, c)
    if isscalar(ip, c.targs[0]) or sh is S0: return subst(r, {v: IX0}) if v.a[0] in r.fv else r
    return leaf_shape(ip, sh, lambda s: mk('buf', s, lam(v, inside(s, v, r))))
def leaf_shape(ip, s, f):
    return f(s)

@rigid('aegir::buffers::Buffer::map')
def b_map(ip, c, st, pc): return map_(ip, c, B(ip, c.a[0], st, pc), c.a[1], st, pc)
@rigid('aegir::buffers::Buffer::map_ref')
def b_map_ref(ip, c, st, pc): return map_(ip, c, B(ip, c.a[0], st, pc), c.a[1], st, pc)
@rigid('aegir::buffers::Buffer::mutate')
def b_mutate(ip, c, st, pc):
    b = B(ip, c.a[0], st, pc)
    r = map_(ip, c, b, c.a[1], st, pc)
    return UNIT, ip.write(c.a[0], r, dict(st), pc)
@rigid('aegir::buffers::Buffer::sum')
def b_sum(ip, c, st, pc):
    b = B(ip, c.a[0], st, pc)
    if isscalar(ip, c.targs[0]): return b
    v = fresh()
    return mk('bsum', shape_of(ip, b), lam(v, elem(ip, b, v)))
@rigid('aegir::buffers::Buffer::fold')
def b_fold(ip, c, st, pc):
    b = B(ip, c.a[0], st, pc); init = c.a[1]; f = c.a[2]
    if isscalar(ip, c.targs[0]):
        return callv(ip, f, [init, elem(ip, b, IX0)], st, pc, c)
    v = fresh(); acc = fresh()
    r = apply_fn(ip, f, [acc, elem(ip, b, v)], st, pc, c)
    import algebra
    z = algebra.canon(sub(r, acc))
    if not has(z, acc) and is_num(init): return add(init, mk('bsum', shape_of(ip, b), lam(v, inside(shape_of(ip, b), v, z))))
    return mk('bfold', shape_of(ip, b), init, lam(acc, lam(v, r)))
@rigid('aegir::buffers::Buffer::get')
def b_get(ip, c, st, pc):
    b = B(ip, c.a[0], st, pc); ix = B(ip, c.a[1], st, pc)
    if isscalar(ip, c.targs[0]): return some(b)
    return ite(mk('batom', 'scontains', shape_of(ip, b), ix), some(elem(ip, b, ix)), none())
@rigid('aegir::buffers::Buffer::get_unchecked')
def b_getu(ip, c, st, pc):
    b = B(ip, c.a[0], st, pc); ix = B(ip, c.a[1], st, pc)
    return elem(ip, b, ix)
@rigid('aegir::buffers::Buffer::class')
def b_class(ip, c, st, pc): return mk('class')
@rigid('aegir::buffers::Buffer::into_constant')
def b_into_const(ip, c, st, pc): return mk('adt', 'aegir::meta::constant::Constant', 0, c.a[0])

def cls_shape(ip, c, s):
    if isscalar(ip, ('proj', 'aegir::buffers::Class::Buffer', (c.targs[0], c.targs[1], c.targs[2] if len(c.targs) > 2 else ('prim', 'f64')))): return S0
    t = ip.env.norm(c.targs[1])
    if t == S0T: return S0
    return norm_shape(ip, s)
@rigid('aegir::buffers::Class::build')
def cl_build(ip, c, st, pc):
    s = cls_shape(ip, c, B(ip, c.a[0], st, pc))
    v = fresh() if not (ip.cfg_r.scalar or s is S0) else IX0
    r = apply_fn(ip, c.a[1], [v], st, pc, c)
    if v is IX0: return r
    return mk('buf', s, lam(v, inside(s, v, r)))
@rigid('aegir::buffers::Class::full')
def cl_full(ip, c, st, pc): return mkbuf(ip, cls_shape(ip, c, B(ip, c.a[0], st, pc)), lambda ix: c.a[1])
@rigid('aegir::buffers::Class::zeroes')
def cl_zero(ip, c, st, pc): return mkbuf(ip, cls_shape(ip, c, B(ip, c.a[0], st, pc)), lambda ix: ZERO)
@rigid('aegir::buffers::Class::ones')
def cl_one(ip, c, st, pc): return mkbuf(ip, cls_shape(ip, c, B(ip, c.a[0], st, pc)), lambda ix: ONE)
@rigid('aegir::buffers::Class::diagonal')
def cl_diag(ip, c, st, pc): return mkbuf(ip, cls_shape(ip, c, B(ip, c.a[0], st, pc)), lambda ix: ite(isdiag(ip, ix), c.a[1], ZERO))
@rigid('aegir::buffers::Class::identity')
def cl_id(ip, c, st, pc): return mkbuf(ip, cls_shape(ip, c, B(ip, c.a[0], st, pc)), lambda ix: ite(isdiag(ip, ix), ONE, ZERO))
def splix(ix, j):
    if ix.op == 'cix': return ix.a[j]
    return mk('splix', ix, j)
def listed(ip, seq, ix):
    """is ix among the indices enumerated by seq"""
    if seq.op == 'seq' and len(seq.a) == 3:
        k = fresh()
        e = app(seq.a[0], k)
        if e.op == 'cix' and e.a[0].op == 'ixof' and e.a[1].op == 'ixof' and e.a[0].a[1] is k and e.a[1].a[1] is k:
            return mk('batom', 'zipdiag', e.a[0].a[0], e.a[1].a[0], splix(ix, 0), splix(ix, 1))
        return mk('batom', 'listed', lam(k, e), seq.a[1], seq.a[2], ix)
    return mk('batom', 'listed', seq, ix)
@rigid('aegir::buffers::Class::build_subset')
def cl_subset(ip, c, st, pc):
    s = cls_shape(ip, c, B(ip, c.a[0], st, pc))
    q = under(c.a[2], pc)
    sq = sm.to_seq(ip, q, st, pc) or ip.deep(deref_all(ip, q, st, pc), st)
    v = fresh() if not (ip.cfg_r.scalar or s is S0) else IX0
    act = apply_fn(ip, c.a[3], [v], st, pc, c)
    r = ite(listed(ip, sq, v), act, c.a[1])
    return r if v is IX0 else mk('buf', s, lam(v, inside(s, v, r)))

def zip_res(ip, c, sa, sb, mkres):
    k = compat(ip, sa, sb)
    return ite(k, ok(mkres()), err(inc(sa, sb)))
def scal(ip, t, b):
    """mark a scalar-typed operand"""
    return S0 if isscalar(ip, t) else None
def bshape_t(ip, t, b): return S0 if isscalar(ip, t) else shape_of(ip, b)
def belem_t(ip, t, b, s, out, ix):
    if isscalar(ip, t): return b
    return elem(ip, b, bix(ip, s, out, ix))

@rigid('aegir::buffers::ZipMap::zip_map', 'aegir::buffers::ZipMap::zip_map_id')
def z_map(ip, c, st, pc):
    a = B(ip, c.a[0], st, pc); b = B(ip, c.a[1], st, pc)
    ta, tb = c.targs[0], c.targs[1]
    sa, sb = bshape_t(ip, ta, a), bshape_t(ip, tb, b)
    out = bshape2(ip, sa, sb)
    v = IX0 if (ip.cfg_r.scalar or out is S0) else fresh()
    r = apply_fn(ip, c.a[2], [belem_t(ip, ta, a, sa, out, v), belem_t(ip, tb, b, sb, out, v)], st, pc, c)
    return zip_res(ip, c, sa, sb, lambda: r if v is IX0 else mk('buf', out, lam(v, r)))
@rigid('aegir::buffers::ZipMap::zip_shape')
def z_shape(ip, c, st, pc):
    a = B(ip, c.a[0], st, pc); sb = norm_shape(ip, B(ip, c.a[1], st, pc))
    if ip.env.norm(('proj', 'aegir::buffers::shapes::Shaped::Shape', (c.targs[1],))) == S0T: sb = S0
    sa = bshape_t(ip, c.targs[0], a)
    out = bshape2(ip, sa, sb)
    return zip_res(ip, c, sa, sb, lambda: mkbuf(ip, out, lambda ix: belem_t(ip, c.targs[0], a, sa, out, ix)) if not (out is sa and a.op == 'buf') else a)
@rigid('aegir::buffers::ZipFold::zip_fold')
def z_fold(ip, c, st, pc):
    a = B(ip, c.a[0], st, pc); b = B(ip, c.a[1], st, pc)
    ta, tb = c.targs[0], c.targs[1]
    sa, sb = bshape_t(ip, ta, a), bshape_t(ip, tb, b)
    out = bshape2(ip, sa, sb)
    if ip.cfg_r.scalar or out is S0:
        r, st, cc = callv(ip, c.a[3], [c.a[2], mk('tup', a, b)], st, pc, c)
        return ok(r), st, cc
    v = fresh(); acc = fresh()
    r = apply_fn(ip, c.a[3], [acc, mk('tup', belem_t(ip, ta, a, sa, out, v), belem_t(ip, tb, b, sb, out, v))], st, pc, c)
    return zip_res(ip, c, sa, sb, lambda: mk('bfold', out, c.a[2], lam(acc, lam(v, r))))
@rigid('aegir::buffers::ZipMut::zip_mut')
def z_mut(ip, c, st, pc):
    a = B(ip, c.a[0], st, pc); b = B(ip, c.a[1], st, pc)
    ta, tb = c.targs[0], c.targs[1]
    sa, sb = bshape_t(ip, ta, a), bshape_t(ip, tb, b)
    out = bshape2(ip, sa, sb)
    k = compat(ip, sa, sb)
    v = IX0 if (ip.cfg_r.scalar or out is S0) else fresh()
    r = apply_fn(ip, c.a[2], [belem_t(ip, ta, a, sa, out, v), belem_t(ip, tb, b, sb, out, v)], st, pc, c)
    nb = r if v is IX0 else mk('buf', out, lam(v, r))
    st = ip.write(c.a[0], ite(k, nb, a), dict(st), pc)
    return ite(k, ok(UNIT), err(inc(sa, sb))), st
@rigid('aegir::buffers::shapes::Broadcast::broadcast')
def sh_bcast(ip, c, st, pc):
    a = B(ip, c.a[0], st, pc); b = B(ip, c.a[1], st, pc)
    if ip.env.norm(c.targs[0]) == S0T: a = S0
    if ip.env.norm(c.targs[1]) == S0T: b = S0
    a, b = norm_shape(ip, a), norm_shape(ip, b)
    return ite(compat(ip, a, b), ok(bshape2(ip, a, b)), err(inc(a, b)))

# ---- shapes and indices
@rigid('aegir::buffers::shapes::Ix::is_diagonal')
def ix_diag(ip, c, st, pc): return isdiag(ip, B(ip, c.a[0], st, pc))
@rigid('aegir::buffers::shapes::Shape::contains')
def s_contains(ip, c, st, pc):
    return mk('batom', 'scontains', B(ip, c.a[0], st, pc), B(ip, c.a[1], st, pc))
@rigid('aegir::buffers::shapes::Shape::cardinality')
def s_card(ip, c, st, pc): return mk('card', B(ip, c.a[0], st, pc))
@rigid('aegir::buffers::shapes::Shape::indices')
def s_indices(ip, c, st, pc):
    s = B(ip, c.a[0], st, pc); k = fresh()
    return mk('seq', lam(k, mk('ixof', s, k)), ZERO, mk('card', s))
@rigid('aegir::buffers::shapes::Concat::concat')
def s_concat(ip, c, st, pc): return norm_shape(ip, mk('concat', B(ip, c.a[0], st, pc), B(ip, c.a[1], st, pc)))
@rigid('aegir::buffers::shapes::Concat::concat_indices')
def s_concat_ix(ip, c, st, pc): return mk('cix', B(ip, c.a[0], st, pc), B(ip, c.a[1], st, pc))
@rigid('aegir::buffers::shapes::Split::split')
def s_split(ip, c, st, pc):
    s = B(ip, c.a[0], st, pc)
    return mk('tup', mk('spl', s, 0), mk('spl', s, 1))
@rigid('aegir::buffers::shapes::Split::split_index')
def s_split_ix(ip, c, st, pc):
    s = B(ip, c.a[0], st, pc)
    if s.op == 'cix': return mk('tup', s.a[0], s.a[1])
    return mk('tup', mk('splix', s, 0), mk('splix', s, 1))

# ---- contraction
def axes(ip, c):
    n = c.targs[2] if len(c.targs) > 2 else ('cval', '1')
    try: return ip.ty_const(n)
    except Exception: return sym('const', 'AXES')
def ctr_shape(ip, ax, sa, sb): return mk('ctrshape', ax, sa, sb) if not ip.cfg_r.scalar else S0
def ctr_ok(ip, ax, sa, sb): return mk('batom', 'ctrok', ax, sa, sb) if not ip.cfg_r.scalar else TRUE
@rigid('aegir::buffers::Contract::contract')
def ct(ip, c, st, pc):
    a, b = B(ip, c.a[0], st, pc), B(ip, c.a[1], st, pc); ax = axes(ip, c)
    sa, sb = shape_of(ip, a), shape_of(ip, b)
    return ite(ctr_ok(ip, ax, sa, sb), ok(mk('ctr', ax, a, b)), err(inc(sa, sb)))
@rigid('aegir::buffers::Contract::contract_spec')
def cts(ip, c, st, pc):
    a, b = B(ip, c.a[0], st, pc), B(ip, c.a[1], st, pc); ax = axes(ip, c)
    sa, sb = spec_shape(ip, a), spec_shape(ip, b)
    return ite(ctr_ok(ip, ax, sa, sb), ok(mk('adt', SPEC, RAW, mk('ctr', ax, dense(ip, a), dense(ip, b)))), err(inc(sa, sb)))
@rigid('aegir::buffers::Contract::contract_shape')
def ctsh(ip, c, st, pc):
    a, b = B(ip, c.a[0], st, pc), B(ip, c.a[1], st, pc); ax = axes(ip, c)
    return ite(ctr_ok(ip, ax, a, b), ok(ctr_shape(ip, ax, a, b)), err(inc(a, b)))

# ---- dual / precedence helpers are executed from source; scalars use the std models
EXTRA = {'#default': default_model}

@rigid('aegir::buffers::spec::IntoSpec::into_spec')
def into_spec(ip, c, st, pc):
    b = B(ip, c.a[0], st, pc)
    fm = ip.cfg_r.form(b)
    if fm == RAW: return mk('adt', SPEC, RAW, b)
    return mk('adt', SPEC, fm, shape_of(ip, b), mk('sval', mk('specv', b)))
