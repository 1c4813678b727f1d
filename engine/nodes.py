"""Checks over the operator nodes (impls of Function, Differentiable, Contains, ToExpr ...)."""
import itertools
from terms import *
import terms as tm
from mir import *
from ana import Ana, mkval
import rigid, algebra, stdmodels as sm
from rigid import RAW, FULL, DIAG, SPEC
from algebra import equal, decide

FN = 'aegir::Function'; DF = 'aegir::Differentiable'
RES = sm.RES
BIN = 'aegir::errors::BinaryError'
FORMS = {RAW: 'raw', FULL: 'full', DIAG: 'diagonal'}

class Node:
    """an implementor of Function: its operands (fields implementing Function) and identifiers"""
    def __init__(self, A, im):
        self.A = A; self.im = im; self.t = im.targs[0]
        self.name = self.t[1].rsplit('::', 1)[1] if self.t[0] == 'adt' else ty_show(self.t)
        self.kids = []; self.fields = []
        a = A.P.adts.get(self.t[1]) if self.t[0] == 'adt' else None
        fnparams = {p[2][0] for p in im.preds if p[0] == 'trait' and p[1] == FN}
        if a:
            for i, f in enumerate(a['variants'][0][1]):
                ft = ty_subst(tup(f[1]) if len(f) > 1 else None, {g[2]: x for g, x in zip(gen_of(a), self.t[2])}) if len(f) > 1 else None
                s = sym('self.%s' % f[0])
                self.fields.append((f[0], ft, s))
                if ft in fnparams: self.kids.append(s)
        self.where = im.id
def gen_of(a): return [tuple(g) for g in a.get('generics', [])]

def function_nodes(A):
    return [Node(A, im) for im in A.P.by_trait.get(FN, ())]

def method(A, im, name, trait=FN):
    return im.fns.get(name)

def run_method(A, node, name, forms=None, scalar=False, trait=FN):
    """analyse method `name` of node (falling back to the provided method of the trait, with Self bound to the node)"""
    f = node.im.fns.get(name)
    if f: return A.run(f, ['self', 'ctx'], forms=forms, scalar=scalar)
    return run_provided(A, node, trait, name, forms, scalar)

def run_provided(A, node, trait, name, forms=None, scalar=False):
    d = trait + '::' + name
    fn = A.P.fns.get(d)
    tr = A.P.traits[trait]
    sub = {g[2]: x for g, x in zip(tr['generics'], node.im.targs)}
    # the remaining generics of the method keep their own parameters
    return A.run(d, ['self', 'ctx'], forms=forms, scalar=scalar, sub=sub, preds=tuple(node.im.preds) + tuple(p for p in fn.preds))

# ------------------------------------------------------------------ helpers
def assume(t, facts):
    for a, v in facts:
        t = subst(t, {a: TRUE if v else FALSE})
    return t
def leaves_of(t):
    if t.op == 'ite': return leaves_of(t.a[1]) + leaves_of(t.a[2])
    return [t]
def is_ok(t): return t.op == 'adt' and t.a[0] == RES and t.a[1] == 0
def is_err(t): return t.op == 'adt' and t.a[0] == RES and t.a[1] == 1
def map_ok(t, f):
    return rigid.leafmap(t, lambda x: sm.ok(rigid.leafmap(x.a[2], f)) if is_ok(x) else x)
def map_err(t, f):
    return rigid.leafmap(t, lambda x: sm.err(f(x.a[2])) if is_err(x) else x)
E_ANY = mk('err*')

def kid_err(k): return mk('batom', 'iserr', k)
def kid_sherr(k): return mk('batom', 'sherr', k)
def compat_atoms(t):
    return {x for x in subterms(t) if x.op == 'batom' and x.a[0] in ('compat', 'ctrok')}

def kid_type(node, k):
    return next(ft for _, ft, s in node.fields if s is k)
def kid_scalar(r, node, k):
    return rigid.isscalar(r.ip, ('proj', FN + '::Value', (kid_type(node, k), node.im.targs[1])))
def kid_value(r, node, k):
    """(dense value, spec) assumed for operand k in the configuration of run r"""
    sc = kid_scalar(r, node, k)
    base = mk('sval' if sc else 'val', k)
    fm = r.ip.cfg_r.form(k)
    if fm == RAW: return base, mk('adt', SPEC, RAW, base)
    S = mk('adt', SPEC, fm, rigid.S0 if sc else mk('bshape', base), mk('sval', mk('specv', k)))
    return rigid.dense(r.ip, S), S

def combos(node, tier='quick'):
    ks = list(node.kids)
    if node.name in ('Variable', 'Cached'): ks = ks
    for c in itertools.product((RAW, FULL, DIAG), repeat=len(ks)):
        yield dict(zip(ks, c))
def combo_name(c): return '/'.join(FORMS[v] for v in c.values()) or '-'

# ------------------------------------------------------------------ C02
def m(op): return lambda x: mk(op, x)
half = num(Fraction(1, 2)) if False else None
UNARY = {
    'AddOne': lambda x: add(x, ONE), 'OneSub': lambda x: sub(ONE, x), 'SubOne': lambda x: sub(x, ONE),
    'Square': lambda x: mul(x, x), 'Double': lambda x: mul(num(2), x), 'Negate': lambda x: neg(x),
    'Abs': m('abs'), 'Sign': lambda x: ite(eq(x, ZERO), ZERO, ite(lt(x, ZERO), num(-1), ONE)),
    'Dirac': lambda x: ite(eq(x, ZERO), mk('inf'), ZERO),
    'Exp': m('exp'), 'Ln': m('ln'), 'XLnX': lambda x: ite(eq(x, ZERO), ZERO, mul(x, mk('ln', x))),
    'Sigmoid': lambda x: div(ONE, add(ONE, mk('exp', neg(x)))), 'Rabbit': lambda x: mul(x, sub(ONE, x)),
    'Cos': m('cos'), 'Cosh': m('cosh'), 'ArcCos': m('acos'), 'ArcCosh': m('acosh'),
    'Sin': m('sin'), 'Sinh': m('sinh'), 'ArcSin': m('asin'), 'ArcSinh': m('asinh'),
    'Tan': m('tan'), 'Tanh': m('tanh'), 'ArcTan': m('atan'), 'ArcTanh': m('atanh'),
    'Gamma': m('gamma'), 'DiGamma': m('digamma'), 'LogGamma': m('loggamma'), 'Erf': m('erf'),
}
BINARY = {'Add': add, 'Sub': sub, 'Mul': mul, 'Div': div, 'Power': powt}
# the real domain on which the operator is documented
DOMAIN = {'Ln': lambda x: [(lt(ZERO, x), True)], 'XLnX': lambda x: [(lt(x, ZERO), False)]}

def numeric_subst(t):
    """sval/bel wrappers are plain numbers for the algebra"""
    return t

def expected(r, node):
    n = node.name; ip = r.ip
    D = [kid_value(r, node, k)[0] for k in node.kids]
    if n in UNARY and len(D) == 1:
        return rigid.mkbuf(ip, rigid.shape_of(ip, D[0]), lambda ix: UNARY[n](rigid.elem(ip, D[0], ix)))
    if n in BINARY and len(D) == 2:
        s = [rigid.shape_of(ip, d) for d in D]
        out = rigid.bshape2(ip, s[0], s[1])
        return rigid.mkbuf(ip, out, lambda ix: BINARY[n](*[rigid.elem(ip, d, rigid.bix(ip, q, out, ix)) for d, q in zip(D, s)]))
    if n == 'Sum':
        v = fresh()
        return mk('bsum', rigid.shape_of(ip, D[0]), lam(v, rigid.elem(ip, D[0], v)))
    if n == 'Contract':
        return mk('ctr', sym('const', 'AXES'), D[0], D[1])
    return None

def domain_facts(r, node):
    f = DOMAIN.get(node.name)
    return f

def ok_facts(node, t):
    fs = [(kid_err(k), False) for k in node.kids] + [(kid_sherr(k), False) for k in node.kids]
    fs += [(c, True) for c in compat_atoms(t)]
    return fs

def value_equal(ip, a, b, dom=None):
    """equality of two buffers, element by element at a symbolic index, on the domain"""
    if a.op == 'ite':
        return algebra.conj([value_equal2(ip, a.a[0], True, a.a[1], b, dom), value_equal2(ip, a.a[0], False, a.a[2], b, dom)])
    return equal(a, b, ())
def value_equal2(ip, c, v, a, b, dom): return value_equal(ip, algebra.assign(a, c, v), algebra.assign(b, c, v), dom)

def c02(A, rep, tier):
    nodes = function_nodes(A); n = 0
    for node in nodes:
        if not documented(node): continue
        n += 1
        for cb in combos(node):
            where = node.im.fns.get('evaluate') or node.where
            st, why = by_formula(A, node, 'evaluate', cb)
            rep.add('%s::evaluate[%s]' % (node.name, combo_name(cb)), st, where, why, 'value = documented function of the operand values')
    rep.floor('operator nodes with a documented function', n, 25)

def documented(node): return node.name in UNARY or node.name in BINARY or node.name in ('Sum', 'Contract')
def by_formula(A, node, me, cb):
    """value of one evaluation form on operands of the given structure against the formula over their dense elements"""
    r = run_method(A, node, me, forms=cb)
    ex = expected(r, node)
    fs = ok_facts(node, mk('tup', r.ret, ex))
    got = assume(densify(r.ip, r.ret) if me == 'evaluate_spec' else r.ret, fs)
    bad = [x for x in leaves_of(got) if not is_ok(x)]
    if bad:
        st = '?' if any(algebra.find_unk(x) for x in bad) else 'no'
        return st, 'no value although every operand has one: %s' % show(bad[0])[:200]
    return elementwise(r.ip, got, ex, DOMAIN.get(node.name))

def elementwise(ip, got, ex, dom=None):
    v = fresh()
    val = rigid.leafmap(got, lambda x: x.a[2] if is_ok(x) else x)
    def cmp(x):
        if x.op == 'ite':
            c = x.a[0]
            return algebra.conj([cmp(x.a[1]), cmp(x.a[2])])
        return None
    sa, sb = rigid.shape_of(ip, val), rigid.shape_of(ip, ex)
    r1 = equal(sa, sb)
    if r1[0] == 'no': return r1
    ea, eb = rigid.elem(ip, val, v), rigid.elem(ip, ex, v)
    if ex.op in ('bsum', 'ctr') : ea, eb = val, ex
    if val.op != 'ite' and ex.op == 'ctr' and val.op == 'ctr':
        return algebra.conj([equal(x, y) for x, y in zip(val.a, ex.a)])
    fs = []
    if dom is not None:
        inner = [x for x in subterms(eb) if x.op in ('bel', 'sval')]
        tops = {x for x in inner}
        for x in tops:
            for c, b in dom(x): fs.append((algebra.canonb(c), b))
    return algebra.conj([r1, equal(ea, eb, tuple(fs))])

# ------------------------------------------------------------------ C03
def densify(ip, t):
    return map_ok(t, lambda s: rigid.dense(ip, s))

def c03(A, rep, tier):
    nodes = function_nodes(A)
    for node in nodes:
        raw = None
        for cb in all_forms(A, node):
            r0 = run_method(A, node, 'evaluate', forms=cb); r1 = run_method(A, node, 'evaluate_spec', forms=cb)
            where = node.im.fns.get('evaluate_spec') or node.im.fns.get('evaluate') or node.where
            pf = panic_free(r0, r1)
            a, b = assume(densify(r1.ip, r1.ret), pf), assume(r0.ret, pf)
            key = '%s[%s]' % (node.name, combo_name(cb))
            r = result_equal(a, b)
            rep.eq(key, r, where, 'dense(evaluate_spec) = evaluate')
            if not documented(node) or not any(f != RAW for f in cb.values()): continue
            # and the structured operands give what their dense forms give
            if raw is None: raw = by_formula(A, node, 'evaluate_spec', {k: RAW for k in cb})[0]
            if raw != 'yes': continue
            st, why = by_formula(A, node, 'evaluate_spec', cb)
            rep.add(key + ' as dense', st, where, why, 'structured operands give the value of their dense forms')
    rep.floor('Function implementations', len(nodes), 28)
    c03_spec(A, rep)

def all_forms(A, node):
    """every assignment of a structured form to the operands (and to the buffers read from the context)"""
    slots = [mk('slot', s) for f, ft, s in node.fields if s not in node.kids] if node.name in ('Variable', 'Cached', 'VariableAdjoint', 'ConstantAdjoint') else []
    if node.name == 'Constant': slots = [node.fields[0][2]]
    ks = list(node.kids) + slots
    for c in itertools.product((RAW, FULL, DIAG), repeat=len(ks)):
        yield dict(zip(ks, c))

def result_equal(a, b):
    """two Result values: same error or same buffer, in every case"""
    a, b = blank(a), blank(b)
    return equal(a, b)
def blank(t): return t

def spec_impl_fn(A, name):
    """inherent or trait method of Spec by name"""
    out = []
    for im in A.P.impls:
        if im.self[0] == 'adt' and im.self[1] == SPEC and name in im.fns: out.append(im.fns[name])
    return out[0] if len(out) == 1 else None

def mkspec(ip, form, name, scalar=False):
    b = sym(name)
    if form == RAW: return mk('adt', SPEC, RAW, b)
    return mk('adt', SPEC, form, mk('bshape', b), mk('sval', mk('specv', b)))

def c03_spec(A, rep):
    need = {n: spec_impl_fn(A, n) for n in ('shape', 'unwrap', 'map', 'zip_map', 'zeroes', 'ones', 'eye')}
    rep.floor('Spec methods', sum(1 for v in need.values() if v), 4)
    f = sym('f', 'fn')
    for fm in (RAW, FULL, DIAG):
        for me in ('shape', 'unwrap', 'map'):
            fid = need[me]
            if not fid: continue
            r = A.run(fid, ['self', 'f'], concrete={0: lambda ip: mkspec(ip, fm, 's'), 1: f})
            D = rigid.dense(r.ip, mkspec(r.ip, fm, 's'))
            key = 'Spec::%s[%s]' % (me, FORMS[fm])
            if me == 'shape': rep.eq(key, equal(r.ret, rigid.shape_of(r.ip, D)), fid, 'shape of the dense buffer')
            elif me == 'unwrap': rep.eq(key, equal(r.ret, D), fid, 'the dense buffer')
            else:
                ex = rigid.mkbuf(r.ip, rigid.shape_of(r.ip, D), lambda ix: mk('call', f, rigid.elem(r.ip, D, ix)))
                rep.eq(key, equal(rigid.dense(r.ip, r.ret), ex), fid, 'elementwise image of the dense buffer')
    if need['zip_map']:
        for fa, fb in itertools.product((RAW, FULL, DIAG), repeat=2):
            r = A.run(need['zip_map'], ['self', 'other', 'f'], concrete={0: lambda ip: mkspec(ip, fa, 'a'), 1: lambda ip: mkspec(ip, fb, 'b'), 2: f})
            ip = r.ip
            da, db = rigid.dense(ip, mkspec(ip, fa, 'a')), rigid.dense(ip, mkspec(ip, fb, 'b'))
            sa, sb = rigid.shape_of(ip, da), rigid.shape_of(ip, db)
            out = rigid.bshape2(ip, sa, sb)
            ex = ite(rigid.compat(ip, sa, sb), sm.ok(rigid.mkbuf(ip, out, lambda ix: mk('call', f, rigid.elem(ip, da, rigid.bix(ip, sa, out, ix)), rigid.elem(ip, db, rigid.bix(ip, sb, out, ix))))), sm.err(rigid.inc(sa, sb)))
            rep.eq('Spec::zip_map[%s/%s]' % (FORMS[fa], FORMS[fb]), equal(densify(ip, r.ret), ex), need['zip_map'], 'elementwise zip of the dense buffers')
    for me, val in (('zeroes', ZERO), ('ones', ONE)):
        if need[me]:
            r = A.run(need[me], ['s'])
            rep.eq('Spec::' + me, equal(rigid.dense(r.ip, r.ret), rigid.mkbuf(r.ip, r.arg(0) if r.args[0].op in ('ref', 'refv') else r.args[0], lambda ix: val)), need[me], 'constant buffer')
    if need['eye']:
        r = A.run(need['eye'], ['s'])
        rep.eq('Spec::eye', equal(rigid.dense(r.ip, r.ret), rigid.mkbuf(r.ip, r.args[0], lambda ix: ite(rigid.isdiag(r.ip, ix), ONE, ZERO))), need['eye'], 'identity buffer')
    for im in A.P.by_trait.get('core::convert::From', ()):
        if im.targs[0][0] == 'adt' and im.targs[0][1] == SPEC and 'from' in im.fns:
            r = A.run(im.fns['from'], ['b'])
            rep.eq('Spec::from', equal(rigid.dense(r.ip, r.ret), r.args[0]), im.fns['from'], 'dense(from b) = b')
    n = 0
    for im in A.P.by_trait.get('aegir::buffers::spec::IntoSpec', ()):
        if 'into_spec' not in im.fns: continue
        n += 1
        for fm in ((RAW,) if im.targs[0][0] != 'adt' else (RAW, FULL, DIAG)):
            r = A.run(im.fns['into_spec'], ['b'], concrete={0: (lambda ip: mkspec(ip, fm, 'b'))} if im.targs[0][0] == 'adt' else {})
            ex = rigid.dense(r.ip, r.args[0]) if im.targs[0][0] == 'adt' else r.args[0]
            rep.eq('%s::into_spec[%s]' % (ty_show(im.targs[0]), FORMS[fm]), equal(rigid.dense(r.ip, r.ret), ex), im.fns['into_spec'], 'dense(into_spec b) = b')
    rep.floor('IntoSpec implementations', n, 1)

def panic_free(*rs):
    """facts that exclude the panicking executions (those are C06's business)"""
    out = []
    for r in rs:
        if r.cond is not TRUE:
            out += [(c, True) for c in compat_atoms(r.cond)]
    return out

# ------------------------------------------------------------------ C04
def always_scalar(r): return all(x is rigid.S0 for x in leaves_of(rigid.leafmap(r, lambda x: rigid.shape_of_ok(x))))

def c04(A, rep, tier):
    nodes = function_nodes(A)
    for node in nodes:
        for cb in all_forms(A, node):
            r0 = run_method(A, node, 'evaluate', forms=cb); r2 = run_method(A, node, 'evaluate_shape', forms=cb)
            where = node.im.fns.get('evaluate_shape') or node.im.fns.get('evaluate') or node.where
            key = '%s[%s]' % (node.name, combo_name(cb))
            base = [(kid_err(k), False) for k in node.kids] + [(kid_sherr(k), False) for k in node.kids] + panic_free(r0, r2)
            sh = lambda t, ip: map_err(map_ok(t, lambda b: rigid.shape_of(ip, b)), lambda e: E_ANY)
            a = map_err(assume(r2.ret, base), lambda e: E_ANY); b = sh(assume(r0.ret, base), r0.ip)
            rep.eq(key + ' shape', equal(a, b), where, 'evaluate_shape = shape of evaluate (operands succeed)')
            if any(x.op != 'adt' for x in leaves_of(b)): pass
            oks = [x.a[2] for x in leaves_of(r0.ret) if is_ok(x)]
            if oks and all(rigid.shape_of(r0.ip, o) is rigid.S0 for o in oks): continue     # statically scalar
            bufkids = [k for k in node.kids]
            for k in node.kids:
                fs = [(kid_sherr(j), j is k) for j in node.kids] + [(kid_err(j), j is k) for j in node.kids]
                if node.name == 'Cached': fs += [(x, False) for x in subterms(r2.ret) if x.op == 'batom' and x.a[0] == 'held']
                g = assume(r2.ret, fs)
                ls = leaves_of(g)
                if any(algebra.find_unk(x) for x in ls): st = '?'
                else: st = 'yes' if all(is_err(x) for x in ls) else 'no'
                rep.add('%s failure of %s' % (key, tm.show(k)), st, where, '' if st == 'yes' else 'shape query answers %s although operand %s has no shape' % (show(g)[:160], show(k)), 'a failing operand fails the shape query')
    rep.floor('Function implementations', len(nodes), 28)
    fid = FN + '::evaluate_shape'
    rep.floor('provided evaluate_shape', int(fid in A.P.fns), 0)

# ------------------------------------------------------------------ C05
def errtag(node, i):
    n = len(node.kids)
    return i

def split_cases(t, cond, facts, depth=0):
    """leaves of t by gate assignment: [(path, leaf, execution reaches it)]"""
    t = assume(t, facts); cond = assume(cond, facts)
    out = []
    def go(t, cond, path, d):
        c = algebra.free_atom(t) if d < 14 else None
        while c is not None and c.op == 'ite': c = c.a[0]
        if c is None:
            if cond is TRUE or cond is FALSE: out.append((path, t, cond is TRUE)); return
            c = cond.a[0] if cond.op == 'ite' else cond
        for v in (True, False):
            if not algebra.feasible([(algebra.canonb(x), y) for x, y in path + [(c, v)] if x.op in ('eq', 'lt')]): continue
            go(algebra.assign(t, c, v), algebra.assign(cond, c, v), path + [(c, v)], d + 1)
    go(t, cond, list(facts), 0)
    return out

def c05(A, rep, tier):
    nodes = function_nodes(A); nk = 0
    for node in nodes:
        kids = node.kids
        for cb in all_forms(A, node):
            for me, ea, eo in (('evaluate', kid_err, 'errof'), ('evaluate_spec', kid_err, 'errof'), ('evaluate_shape', kid_sherr, 'sherrof')):
                r = run_method(A, node, me, forms=cb)
                where = node.im.fns.get(me) or node.where
                key = '%s::%s[%s]' % (node.name, me, combo_name(cb))
                if node.name == 'Cached':
                    base0 = [(mk('batom', 'held', s), False) for f, ft, s in node.fields if s not in kids]
                else: base0 = [(x, True) for x in subterms(r.ret) if x.op == 'batom' and x.a[0] == 'held']
                # single failures, and any subset of failures
                for bits in itertools.product((False, True), repeat=len(kids)):
                    facts = base0 + [(kid_err(k), b) for k, b in zip(kids, bits)] + [(kid_sherr(k), b) for k, b in zip(kids, bits)]
                    g = assume(r.ret, facts)
                    kk = '%s fail={%s}' % (key, ','.join(tm.show(k) for k, b in zip(kids, bits) if b))
                    if algebra.find_unk(g) and not any(is_err(x) for x in leaves_of(g)):
                        rep.add(kk, '?', where, 'unanalysed', ''); continue
                    fails = [i for i, b in enumerate(bits) if b]
                    if fails and me == 'evaluate_shape' and all(is_ok(x) and x.a[2] is rigid.S0 for x in leaves_of(r.ret)): continue
                    st, msg = 'yes', ''
                    for path, x, alive in split_cases(r.ret, r.cond, facts):
                        un = algebra.find_unk(x) is not None
                        inc = [c for c, v in path if c.op == 'batom' and c.a[0] in ('compat', 'ctrok') and not v]
                        if fails:
                            allowed = [tagged(node, i, mk(q, kids[i])) for i in fails[:1] for q in (('errof', 'sherrof') if node.name == 'ConstantAdjoint' or node.im.fns.get(me) is None else (eo,))]
                            good = is_err(x) and x.a[2] in allowed
                            why = 'expected the error of a failing operand (%s)' % ' or '.join(show(e) for e in allowed)[:160]
                        elif inc:
                            good = is_err(x) and output_err(r, node, x.a[2]) is True
                            why = 'operand shapes are incompatible: expected an output failure naming left and right shapes'
                        else:
                            good = is_ok(x); why = 'every operand succeeds and is compatible'
                        if not good and inc and not alive and not fails:
                            continue      # a panic: decided by C06
                        if not alive: continue
                        if not good:
                            if un and not (is_ok(x) or is_err(x)): st = '?' if st == 'yes' else st
                            else: st, msg = 'no', 'got %s: %s' % (show(x)[:160], why); break
                    nk += bool(fails)
                    rep.add(kk, st, where, msg, 'failures are exactly the tagged failures of the operands')
    rep.floor('operand failure cases', nk, 300)
    c05_dual(A, rep)

def tagged(node, i, e):
    if len(node.kids) == 1 and node.name not in ('ConstantAdjoint',): return e
    return mk('adt', BIN, i, e)

def output_err(r, node, e):
    if e.op == 'bot': return 'panics'
    if not (e.op == 'adt' and e.a[0] == BIN and e.a[1] == 2): return 'failure is not tagged as output failure: %s' % show(e)[:160]
    inc = e.a[2]
    D = [kid_value(r, node, k)[0] for k in node.kids]
    s = [rigid.shape_of(r.ip, d) for d in D]
    if inc.op == 'adt' and len(inc.a) == 4 and inc.a[2] is s[0] and inc.a[3] is s[1]: return True
    return 'reports %s instead of (left %s, right %s)' % (show(inc)[:200], show(s[0]), show(s[1]))

def c05_dual(A, rep):
    n = 0
    for me in ('evaluate_adjoint', 'evaluate_dual'):
        for im in [None] + [im for im in A.P.by_trait.get(DF, ()) if me in im.fns]:
            fid = im.fns[me] if im else DF + '::' + me
            if fid not in A.P.fns: continue
            n += 1
            r = A.run(fid, ['self', 'target', 'ctx'])
            S = sym('self'); AD = mk('adj', S, sym('target'))
            v, a = kid_err(S), kid_err(AD)
            for fv, fa in itertools.product((False, True), repeat=2):
                g = assume(r.ret, [(v, fv), (a, fa)])
                key = '%s value %s, adjoint %s' % (fid, 'fails' if fv else 'ok', 'fails' if fa else 'ok')
                if me == 'evaluate_adjoint':
                    ok_ = [mk('errof', AD)] if fa else None
                    if fv: continue
                else:
                    ok_ = []
                    if fv: ok_.append(mk('adt', BIN, 0, mk('errof', S)))
                    elif fa: ok_.append(mk('adt', BIN, 1, mk('errof', AD)))
                    ok_ = ok_ or None
                for x in leaves_of(g):
                    if ok_: st = 'yes' if is_err(x) and x.a[2] in ok_ else 'no'
                    elif me == 'evaluate_adjoint': st = equal(x, sm.ok(mk('val', AD)))[0]
                    else:
                        st = equal(x.a[2] if is_ok(x) else x, mk('adt', 'aegir::dual::Dual', 0, mk('val', S), mk('val', AD)))[0]
                    if algebra.find_unk(x): st = '?'
                    rep.add(key, st, fid, '' if st == 'yes' else 'got %s' % show(x)[:200], 'dual/adjoint evaluation propagates errors')
    rep.floor('adjoint/dual evaluation methods', n, 1)
    c05_errors(A, rep)

def c05_errors(A, rep):
    """the error values themselves: what they show, and the reversal of a shape pair"""
    n = 0; S = sym('self')
    for im in A.P.impls:
        if im.trait != 'core::fmt::Display' or 'fmt' not in im.fns or im.self[0] != 'adt': continue
        ad = A.P.adts.get(im.self[1])
        if not ad or not im.self[1].startswith('aegir::') or im.self[1].endswith('::NoError'): continue
        tagged = im.self[1].rsplit('::', 1)[1] in ('UnaryError', 'BinaryError')
        pair = im.self[1].rsplit('::', 1)[1] == 'IncompatibleShapes'
        if not (tagged or pair): continue
        n += 1
        fid = im.fns['fmt']; r = A.run(fid, ['self', 'f']); o = r.out(1)
        nv = len(ad['variants'])
        for v in range(nv):
            g = o if o is None or nv == 1 else assume(o, [(mk('isvar', r.arg(0), w), w == v) for w in range(nv)])
            nf = len(ad['variants'][v][1])
            want = [field(r.arg(0), v, i) for i in range(nf)]
            key = '%s display %s' % (im.self[1], ad['variants'][v][0])
            rule = 'an error message shows the error it wraps' if tagged else 'a shape error shows both shapes, left first'
            if g is None or algebra.find_unk(g): rep.add(key, '?', fid, 'not analysed', rule); continue
            bad = None
            for x in leaves_of(g):
                parts = list(x.a) if x.op == 'scat' else [x]
                got = [p.a[1] for p in parts if p.op == 'disp']
                if not set(got) <= set(want) and not all(y in want for y in got): bad = 'shows %s' % [show(y) for y in got]
                elif got != want and tagged: bad = 'shows %s, expected %s' % ([show(y) for y in got], [show(y) for y in want])
                elif pair and [y for y in got if y in want] != want: bad = 'shows %s, expected %s' % ([show(y) for y in got], [show(y) for y in want])
            rep.add(key, 'no' if bad else 'yes', fid, bad or '', rule)
    for fid, fn in A.P.fns.items():
        if fid.rsplit('::', 1)[1] != 'reverse' or not fn.body or len(fn.body['locals']) < 2: continue
        t = tup(fn.body['locals'][1])
        if t[0] != 'adt' or not t[1].endswith('::IncompatibleShapes'): continue
        n += 1
        r = A.run(fid); a = r.arg(0)
        want = mk('adt', t[1], 0, field(a, 0, 1), field(a, 0, 0))
        st = 'yes' if r.ret is want else '?' if algebra.find_unk(r.ret) else 'no'
        rep.add('IncompatibleShapes::reverse', st, fid, '' if st == 'yes' else 'gives %s' % show(r.ret)[:150], 'reversing a shape error swaps the two shapes')
    rep.floor('error displays and reversals', n, 4)
