"""Checks over derivatives, sources, memoisation, effects and occurrence queries."""
import re
import itertools
from terms import *
import terms as tm
from mir import *
from ana import Ana, mkval
import rigid, algebra, stdmodels as sm
from rigid import RAW, FULL, DIAG, SPEC
from algebra import equal, decide
from nodes import *

# ------------------------------------------------------------------ C01
def fn_impl_of(A, adt):
    ims = A.impl_for_adt(FN, adt)
    return ims[0] if len(ims) == 1 else None

def fields_of(A, t, ty):
    """[(field value, field type)] of a node value"""
    a = A.P.adts.get(t.a[0])
    if not a: return []
    targs = ty[2] if ty is not None and ty[0] == 'adt' and ty[1] == t.a[0] else None
    sub = {g[2]: x for g, x in zip(gen_of(a), targs)} if targs else None
    return [(v, ty_subst(tup(f[1]), sub) if sub is not None and len(f) > 1 else None) for v, f in zip(t.a[2:], a['variants'][0][1])]

def const_args(A, t, ty):
    """const generic parameter -> its value in the node's type"""
    a = A.P.adts.get(t.a[0]); out = {}
    if not a or ty is None or ty[0] != 'adt' or ty[1] != t.a[0]: return out
    for g, x in zip(gen_of(a), ty[2]):
        if g[0] == 'const':
            if x[0] == 'cparam': out[sym('const', g[1])] = sym('const', x[1])
            else:
                try: out[sym('const', g[1])] = num(int(str(x[1]).split('_')[0]))
                except ValueError: out[sym('const', g[1])] = mk('unk', 'const argument')
    return out

def denote(A, t, ty, seen=None):
    """real function denoted by a graph value: evaluate each node from its source over the denotations of its operands"""
    if t.op == 'ite': return ite(t.a[0], denote(A, t.a[1], ty), denote(A, t.a[2], ty))
    if t.op != 'adt': return mk('sval', t)
    im = fn_impl_of(A, t.a[0])
    if im is None: return mk('unk', 'no single Function impl for %s' % t.a[0])
    key = (id(A), t, ty)
    if key in _den: return _den[key]
    f = im.fns.get('evaluate')
    r = A.run(f, ['self', 'ctx'], concrete={0: t}, scalar=True)
    kids = fields_of(A, t, ty)
    v = assume(r.ret, [(mk('batom', 'iserr', k), False) for k, _ in kids])
    if not is_ok(v):
        v = rigid.leafmap(v, lambda x: x.a[2] if is_ok(x) else mk('unk', 'no value: %s' % show(x)[:80]))
    else: v = v.a[2]
    v = subst(v, const_args(A, t, ty))
    v = subst(v, {mk('sval', k): denote(A, k, kt) for k, kt in kids if k.op == 'adt' and fn_impl_of(A, k.a[0]) is not None})
    _den[key] = v
    return v
_den = {}

def deriv(t, env):
    """symbolic derivative of a normal form; env maps leaves to their derivatives"""
    memo = {}
    def d(t):
        r = memo.get(t)
        if r is None: r = memo[t] = d_(t)
        return r
    def d_(t):
        if t in env: return env[t]
        if not any(x in env for x in subterms(t)): return ZERO
        o = t.op; a = t.a
        if o == 'add': return add(d(a[0]), d(a[1]))
        if o == 'neg': return neg(d(a[0]))
        if o == 'mul': return add(mul(d(a[0]), a[1]), mul(a[0], d(a[1])))
        if o == 'div': return div(sub(mul(d(a[0]), a[1]), mul(a[0], d(a[1]))), mul(a[1], a[1]))
        if o == 'pow':
            u, v = a
            return mul(powt(u, sub(v, ONE)), add(mul(v, d(u)), mul(mul(u, mk('ln', u)), d(v)))) if d(v) is not ZERO else mul(mul(v, powt(u, sub(v, ONE))), d(u))
        if o == 'ite': return ite(a[0], d(a[1]), d(a[2]))
        if o == 'ctr': return add(mk('ctr', a[0], a[1], d(a[2])), mk('ctr', a[0], d(a[1]), a[2]))
        u = a[0] if len(a) == 1 else None
        if u is not None and o in RULES: return mul(RULES[o](u), d(u))
        return mk('unk', 'no derivative rule for %s' % o)
    return d(t)
def sq(x): return mul(x, x)
def sqrt(x): return powt(x, num(Fraction(1, 2)))
RULES = {
    'exp': lambda u: mk('exp', u), 'ln': lambda u: div(ONE, u),
    'sin': lambda u: mk('cos', u), 'cos': lambda u: neg(mk('sin', u)), 'tan': lambda u: add(ONE, sq(mk('tan', u))),
    'sinh': lambda u: mk('cosh', u), 'cosh': lambda u: mk('sinh', u), 'tanh': lambda u: sub(ONE, sq(mk('tanh', u))),
    'atan': lambda u: div(ONE, add(ONE, sq(u))), 'asin': lambda u: div(ONE, sqrt(sub(ONE, sq(u)))), 'acos': lambda u: neg(div(ONE, sqrt(sub(ONE, sq(u))))),
    'atanh': lambda u: div(ONE, sub(ONE, sq(u))), 'asinh': lambda u: div(ONE, sqrt(add(sq(u), ONE))), 'acosh': lambda u: div(ONE, sqrt(sub(sq(u), ONE))),
    'gamma': lambda u: mul(mk('gamma', u), mk('digamma', u)), 'loggamma': lambda u: mk('digamma', u),
    'abs': lambda u: ite(eq(u, ZERO), ZERO, ite(lt(u, ZERO), num(-1), ONE)),
    'signum': lambda u: ite(eq(u, ZERO), mk('inf'), ZERO),
}
import terms as _t
from fractions import Fraction

SOURCES = ('Variable', 'VariableAdjoint', 'Constant', 'ConstantAdjoint')
def diff_nodes(A):
    for im in A.P.by_trait.get(DF, ()):
        t = im.targs[0]
        yield im, (t[1].rsplit('::', 1)[1] if t[0] == 'adt' else ty_show(t))

# facts under which both sides are compared (the real domain of the operator)
def pos(x): return [(lt(ZERO, x), True)]
C01_DOMAIN = {'Ln': lambda u: pos(u[0]), 'XLnX': lambda u: pos(u[0]), 'Gamma': lambda u: pos(u[0]), 'LogGamma': lambda u: pos(u[0])}

def adj_type(im):
    t = im.types.get('Adjoint')
    return t[3] if t and t[0] == 'type' and len(t) > 3 else t

def c01(A, rep, tier):
    n = 0
    for im, name in diff_nodes(A):
        if name in SOURCES: continue
        fim = fn_impl_of(A, im.targs[0][1]) if im.targs[0][0] == 'adt' else None
        fid = im.fns['adjoint']
        if fim is None: rep.add(name, '?', fid, 'no evaluation', ''); continue
        n += 1
        r = A.run(fid, ['self', 'target'], scalar=True)
        selfv = r.arg(0); T = r.args[1]
        kids = [v for v, ft in fields_of(A, selfv, None)]
        if name == 'Cached':
            k = selfv.a[2]
            rep.eq('Cached adjoint', equal(r.ret, mk('adj', k, T)), fid, 'memoisation does not change the derivative'); continue
        if name == 'Sum':
            k = selfv.a[2]
            rep.eq('Sum adjoint', equal(r.ret, mk('adj', k, T)), fid, 'recorded exception: the adjoint of the operand'); continue
        f = denote(A, selfv, im.targs[0])
        env = {mk('sval', k): mk('sval', mk('adj', k, T)) for k in kids if mk('sval', k) in set(subterms(f))}
        dims = set(env)
        want = deriv(f, env)
        got = denote(A, r.ret, adj_type(im))
        u = [mk('sval', k) for k in kids]; du = [mk('sval', mk('adj', k, T)) for k in kids]
        key = '%s adjoint' % name
        if name == 'Sign':
            want = mul(ite(eq(u[0], ZERO), mk('inf'), ZERO), du[0])
            rep.eq(key, equal(got, want), fid, 'derivative of the operator'); continue
        if name == 'Power':
            # positive base: the full rule; constant exponent: any base
            rep.eq(key + ' (positive base)', guard_eq(got, want, pos(u[0])), fid, 'derivative of the operator')
            z = {du[1]: ZERO}
            rep.eq(key + ' (constant exponent)', equal(subst(got, z), subst(deriv(f, {u[0]: du[0]}), z)), fid, 'derivative of the operator'); continue
        # where two branches of the evaluation meet, the derivative is decided separately
        dom = C01_DOMAIN.get(name, lambda u: [])(u)
        seams = seams_of(f, env); off = [(e, False) for e in seams]
        rep.eq(key, guard_eq(got, want, dom + off), fid, 'derivative of the operator')
        if name == 'Abs': rep.eq(key + ' at zero', equal(subst(got, {u[0]: ZERO}), ZERO), fid, 'derivative at a kink')
        else:
            for e in seams: at_seam(rep, key, fid, f, env, got, e, dom)
        # each operand alone (a wrong factor cannot hide behind a cancellation)
        for i, k in enumerate(du):
            if len(du) > 1:
                z = {q: ZERO for q in du if q is not k}
                rep.eq('%s, operand %d alone' % (key, i), guard_eq(subst(got, z), subst(want, z), dom + off), fid, 'derivative of the operator')
    rep.floor('differentiable operators', n, 15)

def seams_of(f, env):
    """equations of the points where a piecewise formula changes branch"""
    out = []
    for x in subterms(f):
        e = eq(*x.a) if x.op in ('lt', 'eq') else eq(x.a[0], ZERO) if x.op in ('abs', 'signum') else None
        if e is not None and e.op == 'eq' and any(l in set(subterms(e)) for l in env) and e not in out: out.append(e)
    return out

def at_seam(rep, key, fid, f, env, got, e, dom):
    """where the one-sided derivatives agree the function is differentiable, and the adjoint must agree too"""
    x, c = e.a if e.a[0] in env else (e.a[1], e.a[0])
    if x not in env or c.op != 'num': return
    at = {x: c}
    if any(subst(g, at) is (FALSE if v else TRUE) for g, v in dom): return
    fs = [assume(f, [(lt(x, c), v), (lt(c, x), not v), (e, False)]) for v in (True, False)]
    if c is ZERO: fs = [subst(g, {mk('abs', x): neg(x) if v else x}) for g, v in zip(fs, (True, False))]
    if any(y.op in ('abs', 'signum', 'lt', 'eq') for g in fs for y in subterms(g)): return
    sides = [subst(deriv(g, env), at) for g in fs]
    if equal(sides[0], sides[1])[0] == 'yes' and equal(*[subst(g, at) for g in fs])[0] == 'yes':
        rep.eq('%s at %s' % (key, show(c)), equal(subst(got, at), sides[0]), fid, 'derivative where branches meet')

def guard_eq(a, b, facts):
    fs = [(algebra.canonb(c), v) for c, v in facts]
    return equal(assume(a, fs), assume(b, fs), tuple(fs))

# ------------------------------------------------------------------ event traces
def traces(ev):
    """the event sequences of a gated trace: [[(kind, subject)]] (loops and unknown effects become ('?', what))"""
    if ev.op == 'ite':
        out = []
        for x in traces(ev.a[1]) + traces(ev.a[2]):
            if x not in out: out.append(x)
        return out
    if ev.op == 'ev0': return [[]]
    if ev.op == 'evs':
        e = ev.a[1]
        tails = traces_ev(e)
        out = []
        for h in traces(ev.a[0]):
            for t in tails:
                if h + t not in out: out.append(h + t)
        return out
    return [[('?', ev)]]
def traces_ev(e):
    if e.op == 'ite':
        out = []
        for x in traces_ev(e.a[1]) + traces_ev(e.a[2]):
            if x not in out: out.append(x)
        return out
    if e.op == 'ev': return [[(e.a[0], e.a[1])]]
    return [[('?', e)]]

METHODS = ('evaluate', 'evaluate_spec', 'evaluate_shape')
def ident_fields(A, node):
    """fields of a node whose type is bounded by Identifier"""
    ids = {p[2][0] for p in node.im.preds if p[0] == 'trait' and p[1] == ID}
    return [s for f, ft, s in node.fields if ft in ids]
ID = 'aegir::Identifier'
SRCERR = 'aegir::meta::SourceError'

def node_named(A, name):
    return [n for n in function_nodes(A) if n.name == name]

def held(i): return mk('batom', 'held', i)
def src_err(A, i):
    return mk('adt', SRCERR, 0, i)

# ------------------------------------------------------------------ C07
def c07(A, rep, tier):
    n = 0
    for node in function_nodes(A):
        if node.kids or not ident_fields(A, node) or node.name == 'VariableAdjoint': continue
        n += 1
        i = ident_fields(A, node)[0]
        for fm in FORMS:
            for me in METHODS:
                r = run_method(A, node, me, forms={mk('slot', i): fm})
                where = node.im.fns.get(me) or FN + '::' + me
                base = mk('val', mk('slot', i))
                S = mk('adt', SPEC, RAW, base) if fm == RAW else mk('adt', SPEC, fm, mk('bshape', base), mk('sval', mk('specv', mk('slot', i))))
                D = rigid.dense(r.ip, S)
                ex = {'evaluate': D, 'evaluate_spec': S, 'evaluate_shape': rigid.shape_of(r.ip, D)}[me]
                key = '%s::%s[%s]' % (node.name, me, FORMS[fm])
                g = assume(r.ret, [(held(i), True)])
                rep.eq(key + ' held', equal(g, sm.ok(ex)), where, 'a held variable yields the stored buffer, in the same form')
                g = assume(r.ret, [(held(i), False)])
                for x in leaves_of(g):
                    st = 'yes' if is_err(x) and is_src_err(A, x.a[2], i) else '?' if algebra.find_unk(x) else 'no'
                    rep.add(key + ' absent', st, where, '' if st == 'yes' else 'a missing variable yields %s' % show(x)[:200], 'a missing variable is reported by its own identifier')
                if r.cond is not TRUE:
                    d = decide(r.cond, (), ())
                    rep.add(key + ' total', 'yes' if d is True or d == 'yes' else '?', where, '', 'no panic')
    rep.floor('variable nodes', n, 1)
    # the same identifier through the error's own accessor / display
    for im in A.P.impls:
        if im.self[0] == 'adt' and im.self[1] == SRCERR and im.trait == 'core::fmt::Display' and 'fmt' in im.fns:
            r = A.run(im.fns['fmt'], ['self', 'f'])
            idf = field(r.arg(0), 0, 0); o = r.out(1)
            st = '?' if o is None or algebra.find_unk(o) else 'yes' if any(x.op == 'disp' and x.a[1] is idf for x in subterms(o)) else 'no'
            rep.add('SourceError display', st, im.fns['fmt'], '' if st == 'yes' else 'the message does not show the identifier', 'the report names the identifier')

def is_src_err(A, e, i):
    return e.op == 'adt' and len(e.a) == 3 and e.a[2] is i and e.a[0] == SRCERR

# ------------------------------------------------------------------ C09
def c09(A, rep, tier):
    n = 0
    for node in function_nodes(A):
        if node.name != 'Cached': continue
        n += 1
        k = node.kids[0]; i = ident_fields(A, node)[0]
        for fk, fs in itertools.product(FORMS, FORMS):
            for me in METHODS:
                r = run_method(A, node, me, forms={k: fk, mk('slot', i): fs})
                ip = r.ip
                where = node.im.fns.get(me) or FN + '::' + me
                key = '%s::%s[operand %s, stored %s]' % (node.name, me, FORMS[fk], FORMS[fs])
                view = lambda t: map_ok(t, (lambda b: rigid.dense(ip, b)) if me == 'evaluate_spec' else (lambda b: b))
                sb = mk('val', mk('slot', i))
                SS = mk('adt', SPEC, RAW, sb) if fs == RAW else mk('adt', SPEC, fs, mk('bshape', sb), mk('sval', mk('specv', mk('slot', i))))
                DS = rigid.dense(ip, SS)
                DK = kid_value(r, node, k)[0]
                fin = (lambda b: rigid.shape_of(ip, b)) if me == 'evaluate_shape' else (lambda b: b)
                ctx = sym('ctx')
                ev = r.events(); c1 = r.st['ctx']
                # hit
                f = [(held(i), True)]
                rep.eq(key + ' hit value', equal(view(assume(r.ret, f)), sm.ok(fin(DS))), where, 'a stored buffer is returned as it is')
                g = assume(c1, f)
                rep.add(key + ' hit store', 'yes' if g is ctx else 'no' if not algebra.find_unk(g) else '?', where, '' if g is ctx else 'context becomes %s' % show(g)[:200], 'a hit leaves the context unchanged')
                bad = [t for t in traces(assume(ev, f)) if any(e[1] is k for e in t)]
                rep.add(key + ' hit effects', 'no' if bad else 'yes', where, 'the wrapped node is evaluated although its value is stored' if bad else '', 'a hit evaluates nothing')
                # miss, the operand fails
                f = [(held(i), False), (kid_err(k), True), (kid_sherr(k), True)]
                g = assume(r.ret, f)
                for x in leaves_of(g):
                    okk = is_err(x) and x.a[2] in (mk('errof', k), mk('sherrof', k))
                    rep.add(key + ' failure', 'yes' if okk else '?' if algebra.find_unk(x) else 'no', where, '' if okk else 'yields %s' % show(x)[:200], 'the operand\'s error is passed on')
                g = assume(c1, f)
                rep.add(key + ' failure store', 'yes' if g is ctx else 'no' if not algebra.find_unk(g) else '?', where, '' if g is ctx else 'context becomes %s' % show(g)[:200], 'an evaluation error stores nothing')
                # miss, the operand succeeds
                f = [(held(i), False), (kid_err(k), False), (kid_sherr(k), False)]
                rep.eq(key + ' miss value', equal(view(assume(r.ret, f)), sm.ok(fin(DK))), where, 'a miss returns the value of the wrapped node')
                g = assume(c1, f)
                if me == 'evaluate_shape' and g is ctx: rep.add(key + ' miss store', 'yes', where, '', 'a shape query need not store'); continue
                if g.op == 'ctxw' and g.a[0] is ctx:
                    st = 'yes' if g.a[1] is i else 'no'
                    rep.add(key + ' miss slot', st, where, '' if st == 'yes' else 'stored under %s' % show(g.a[1])[:100], 'stored under its own identifier')
                    rep.eq(key + ' miss stored value', equal(g.a[2], DK), where, 'what is stored is the value')
                else:
                    rep.add(key + ' miss store', '?' if algebra.find_unk(g) else 'no', where, 'context becomes %s' % show(g)[:200], 'the result is stored exactly once')
                for t in traces(assume(ev, f)):
                    m = sum(1 for e in t if e[1] is k)
                    w = sum(1 for e in t if e[0] == 'write')
                    st = 'yes' if m == 1 and w <= 1 else 'no'
                    rep.add(key + ' miss effects', st, where, '' if st == 'yes' else 'wrapped node evaluated %d times, %d stores' % (m, w), 'evaluated once, stored once')
        for im in A.impl_for_adt(DF, node.t[1]):
            r = A.run(im.fns['adjoint'], ['self', 'target'])
            rep.eq('%s::adjoint' % node.name, equal(r.ret, mk('adj', mk('sym', 'self.%s' % 'node') if False else k, r.args[1])), im.fns['adjoint'], 'the adjoint is that of the wrapped node')
        for im in A.impl_for_adt('aegir::Contains', node.t[1]):
            r = A.run(im.fns['contains'], ['self', 'target'])
            g = assume(r.ret, [(mk('batom', 'contains', k, r.args[1]), True)])
            rep.eq('%s::contains operand' % node.name, equal(g, TRUE), im.fns['contains'], 'transparent to occurrence queries')
    rep.floor('memoising nodes', n, 1)

# ------------------------------------------------------------------ C10
DENY = re.compile(r'^(std::(env|fs|io|net|os|process|thread|sync|time|panic|rand)::|core::cell::|core::sync::|std::cell::|alloc::(sync|rc)::|core::ptr::(write|copy|replace|swap)|core::intrinsics::(volatile|atomic)|std::thread)')
DENY_OK = re.compile(r'^(core::fmt::|std::io::Write::|std::(f32|f64)::)')

def callees(fn):
    """(callee id, location) of every call and function value in a body"""
    out = []
    def walk(x, sp):
        if isinstance(x, (list, tuple)):
            if len(x) >= 2 and x[0] in ('fn', 'fndef') and isinstance(x[1], str): out.append((x[1], sp))
            for y in x: walk(y, sp)
        elif isinstance(x, dict):
            for y in x.values(): walk(y, sp)
    for b in fn.body['blocks']:
        for s in b['s']: walk(s, s[-1] if isinstance(s[-1], str) else b['sp'])
        walk(b['t'], b['sp'])
    return out

def c10(A, rep, tier):
    n = 0
    for node in function_nodes(A):
        own = set(ident_fields(A, node)); kids = set(node.kids)
        for cb in all_forms(A, node):
            for me in METHODS:
                n += 1
                r = run_method(A, node, me, forms=cb)
                where = node.im.fns.get(me) or FN + '::' + me
                key = '%s::%s[%s]' % (node.name, me, combo_name(cb))
                effects(rep, key, where, r, own, kids, node.name == 'Cached')
    for me in ('evaluate_adjoint', 'evaluate_dual'):
        for fid in [DF + '::' + me] + [im.fns[me] for im in A.P.by_trait.get(DF, ()) if me in im.fns]:
            if fid not in A.P.fns: continue
            r = A.run(fid, ['self', 'target', 'ctx'])
            S = sym('self')
            effects(rep, fid, fid, r, set(), {S, mk('adj', S, sym('target'))}, False)
    for me in METHODS:
        if FN + '::' + me in A.P.fns:
            r = A.run(FN + '::' + me, ['self', 'ctx']); effects(rep, FN + '::' + me, FN + '::' + me, r, set(), {sym('self')}, False)
    for im in A.P.by_trait.get(DF, ()):
        r = A.run(im.fns['adjoint'], ['self', 'target'])
        bad = [e for t in traces(r.events()) for e in t if e[0] not in ('adjoint',)]
        rep.add('%s::adjoint' % ty_show(im.targs[0]), 'no' if bad else 'yes', im.fns['adjoint'], 'building the adjoint performs %s' % bad[0][0] if bad else '', 'building an adjoint evaluates nothing')
    rep.floor('evaluation methods', n, 60)
    ambient(A, rep)

def effects(rep, key, where, r, own, kids, may_write):
    c1 = r.st['ctx']
    bad = [x for x in leaves_of(c1) if x is not sym('ctx') and not (may_write and x.op == 'ctxw' and x.a[0] is sym('ctx') and x.a[1] in own)]
    st = 'yes' if not bad else '?' if any(algebra.find_unk(x) for x in bad) else 'no'
    rep.add(key + ' context', st, where, '' if not bad else 'the context becomes %s' % show(bad[0])[:200], 'the context is left unchanged, or receives the node\'s own value')
    ts = traces(r.events()); msgs = []; und = False
    order = []
    for t in ts:
        cnt = {}
        for kind, x in t:
            if kind == '?': und = True; continue
            if kind.startswith('read'):
                if x not in own: msgs.append('reads the context under %s, which is not an identifier of the node' % show(x)[:80])
                cnt[(kind, x)] = cnt.get((kind, x), 0) + 1
            elif kind == 'write':
                if not may_write or x not in own: msgs.append('writes the context under %s' % show(x)[:80])
            elif kind.startswith('evaluate'):
                if x not in kids: msgs.append('evaluates %s, which is not an operand' % show(x)[:80])
                kind = 'evaluation' if kind in ('evaluate', 'evaluate_spec') else kind      # computing the value in either form is an evaluation
                cnt[(kind, x)] = cnt.get((kind, x), 0) + 1
        for (kind, x), c in cnt.items():
            if c > 1 and kind.startswith('evaluat'): msgs.append('%s of operand %s is called %d times' % (kind, show(x)[:60], c))
        order.append([x for kind, x in t if kind.startswith('evaluate')])
    longest = max(order, key=len) if order else []
    for o in order:
        if o != longest[:len(o)]: msgs.append('operands are evaluated in an order that depends on their values')
    rep.add(key + ' effects', 'no' if msgs else '?' if und else 'yes', where, '; '.join(msgs[:2]), 'reads only its own identifiers, evaluates each operand at most once, in a fixed order')

def ambient(A, rep):
    """no function reachable from the library performs ambient effects; the library has no mutable state of its own"""
    n = 0
    for fid, fn in sorted(A.P.fns.items()):
        if fn.crate != 'aegir' or not fid.lstrip('<').startswith('aegir::'): continue
        n += 1
        bad = [(c, sp) for c, sp in callees(fn) if DENY.match(c) and not DENY_OK.match(c)]
        if bad: rep.add('%s calls %s' % (fid, bad[0][0]), 'no', bad[0][1], 'calls %s' % bad[0][0], 'no ambient effect (environment, files, clock, threads, shared cells)')
    rep.add('library functions scanned for ambient effects', 'yes', '%d functions' % n, '', 'no ambient effect (environment, files, clock, threads, shared cells)')
    for sid, mut, sp in A.P.statics:
        if sid.startswith('aegir::') : rep.add('static %s' % sid, 'no' if mut else 'yes', sp, 'mutable static' if mut else '', 'no mutable global state')
    rep.floor('library functions scanned', n, 300)

# ------------------------------------------------------------------ C11
CONT = 'aegir::Contains'
def c11(A, rep, tier):
    n = 0; seen = set()
    fnodes = {nd.t[1]: nd for nd in function_nodes(A) if nd.t[0] == 'adt'}
    for im in A.P.by_trait.get(CONT, ()):
        t = im.targs[0]; fid = im.fns['contains']
        nd = fnodes.get(t[1]) if t[0] == 'adt' else None
        if nd is None:
            if im.crate == 'fixtures' or not hasattr(im, 'crate'): continue
            rep.add(ty_show(t), '?', fid, 'not a graph node'); continue
        n += 1; seen.add(t[1])
        r = A.run(fid, ['self', 'target'])
        tg = r.args[1].a[0] if r.args[1].op == 'refv' else r.args[1]
        atoms = [(k, mk('batom', 'contains', k, tg)) for k in nd.kids] + [(i, eq(i, tg)) for i in ident_fields(A, nd)]
        for j, (what, a) in enumerate(atoms):
            fs = [(b, q == j) for q, (_, b) in enumerate(atoms)]
            rep.eq('%s only in %s' % (nd.name, show(what)), equal(assume(r.ret, fs), TRUE), fid, 'an identifier occurring in one operand only is reported')
        rep.eq('%s exactly' % nd.name, equal(r.ret, or_all([a for _, a in atoms])), fid, 'contains = occurs in some operand or is an own identifier')
    for t, nd in fnodes.items():
        if t not in seen: rep.add('%s has no containment query' % nd.name, 'no', nd.where, 'a graph node without a containment query', 'every node answers')
    rep.floor('containment queries', n, 25)
def or_all(xs):
    r = FALSE
    for x in reversed(xs): r = ite(x, TRUE, r)
    return r

# ------------------------------------------------------------------ C23
def dims_of(t): return {x for x in subterms(t) if x.op == 'sym' and 'aconst' in str(x.a[0]) and 'DIM' in show(x)}

def ident_atoms(t, sv, st, small):
    """replace the recognised forms of `value index = target index` by one atom"""
    m = {}
    for x in subterms(t):
        if x.op == 'batom' and x.a[0] == 'zipdiag' and x.a[1] in (sv, st) and x.a[2] in (sv, st):
            p, q = x.a[3], x.a[4]
            if p.op == 'splix' and q.op == 'splix' and p.a[0] is q.a[0] and {p.a[1], q.a[1]} == {ZERO, ONE} or \
               p.op == 'splix' and q.op == 'splix' and p.a[0] is q.a[0] and p.a[1] is not q.a[1]: m[x] = mk('batom', 'IDENT', p.a[0])
        elif x.op == 'eq' and all(y.op == 'splix' for y in x.a) and x.a[0].a[0] is x.a[1].a[0] and x.a[0].a[1] is not x.a[1].a[1]: m[x] = mk('batom', 'IDENT', x.a[0].a[0])
        elif x.op == 'batom' and x.a[0] == 'isdiag' and small: m[x] = mk('batom', 'IDENT', x.a[1])
    return subst(t, m)

def c23(A, rep, tier):
    n = 0
    for node in node_named(A, 'VariableAdjoint'):
        n += 1
        v, t = ident_fields(A, node)
        for cb in all_forms(A, node):
            for me in METHODS:
                r = run_method(A, node, me, forms=cb); ip = r.ip
                where = node.im.fns.get(me) or FN + '::' + me
                key = '%s::%s[%s]' % (node.name, me, combo_name(cb))
                def sh(i):
                    b = mk('val', mk('slot', i)); fm = cb.get(mk('slot', i), RAW)
                    return mk('bshape', b)
                sv, st = sh(v), sh(t)
                out = mk('concat', sv, st)
                for miss, ex in (({v}, mk('adt', BIN, 0, src_err(A, v))), ({t}, mk('adt', BIN, 1, src_err(A, t))), ({v, t}, None)):
                    g = assume(r.ret, [(held(i), i not in miss) for i in (v, t)])
                    for x in leaves_of(g):
                        good = is_err(x) and (x.a[2] is ex or ex is None and x.a[2] in (mk('adt', BIN, 0, src_err(A, v)), mk('adt', BIN, 1, src_err(A, t))))
                        rep.add('%s missing %s' % (key, ','.join(sorted(map(show, miss)))), 'yes' if good else '?' if algebra.find_unk(x) else 'no', where, '' if good else 'yields %s' % show(x)[:200], 'a missing identifier is reported by name')
                base = [(held(v), True), (held(t), True)]
                sameq = eq(v, t)
                for same in (True, False):
                    g0 = assume(assume(r.ret, base), [(sameq, same), (eq(t, v), same)])
                    for d in range(0, 7):
                        g = subst(g0, {x: num(d) for x in dims_of(g0)})
                        kk = '%s %s identifier, %d axes' % (key, 'same' if same else 'other', d)
                        if me == 'evaluate_shape':
                            rep.eq(kk, equal(g, sm.ok(out)), where, 'shape = value axes then target axes'); continue
                        if me == 'evaluate_spec': g = map_ok(g, lambda s: rigid.dense(ip, s))
                        b = fresh()
                        for x in leaves_of(g):
                            if not is_ok(x): rep.add(kk, '?' if algebra.find_unk(x) else 'no', where, 'yields %s' % show(x)[:160], 'value'); continue
                            y = x.a[2]
                            rep.eq(kk + ' shape', equal(rigid.shape_of(ip, y), out), where, 'shape = value axes then target axes')
                            e = ident_atoms(rigid.elem(ip, y, b), sv, st, d <= 1)
                            rep.eq(kk, equal(e, ite(mk('batom', 'IDENT', b), ONE, ZERO) if same else ZERO), where, 'identity (same identifier) or zero (another one)')
    for node in node_named(A, 'ConstantAdjoint'):
        n += 1
        k = node.kids[0]; t = ident_fields(A, node)[0]
        for cb in all_forms(A, node):
            for me in METHODS:
                r = run_method(A, node, me, forms=cb); ip = r.ip
                where = node.im.fns.get(me) or FN + '::' + me
                key = '%s::%s[%s]' % (node.name, me, combo_name(cb))
                g = assume(r.ret, [(held(t), True), (kid_sherr(k), False), (kid_err(k), False)])
                D = kid_value(r, node, k)[0]
                out = mk('concat', rigid.shape_of(ip, D), mk('bshape', mk('val', mk('slot', t))))
                for x in leaves_of(g):
                    if not is_ok(x): rep.add(key, '?' if algebra.find_unk(x) else 'no', where, 'yields %s' % show(x)[:160], 'value'); continue
                    y = x.a[2]
                    if me == 'evaluate_shape': rep.eq(key, equal(y, out), where, 'shape = constant axes then target axes'); continue
                    if me == 'evaluate_spec': y = rigid.dense(ip, y)
                    rep.eq(key + ' shape', equal(rigid.shape_of(ip, y), out), where, 'shape = constant axes then target axes')
                    rep.eq(key, equal(rigid.elem(ip, y, fresh()), ZERO), where, 'zeros')
                g = assume(r.ret, [(held(t), False), (kid_sherr(k), False), (kid_err(k), False)])
                for x in leaves_of(g):
                    good = is_err(x) and x.a[2] is mk('adt', BIN, 1, src_err(A, t))
                    rep.add(key + ' missing target', 'yes' if good else '?' if algebra.find_unk(x) else 'no', where, '' if good else 'yields %s' % show(x)[:200], 'a missing identifier is reported by name')
    CA = [nd.t[1] for nd in node_named(A, 'ConstantAdjoint')]; VA = [nd.t[1] for nd in node_named(A, 'VariableAdjoint')]
    for im in A.P.by_trait.get(DF, ()):
        t = im.targs[0]; nm = t[1].rsplit('::', 1)[1] if t[0] == 'adt' else ''
        if nm not in SOURCES: continue
        n += 1
        r = A.run(im.fns['adjoint'], ['self', 'target'])
        want = mk('adt', VA[0], 0, sym('self.0'), r.args[1]) if nm == 'Variable' else mk('adt', CA[0], 0, r.arg(0), r.args[1])
        rep.eq('%s::adjoint' % nm, equal(r.ret, want), im.fns['adjoint'], 'the adjoint of a variable is its identity node, that of a constant node is zero')
    rep.floor('source adjoints', n, 3)

# ------------------------------------------------------------------ C18
DUAL = 'aegir::dual::Dual'
def c18(A, rep, tier):
    n = 0
    dual = lambda v, a: mk('adt', DUAL, 0, v, a)
    OPS = {'Add': (lambda a, da, b, db: (add(a, b), add(da, db))), 'Sub': (lambda a, da, b, db: (sub(a, b), sub(da, db))),
           'Mul': (lambda a, da, b, db: (mul(a, b), add(mul(da, b), mul(a, db)))),
           'Div': (lambda a, da, b, db: (div(a, b), div(sub(mul(da, b), mul(a, db)), mul(b, b))))}
    def isdual(t):
        while t[0] == 'ref': t = t[1]
        return t[0] == 'adt' and t[1] == DUAL
    for im in A.P.impls:
        if not im.trait or not re.match(r'core::ops::arith::', im.trait): continue
        if not any(isdual(t) for t in im.targs): continue
        tr = im.trait.rsplit('::', 1)[1]
        meth, fid = next(iter(im.fns.items()))
        r = A.run(fid, ['self', 'rhs'])
        xs = [r.arg(i) for i in range(len(r.args))]
        rhs = im.targs[1] if len(im.targs) > 1 else None
        key = '%s %s %s' % (ty_show(im.targs[0]), tr, ty_show(rhs) if rhs else '')
        n += 1
        comp = lambda x, t: (field(x, None, 0), field(x, None, 1)) if x.op != 'adt' else (x.a[2], x.a[3])
        def parts(x, t):
            if isdual(t): return comp(x, t)
            return x, ZERO
        if tr == 'Neg':
            a, da = parts(xs[0], im.targs[0])
            rep.eq(key, equal(r.ret, dual(neg(a), neg(da))), fid, 'component-wise negation'); continue
        base = tr[:-6] if tr.endswith('Assign') else tr
        if base not in OPS: rep.add(key, '?', fid, 'no rule for this operator'); continue
        a, da = parts(xs[0], im.targs[0]); b, db = parts(xs[1], rhs)
        got = r.out(0) if tr.endswith('Assign') else r.ret
        v, d = OPS[base](a, da, b, db)
        if got.op != 'adt' or got.a[0] != DUAL:
            rep.add(key, '?', fid, 'result is %s' % show(got)[:160]); continue
        rep.eq(key + ' value', equal(got.a[2], v), fid, 'value of the operation')
        rep.eq(key + ' derivative', equal(got.a[3], d), fid, 'derivative of the operation')
    rep.floor('dual arithmetic operators', n, 8)
    m = 0
    for im in A.P.impls:
        if im.self[0] != 'adt' or im.self[1] != DUAL: continue
        for name, fid in im.fns.items():
            if im.trait == 'core::convert::From':
                r = A.run(fid, ['x']); x = r.args[0]; m += 1
                rep.eq('Dual::from', equal(r.ret, dual(field(x, None, 0) if x.op != 'tup' else x.a[0], field(x, None, 1) if x.op != 'tup' else x.a[1])), fid, 'conversion keeps the components in place')
            elif im.trait is None and name in ('variable', 'constant'):
                r = A.run(fid, ['b']); m += 1; b = r.args[0]
                if r.ret.op != 'adt': rep.add('Dual::' + name, '?', fid, show(r.ret)[:160]); continue
                rep.eq('Dual::%s value' % name, equal(r.ret.a[2], b), fid, 'the value is the buffer')
                e = mk('buf', rigid.shape_of(r.ip, b), lam(fresh(), ONE if name == 'variable' else ZERO))
                rep.eq('Dual::%s derivative' % name, equal(r.ret.a[3], e), fid, 'unit (variable) or zero (constant) derivative of the same shape')
            elif im.trait is None and name == 'conj':
                r = A.run(fid, ['d']); m += 1; x = r.arg(0)
                if r.ret.op != 'adt': rep.add('Dual::conj', '?', fid, show(r.ret)[:160]); continue
                rep.eq('Dual::conj value', equal(r.ret.a[2], x.a[2]), fid, 'the value is kept')
                sh = rigid.shape_of(r.ip, x.a[3])
                rep.eq('Dual::conj derivative', equal(r.ret.a[3], rigid.mkbuf(r.ip, sh, lambda ix: neg(rigid.elem(r.ip, x.a[3], ix)))), fid, 'the derivative is negated')
            elif im.trait is None and name == 'map':
                r = A.run(fid, ['d', 'f']); m += 1; x = r.arg(0)
                c = mk('call', r.args[1], x.a[2], x.a[3])
                rep.eq('Dual::map', equal(r.ret, dual(field(c, None, 0), field(c, None, 1))), fid, 'value and derivative are passed and returned in place')
            elif im.trait is None:
                # an accessor returns the component it is named after
                r = A.run(fid, ['d']); x = r.arg(0)
                for nm, comp_ in (('value', 0), ('adjoint', 1)):
                    if name in (nm, nm + '_ref', nm + '_mut', 'into_' + nm) and x.op == 'adt':
                        rep.eq('Dual::' + name, equal(r.ret.a[0] if r.ret.op == 'refv' else r.ret, x.a[2 + comp_]), fid, 'accessor')
    rep.floor('dual constructors and conversions', m, 3)

# ------------------------------------------------------------------ C24
BUILD = {'add': ('Add', 2), 'sub': ('Sub', 2), 'mul': ('Mul', 2), 'div': ('Div', 2), 'dot': ('Contract', 2), 'abs': ('Abs', 1), 'neg': ('Negate', 1),
         'pow': ('Power', 2), 'ln': ('Ln', 1), 'squared': ('Square', 1), 'square': ('Square', 1), 'sum': ('Sum', 1), 'sigmoid': ('Sigmoid', 1),
         'cached': ('Cached', 2), 'into_var': ('Variable', 1), 'exp': ('Exp', 1), 'double': ('Double', 1), 'sign': ('Sign', 1)}
BUILD_AXES = {'dot': 1, 'tensor_product': 0, 'double_dot': 2}

def build_match(A, name, rt, ret, args):
    want, n = BUILD[name]
    if ret.op != 'adt': return '?', 'result is %s' % show(ret)[:160]
    got = ret.a[0].rsplit('::', 1)[1]
    if got != want: return 'no', 'builds %s instead of %s' % (got, want)
    if name in BUILD_AXES and rt is not None:
        a = next((x for x in rt[2] if x[0] == 'cval'), None)
        if a is not None and int(str(a[1]).split('_')[0]) != BUILD_AXES[name]: return 'no', 'contracts %s axes instead of %d' % (a[1], BUILD_AXES[name])
    ops = list(ret.a[2:])
    if len(ops) != len(args): return '?', 'arity'
    for i, (o, a) in enumerate(zip(ops, args)):
        r = equal(o, a)
        if r[0] != 'yes': return r[0], 'operand %d is %s instead of argument %d' % (i, show(o)[:80], i)
    return 'yes', ''

def ret_ty(fn): return tup(fn.body['locals'][0])

def c24(A, rep, tier):
    n = 0
    for tr in ('aegir::Node', ID):
        for it in A.P.traits[tr]['items']:
            if it[0] != 'fn': continue
            for fid in [tr + '::' + it[1]] + [im.fns[it[1]] for im in A.P.by_trait.get(tr, ()) if it[1] in im.fns]:
                if fid not in A.P.fns: continue
                if it[1] not in BUILD: rep.add(fid, '?', fid, 'no rule for a builder of this name'); continue
                fn = A.P.fns[fid]; n += 1
                r = A.run(fid, ['self', 'other'])
                st, msg = build_match(A, it[1], ret_ty(fn), r.ret, [r.arg(i) for i in range(len(r.args))])
                rep.add(fid, st, fid, msg, 'the constructor builds the operator it is named after, operands in order')
    rep.floor('builder methods', n, 10)
    S = sym('self')
    for im in A.P.impls:
        if im.self[0] != 'adt' or not im.self[1].startswith(('aegir::ops', 'aegir::meta')): continue
        nm = im.self[1].rsplit('::', 1)[1]
        if im.trait is None:
            for name, fid in im.fns.items():
                r = A.run(fid, None)
                xs = [r.arg(i) for i in range(len(r.args))]
                x0 = xs[0] if xs else None
                key = '%s::%s' % (nm, name)
                if name == 'new': rep.eq(key, equal(r.ret, mk('adt', im.self[1], 0, *xs)), fid, 'operands in order')
                elif (nm, name) == ('Gamma', 'factorial'):
                    # Gamma(AddOne(n)) = n!
                    rep.eq(key, equal(r.ret, mk('adt', im.self[1], 0, mk('adt', 'aegir::ops::arithmetic::unary::AddOne', 0, xs[0]))), fid, 'n! = Gamma(n + 1)')
                elif (nm, name) == ('Erf', 'complement'): rep.eq(key, denotes(A, r.ret, im.self, ret_ty(A.P.fns[fid]), x0, lambda v: sub(ONE, v)), fid, '1 - erf')
                elif (nm, name) == ('OneSub', 'erfc'): rep.eq(key, equal(r.ret, mk('adt', im.self[1], 0, mk('adt', 'aegir::ops::special::Erf', 0, xs[0]))), fid, '1 - erf')
                else: rep.add(key, '?', fid, 'no rule for a method of this name')
        elif im.trait == 'core::convert::From' and 'from' in im.fns:
            r = A.run(im.fns['from'], ['x'])
            if nm in ('Variable', 'Constant'): rep.eq('%s::from' % nm, equal(r.ret, mk('adt', im.self[1], 0, r.args[0])), im.fns['from'], 'conversion keeps the value')
            else: rep.add('%s::from' % nm, '?', im.fns['from'], 'no rule for this conversion')
    # buffers become constants of that very value
    for fid in ['aegir::buffers::Buffer::into_constant'] + [im.fns['into_constant'] for im in A.P.by_trait.get('aegir::buffers::Buffer', ()) if 'into_constant' in im.fns]:
        if fid not in A.P.fns: continue
        r = A.run(fid, ['self'])
        x = r.arg(0)
        rep.eq(fid, equal(r.ret, mk('adt', 'aegir::meta::constant::Constant', 0, x)), fid, 'a buffer becomes the constant of that value')

def denotes(A, t, selft, rt, x0, f):
    a = denote(A, t, rt); b = f(denote(A, x0, selft))
    return equal(a, b)
