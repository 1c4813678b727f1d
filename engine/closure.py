"""C22: closure of the operator family under differentiation, decided by trait resolution over the impl tables."""
from mir import *
from nodes import FN
DIFF = 'aegir::Differentiable'; ADJ = DIFF + '::Adjoint'; TOEXPR = 'aegir::fmt::ToExpr'; CONT = 'aegir::Contains'; NODE = 'aegir::Node'; ID = 'aegir::Identifier'
CLONE = 'core::clone::Clone'; DISPLAY = 'core::fmt::Display'; READ = 'aegir::Read'; WRITE = 'aegir::Write'; CTX = 'aegir::Context'
# what every operand is assumed to offer: neither Copy nor comparison, which vectors and closures lack
GOOD = {DIFF, TOEXPR, CONT, NODE, FN, CLONE, 'core::marker::Sized', DISPLAY}
COPY = 'core::marker::Copy'
F64 = ('prim', 'f64')
T = ('param', '$T', 900); C = ('param', '$C', 901)
def operand(i): return ('param', '$N%d' % i, 910 + i)
def ident(i): return ('param', '$I%d' % i, 940 + i)

class Closed(Env):
    """trait resolution in which operand types are differentiable to every order, displayable and evaluate to `val`"""
    def __init__(self, prog, val):
        super().__init__(prog, ())
        self.val = val; self.why = []
    def good(self, t):
        if t[0] == 'param' and t[1].startswith('$N'): return True
        return t[0] == 'proj' and t[1] == ADJ and len(t[2]) == 2 and self.good(t[2][0])
    def _norm(self, ty, depth):
        if ty[0] == 'proj':
            args = tuple(self.norm(x, depth + 1) for x in ty[2])
            if self.good(args[0]):
                if ty[1] == FN + '::Value': return self.val
                return ('proj', ty[1], args)
            if args[0] == C and ty[1] == READ + '::Buffer': return F64 if args[1] == T else self.val   # differentiation with respect to a scalar: adjoints keep the shape
        return super()._norm(ty, depth)
    def holds(self, trait, args, depth=0):
        t = self.norm(args[0])
        if depth > 60: return False
        if self.good(t): ok = trait in GOOD
        elif t == C: ok = trait in (CTX, READ, WRITE) or trait.startswith('core::')
        elif t[0] == 'param' and t[1][0] == '$': ok = trait == ID or trait.startswith('core::')
        elif trait in (CLONE, COPY) and t[0] == 'adt' and self.prog.adts.get(t[1], {}).get('local'):
            ok = any(self.match(im, (t,), depth) for im in self.prog.by_trait.get(trait, ()))
        elif trait == COPY and t[0] == 'adt': ok = t[1] not in OWNING and all(self.holds(COPY, (x,), depth + 1) for x in t[2] if x[0] in ('adt', 'prim', 'array', 'tuple', 'param'))
        elif trait == COPY and t[0] == 'array': ok = self.holds(COPY, (t[1],), depth + 1)
        elif not trait.startswith('aegir::'): ok = True
        elif t[0] == 'adt':
            args = tuple(self.norm(x) for x in args)
            ok = any(self.match(im, args, depth) for im in self.prog.by_trait.get(trait, ()))
        else: ok = super().holds(trait, args, depth)
        if not ok: self.why.append('%s: %s' % (ty_show(t), trait.rsplit('::', 1)[1]))
        return ok
    def match(self, im, args, depth):
        sub = {}
        if len(im.targs) != len(args) or not all(unify(p, a, sub) for p, a in zip(im.targs, args)): return False
        self.complete(im, sub, depth)
        for p in im.preds:
            if p[0] == 'trait':
                if p[1] == 'core::marker::Sized': continue
                a = tuple(self.norm(ty_subst(x, sub)) for x in p[2])
                if not self.holds(p[1], a, depth + 1): return False
            elif p[0] == 'proj' and not any(self.open_(x) for x in (ty_subst(p[3], sub),)):
                l = self.norm(('proj', p[1], tuple(ty_subst(x, sub) for x in p[2]))); r = self.norm(ty_subst(p[3], sub))
                if l != r and l[0] != 'proj' and r[0] != 'proj': self.why.append('%s is %s, not %s' % (p[1].rsplit('::', 1)[1], ty_show(l), ty_show(r))); return False
        return True
    def open_(self, t):
        if t[0] == 'param': return t[1][0] != '$'
        return any(self.open_(x) if (x and x[0].__class__ is str) else any(self.open_(y) for y in x) for x in t[1:] if x.__class__ is tuple and x)

OWNING = ('alloc::vec::Vec', 'alloc::string::String', 'alloc::boxed::Box')
def heads(t, prog):
    """local operator types occurring in a type"""
    out = set()
    def go(t):
        if t[0] == 'adt':
            if prog.adts.get(t[1], {}).get('local'): out.add(t[1])
            for x in t[2]: go(x)
        elif t[0] == 'proj':
            for x in t[2]: go(x)
    go(t); return out

def arr(t, n): return ('array', t, ('cval', str(n)))
VEC = ('adt', 'alloc::vec::Vec', (F64, ('adt', 'alloc::alloc::Global', ())))
BUFFERS = [('scalars', F64), ('vectors', arr(F64, 3)), ('matrices', arr(arr(F64, 2), 3)), ('dynamic vectors', VEC)]

def c22(A, rep, tier):
    P = A.P
    nodes = sorted({im.targs[0][1] for im in P.by_trait.get(NODE, ()) if im.targs[0][0] == 'adt' and P.adts[im.targs[0][1]].get('local') and im.targs[0][1].startswith('aegir::')})
    def role(adt, g):
        bounds = set()
        for tr in (NODE, FN, DIFF, CONT):
            for im in A.impl_for_adt(tr, adt):
                for a, x in zip(im.targs[0][2], tup(P.adts[adt]['generics'])):
                    if x == g:
                        for p in im.preds:
                            if p[0] == 'trait' and p[2][0] == a: bounds.add(p[1])
        return 'node' if bounds & {NODE, FN, DIFF, CONT} else 'ident' if ID in bounds else 'buffer' if 'aegir::buffers::Buffer' in bounds else 'node'
    def insts(adt, val):
        gens = tup(P.adts[adt]['generics'])
        for k in ((0, 1, 2) if any(g[0] == 'const' for g in gens) else (None,)):
            out = []
            for i, g in enumerate(gens):
                if g[0] == 'const': out.append(('cval', str(k))); continue
                r = role(adt, g)
                out.append(operand(i) if r == 'node' else ident(i) if r == 'ident' else val)
            yield '' if k is None else '<%d>' % k, ('adt', adt, tuple(out))
    n = m = ev = 0
    CAP = (('is a node', NODE, lambda t: (t,)), ('answers occurrence queries', CONT, lambda t: (t, T)), ('can be displayed', TOEXPR, lambda t: (t,)), ('can be copied', CLONE, lambda t: (t,)))
    for adt in nodes:
        n += 1
        for tag, t in insts(adt, F64):
            name = adt.rsplit('::', 1)[1] + tag
            def has(trait, args, val=F64):
                env = Closed(P, val); return env.holds(trait, args), env.why[:3]
            if not has(DIFF, (t, T))[0]: continue
            m += 1
            env = Closed(P, F64); a = env.norm(('proj', ADJ, (t, T)))
            if a[0] == 'proj' and not env.good(a): rep.add('%s adjoint' % name, '?', adt, 'adjoint type not resolved: %s' % ty_show(a), ''); continue
            def goal(what, trait, args, rule, val=F64):
                ok, why = has(trait, args, val)
                rep.add('%s: adjoint %s' % (name, what), 'yes' if ok else 'no', adt, '' if ok else '%s: needs %s' % (ty_show(a), '; '.join(why)), rule)
            goal('is differentiable', DIFF, (a, T), 'the adjoint of a differentiable graph is differentiable')
            for what, trait, args in CAP:
                if has(trait, args(t))[0]: goal(what, trait, args(a), 'the adjoint of a graph can be displayed, copied and queried wherever the graph can')
        for bname, val in BUFFERS:
            for tag, t in insts(adt, val):
                name = adt.rsplit('::', 1)[1] + tag
                if not has(DIFF, (t, T))[0]: continue
                if val is not F64 and val in t[2]:
                    env = Closed(P, val); a = env.norm(('proj', ADJ, (t, T)))
                    def goal(what, trait, args, rule):
                        ok, why = has(trait, args, val)
                        rep.add('%s over %s: adjoint %s' % (name, bname, what), 'yes' if ok else 'no', adt, '' if ok else '%s: needs %s' % (ty_show(a), '; '.join(why)), rule)
                    goal('is differentiable', DIFF, (a, T), 'the adjoint of a differentiable graph is differentiable')
                    for what, trait, args in CAP:
                        if has(trait, args(t))[0]: goal(what, trait, args(a), 'the adjoint of a graph can be displayed, copied and queried wherever the graph can')
                if not has(FN, (t, C), val)[0]: continue
                ev += 1
                env = Closed(P, val); a = env.norm(('proj', ADJ, (t, T)))
                ok, why = has(FN, (a, C), val)
                rep.add('%s: adjoint evaluates over %s' % (name, bname), 'yes' if ok else 'no', adt, '' if ok else '%s: needs %s' % (ty_show(a), '; '.join(why)), 'the adjoint of an evaluable graph evaluates over the same buffers')
    rep.floor('operators', n, 30); rep.floor('differentiable operators', m, 20); rep.floor('evaluable operator/buffer pairs', ev, 40)
