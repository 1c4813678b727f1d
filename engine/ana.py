"""Running the abstract interpreter on one root function with symbolic arguments of its types."""
from terms import *
import terms as tm
from mir import *
import interp, stdmodels, loops, algebra, rigid, signal, text, models2
from rigid import Cfg
from algebra import limit, Stop

ID = 'aegir::Identifier'

def mkval(ip, t, name, dep=None):
    """symbolic value of type t"""
    t = ip.env.norm(t)
    k = t[0]
    base = dep if dep is not None else sym(name)
    if k == 'array':
        n = ip.ty_const(t[2])
        v = fresh()
        if dep is None: base = sym(name, 'arr')
        if n.op != 'num': return arr(n, lam(v, mkval(ip, t[1], name, sel(base, v))))
        return arrlit(*[mkval(ip, t[1], name, sel(base, num(i))) for i in range(int(n.a[0]))])
    if k == 'tuple':
        return mk('tup', *[mkval(ip, x, '%s.%d' % (name, i), None if dep is None else field(dep, None, i)) for i, x in enumerate(t[1])])
    if k == 'prim' and t[1] in ('usize', 'u64', 'u32', 'u16', 'u8', 'u128'): algebra.INTS.add(algebra.root(base))
    if k == 'prim' and t[1] == 'bool': return mk('batom', 'bool', base)
    if k == 'adt':
        a = ip.prog.adts.get(t[1])
        if t[1].endswith('::Vec') and dep is None:
            base = sym(name, 'arr'); v = fresh()
            if interp.SMALL is not None: return arrlit(*[mkval(ip, t[2][0], name, sel(base, num(i))) for i in range(interp.SMALL('vec ' + name))])
            return arr(mk('alen', base), lam(v, mkval(ip, t[2][0], name, sel(base, v))))
        if a and not a.get('enum') and a.get('local'):
            return ip.adt(t, 0, *[mkval(ip, ip.field_ty(t, 0, i), '%s.%s' % (name, f[0]), None if dep is None else field(dep, None, i))
                                  for i, f in enumerate(a['variants'][0][1])])
        if a and a.get('enum') and len(a['variants']) == 1 and False: pass
    if k == 'ref': return mk('refv', mkval(ip, t[1], name, dep))
    if ip.cfg_r is not None and (k in ('param', 'proj')) and rigid.isscalar(ip, t) and dep is None and not ip.cfg_r.scalar: return mk('sval', base)
    return base

class Res:
    """result of analysing one root function"""
    def __init__(self, ip, fn, ret, st, cond, args, st0):
        self.ip = ip; self.fn = fn; self.ret = ret; self.st = st; self.cond = cond; self.args = args; self.st0 = st0
        self.obls = ip.obls; self.notes = ip.notes
    def arg(self, i):
        a = self.args[i]
        return self.st0.get(a.a[0]) if a.op == 'ref' else (a.a[0] if a.op == 'refv' else a)
    def out(self, i):
        a = self.args[i]
        return self.st.get(a.a[0]) if a.op == 'ref' else None
    def events(self):
        e = self.st.get('#ev', mk('ev0'))
        return e

def is_ctx_param(fn, t):
    """a parameter type bounded by AsMut<C> or C: Context behind a reference"""
    if t[0] == 'ref': return is_ctx_param(fn, t[1])
    if t[0] != 'param': return False
    return any(p[0] == 'trait' and p[1] in ('core::convert::AsMut', 'aegir::Context') and p[2][0] == t for p in fn.preds)

class Ana:
    def __init__(self, paths):
        self.P = Prog(paths)
        self.visited = set(); self.runs = 0; self.nobl = 0; self.allnotes = []; self.stopped = []; self.root_s = 90
    def ip(self, fn, forms=None, scalar=False, extra=None, preds=None):
        ex = dict(rigid.EXTRA); ex.update(extra or {})
        ip = interp.Interp(self.P, Env(self.P, fn.preds if preds is None else preds), stdmodels.Models(self.P, ex))
        ip.cfg_r = Cfg(forms, scalar)
        return ip
    def run(self, fid, names=None, concrete=None, forms=None, scalar=False, extra=None, sub=None, preds=None):
        fn = self.P.fns[fid]
        ip = self.ip(fn, forms, scalar, extra, preds)
        st = {}; args = []
        concrete = concrete or {}
        for i in range(fn.body['argc']):
            t = ip.env.norm(ty_subst(tup(fn.body['locals'][i + 1]), sub) if sub else tup(fn.body['locals'][i + 1]))
            nm = (names[i] if names and i < len(names) else fn.body['names'].get(i + 1) if isinstance(fn.body.get('names'), dict) else None) or 'a%d' % i
            if i in concrete:
                v = concrete[i](ip) if callable(concrete[i]) else concrete[i]
                if t[0] == 'ref' and v.op not in ('ref', 'refv'):
                    if t[2]: st[('arg', i)] = v; v = mk('ref', ('arg', i))
                    else: v = mk('refv', v)
                args.append(v); continue
            if is_ctx_param(fn, t):
                st['ctx'] = sym('ctx'); args.append(mk('ref', 'ctx')); continue
            if t[0] == 'ref':
                v = mkval(ip, t[1], nm)
                if t[2]:
                    st[('arg', i)] = v; args.append(mk('ref', ('arg', i)))
                else: args.append(mk('refv', v))
            else: args.append(mkval(ip, t, nm))
        st0 = dict(st)
        algebra.RANGES.update(ip.ranges)
        try:
            with limit(self.root_s):
                r, st2, c = ip.run_body(fn, fn.body, sub or {}, args, st, TRUE)
        except (Exception, RecursionError) as e:
            r = mk('unk', 'analysis of %s stopped: %s' % (fid, repr(e)[:120])); st2 = {k: mk('unk', 'stopped') for k in st}; c = mk('unk', 'stopped')
            self.stopped.append((fid, repr(e)[:200]))
        algebra.RANGES.update(ip.ranges)
        self.runs += 1; self.nobl += len(ip.obls); self.visited |= ip.visited; self.visited.add(fid)
        self.allnotes += ip.notes
        R = Res(ip, fn, r, st2, c, args, st0); R.sub = sub or {}; return R
    # ---- queries
    def impls(self, trait, selfpat=None):
        for im in self.P.by_trait.get(trait, ()):
            if selfpat is None or re.search(selfpat, ty_show(im.targs[0])): yield im
    def impl_for_adt(self, trait, adt):
        return [im for im in self.P.by_trait.get(trait, ()) if im.targs[0][0] == 'adt' and im.targs[0][1] == adt]
import re
