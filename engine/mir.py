"""Program model: resolved MIR dump, types, trait resolution."""
import json

def tup(x):
    if x.__class__ is list:
        return tuple([tup(y) for y in x])
    return x

class Fn:
    __slots__ = ('id', 'kind', 'span', 'generics', 'preds', 'body', 'promoted', 'unsafe', 'vis', 'crate', 'cfg')
    def __init__(self, d, crate):
        self.id = d['id']; self.kind = d['kind']; self.span = d['span']
        self.generics = tup(d['generics']); self.preds = tup(d['preds'])
        self.body = d['body']; self.promoted = d['promoted']; self.unsafe = d.get('unsafe'); self.vis = d.get('vis')
        self.crate = crate; self.cfg = {}

class Impl:
    def __init__(self, d):
        self.id = d['id']; self.span = d['span']; self.generics = tup(d['generics']); self.preds = tup(d['preds'])
        self.self = tup(d['self']); self.trait = d.get('trait'); self.targs = tup(d['targs']) if d.get('targs') else None
        self.items = tup(d['items'])
        self.fns = {i[1]: i[2] for i in self.items if i[0] == 'fn'}
        self.types = {i[1]: i for i in self.items if i[0] == 'type'}
        self.consts = {i[1]: i for i in self.items if i[0] == 'const'}

class Prog:
    def __init__(self, paths):
        self.defs = {}; self.adts = {}; self.fns = {}; self.impls = []; self.traits = {}; self.consts = {}; self.statics = []
        for p in paths:
            d = json.load(open(p))
            crate = d['crate']
            self.defs.update(d['defs'])
            for k, v in d['adts'].items():
                v['variants'] = tup(v['variants']); v['generics'] = tup(v['generics'])
                if k not in self.adts or v.get('local'):
                    self.adts[k] = v
            for f in list(d['fns']) + list(d.get('ext') or []):
                self.fns[f['id']] = Fn(f, crate)
            for im in d['impls']:
                self.impls.append(Impl(im))
            for t in d['traits']:
                t = dict(t); t['generics'] = tup(t['generics']); t['preds'] = tup(t['preds']); t['items'] = tup(t['items'])
                self.traits[t['id']] = t
            self.statics += d.get('statics') or []
            c = d.get('consts')
            if isinstance(c, list):
                for x in c: self.consts[x['id']] = x
            elif isinstance(c, dict):
                self.consts.update(c)
        self.by_trait = {}
        self.impl_by_id = {}
        self.inherent = {}
        for im in self.impls:
            self.impl_by_id[im.id] = im
            if im.trait:
                self.by_trait.setdefault(im.trait, []).append(im)
            else:
                self.inherent.setdefault(im.self[1] if im.self[0] == 'adt' else im.self[0], []).append(im)
        self._norm = {}
        # blanket index: impls whose self is a bare parameter
    # -------------------------------------------------------------- lookup helpers
    def impl_of_fn(self, fid):
        d = self.defs.get(fid)
        return d and d.get('impl')

    def impls_for(self, trait, selfname=None):
        return [i for i in self.by_trait.get(trait, []) if selfname is None or (i.self[0] == 'adt' and i.self[1].split('::')[-1] == selfname)]

# ------------------------------------------------------------------ types
def ty_subst(ty, sub):
    """sub: param index -> type/const (dict)"""
    if not sub:
        return ty
    t = ty[0]
    if t == 'param':
        return sub.get(ty[2], ty)
    if t == 'cparam':
        return sub.get(ty[2], ty)
    if t in ('prim', 'cval', 'cother', 'other', 'dyn'):
        return ty
    return tuple([ty_subst(x, sub) if x.__class__ is tuple and x and x[0].__class__ is str else
                  (tuple([ty_subst(y, sub) for y in x]) if x.__class__ is tuple else x) for x in ty])

def unify(pat, ty, sub):
    """one-way: parameters of pat are variables"""
    if pat[0] in ('param', 'cparam'):
        k = pat[2]
        if k in sub:
            return sub[k] == ty
        sub[k] = ty
        return True
    if pat[0] != ty[0]:
        return False
    if len(pat) != len(ty):
        return False
    for a, b in zip(pat, ty):
        if a.__class__ is tuple:
            if b.__class__ is not tuple:
                return False
            if a and a[0].__class__ is str:
                if not unify(a, b, sub): return False
            else:
                if len(a) != len(b): return False
                for x, y in zip(a, b):
                    if not unify(x, y, sub): return False
        elif a != b:
            return False
    return True

def ty_show(t):
    k = t[0]
    if k in ('param', 'cparam', 'prim'): return t[1]
    if k == 'cval': return str(t[1])
    if k == 'adt': return t[1].split('::')[-1] + ('<%s>' % ', '.join(ty_show(x) for x in t[2]) if t[2] else '')
    if k == 'ref': return '&' + ty_show(t[1])
    if k == 'array': return '[%s; %s]' % (ty_show(t[1]), ty_show(t[2]))
    if k == 'slice': return '[%s]' % ty_show(t[1])
    if k == 'tuple': return '(%s)' % ', '.join(ty_show(x) for x in t[1])
    if k == 'proj': return '<%s as ..>::%s' % (ty_show(t[2][0]), t[1].split('::')[-1])
    if k in ('closure', 'fndef'): return k + ':' + t[1].split('::')[-2]
    return str(k)

# bounds on associated types of the library's traits (elaborated by hand: they are the trait
# declarations' own item bounds; a wrong entry here could only make resolution fail, i.e. 'undecided')
ITEM_BOUNDS = {
    'aegir::Read::Buffer': ['aegir::buffers::Buffer'],
    'aegir::Function::Value': ['aegir::buffers::Buffer'],
    'aegir::Differentiable::Adjoint': ['aegir::Node'],
    'aegir::buffers::Buffer::Field': ['aegir::buffers::scalars::Scalar'],
    'aegir::buffers::Class::Buffer': ['aegir::buffers::Buffer'],
    'aegir::buffers::ZipMap::Output': ['aegir::buffers::Buffer'],
    'aegir::buffers::Contract::Output': ['aegir::buffers::Buffer'],
    'aegir::buffers::spec::IntoSpec::Buffer': ['aegir::buffers::Buffer'],
    'aegir::buffers::shapes::Shaped::Shape': ['aegir::buffers::shapes::Shape'],
    'aegir::buffers::shapes::Concat::Shape': ['aegir::buffers::shapes::Shape'],
    'aegir::buffers::shapes::Broadcast::Shape': ['aegir::buffers::shapes::Shape'],
    'aegir::buffers::shapes::Split::Left': ['aegir::buffers::shapes::Shape'],
    'aegir::buffers::shapes::Split::Right': ['aegir::buffers::shapes::Shape'],
    'aegir::buffers::shapes::Shape::Index': ['aegir::buffers::shapes::Ix'],
}
COPYLIKE = {'core::marker::Copy', 'core::clone::Clone', 'core::marker::Sized', 'core::marker::MetaSized'}

class Env:
    """parameter environment of the analysed root item, plus the resolver"""
    def __init__(self, prog, preds=()):
        self.prog = prog
        self.traits = []
        self.projs = []
        self.memo = {}
        for p in preds:
            if p[0] == 'trait': self.traits.append((p[1], p[2]))
            elif p[0] == 'proj': self.projs.append((p[1], p[2], p[3]))
        self._elab()

    def _elab(self):
        seen = set(self.traits)
        work = list(self.traits)
        while work:
            t, args = work.pop()
            tr = self.prog.traits.get(t)
            if not tr or len(seen) > 400: continue
            sub = {g[2]: a for g, a in zip(tr['generics'], args)}
            for p in tr['preds']:
                if p[0] == 'trait':
                    q = (p[1], ty_subst(p[2], sub) if False else tuple(ty_subst(x, sub) for x in p[2]))
                    if q not in seen:
                        seen.add(q); work.append(q)
                elif p[0] == 'proj':
                    q = (p[1], tuple(ty_subst(x, sub) for x in p[2]), ty_subst(p[3], sub))
                    if q not in self.projs and q[2] != ('proj', q[0], q[1]):
                        self.projs.append(q)
        self.traits = list(seen)
        # keep only useful (terminating) projection equalities
        self.projmap = {}
        for a, args, ty in self.projs:
            self.projmap.setdefault((a, args), ty)

    # ---- normalisation
    def norm(self, ty, depth=0):
        r = self.memo.get(ty)
        if r is not None: return r
        r = self._norm(ty, depth)
        self.memo[ty] = r
        return r

    def _norm(self, ty, depth):
        if depth > 40: return ty
        k = ty[0]
        if k in ('prim', 'param', 'cparam', 'cval', 'cother', 'other', 'dyn'):
            return ty
        if k == 'proj':
            args = tuple(self.norm(x, depth + 1) for x in ty[2])
            n = ('proj', ty[1], args)
            if (ty[1], args) in self.projmap:
                r = self.projmap[(ty[1], args)]
                return r if r == n else self.norm(r, depth + 1)
            for (a, pargs), r in self.projmap.items():
                if a == ty[1] and tuple(self.norm_args(x, depth + 1) for x in pargs) == args:
                    return r if r == n else self.norm(r, depth + 1)
            trait = ty[1].rsplit('::', 1)[0]; name = ty[1].rsplit('::', 1)[1]
            tr = self.prog.traits.get(trait)
            ng = len(tr['generics']) if tr else None
            targs = args[:ng] if ng is not None else args
            m = self.find_impl(trait, targs, depth + 1)
            if m:
                im, sub = m
                it = im.types.get(name)
                if it:
                    gen = it[4]
                    sub = dict(sub)
                    own = [g for g in gen if g not in im.generics]
                    for g, a in zip(own, args[len(targs):]): sub[g[2]] = a
                    return self.norm(ty_subst(it[3], sub), depth + 1)
            if trait == 'aegir::buffers::Class' and name == 'Buffer' and len(args) == 3:
                # Class<Shape of B, Buffer<Field of B> = B> for B: Buffer  (item bound of Buffer::Class)
                c = args[0]
                if c[0] == 'proj' and c[1] == 'aegir::buffers::Buffer::Class':
                    B = c[2][0]
                    if args[1] == self.norm(('proj', 'aegir::buffers::shapes::Shaped::Shape', (B,)), depth + 1) and \
                       args[2] == self.norm(('proj', 'aegir::buffers::Buffer::Field', (B,)), depth + 1):
                        return B
            if name == 'Field' and args[0][0] == 'proj' and args[0][1] == 'aegir::buffers::Class::Buffer' and len(args[0][2]) == 3:
                return args[0][2][2]
            if name == 'Shape' and trait.endswith('Shaped') and args[0][0] == 'proj' and args[0][1] == 'aegir::buffers::Class::Buffer':
                return args[0][2][1]
            if trait.startswith('aegir::buffers') and self.is_scalar(args[0]):
                if name == 'Field': return args[0]
                if name == 'Shape' and trait.endswith('Shaped'): return ('adt', 'aegir::buffers::shapes::compiled::S0', ())
            return n
        if k == 'adt': return ('adt', ty[1], tuple(self.norm(x, depth + 1) for x in ty[2]))
        if k == 'fndef' or k == 'closure': return (k, ty[1], tuple(self.norm(x, depth + 1) for x in ty[2])) + ty[3:]
        if k == 'tuple': return ('tuple', tuple(self.norm(x, depth + 1) for x in ty[1]))
        if k in ('array',): return ('array', self.norm(ty[1], depth + 1), ty[2])
        if k in ('slice',): return ('slice', self.norm(ty[1], depth + 1))
        if k in ('ref', 'ptr'): return (k, self.norm(ty[1], depth + 1)) + ty[2:]
        return ty

    def norm_args(self, x, depth):
        # avoid loops when the pattern itself mentions the projection being defined
        if depth > 12: return x
        return self.norm(x, depth)

    def is_scalar(self, ty):
        if ty[0] == 'param':
            return ('aegir::buffers::scalars::Scalar', (ty,)) in self.traits
        if ty[0] == 'proj':
            if ty[1] == 'aegir::buffers::Buffer::Field': return True
            return ('aegir::buffers::scalars::Scalar', (ty,)) in self.traits
        return False

    # ---- trait resolution
    def find_impl(self, trait, args, depth=0):
        if depth > 40: return None
        cands = []
        self_ty = args[0]
        for im in self.prog.by_trait.get(trait, ()):
            sub = {}
            if len(im.targs) != len(args): continue
            ok = True
            for p, a in zip(im.targs, args):
                if not unify(p, a, sub):
                    ok = False; break
            if ok: cands.append((im, sub))
        if not cands: return None
        out = []
        for im, sub in cands:
            blanket = im.targs[0][0] == 'param'
            if blanket or len(cands) > 1:
                if self.preds_hold(im, sub, depth): out.append((im, sub))
            else:
                out.append((im, sub))
        if len(out) == 1:
            im, sub = out[0]
            self.complete(im, sub, depth)
            return out[0]
        return None

    def complete(self, im, sub, depth=0):
        """bind impl params that occur only in projection predicates (e.g. F with N::Value: Buffer<Field=F>)"""
        for _ in range(8):
            missing = [g for g in im.generics if g[2] not in sub]
            if not missing: return
            n = len(sub)
            for p in im.preds:
                if p[0] == 'proj' and p[3][0] in ('param', 'cparam') and p[3][2] not in sub:
                    t = ('proj', p[1], tuple(ty_subst(x, sub) for x in p[2]))
                    if any(self.has_param(x, missing) for x in t[2]): continue
                    sub[p[3][2]] = self.norm(t, depth + 1)
                    missing = [g for g in missing if g[2] not in sub]
            if len(sub) == n: return

    def has_param(self, ty, missing):
        ids = {m[2] for m in missing}
        def go(t):
            if t[0] in ('param', 'cparam'): return t[2] in ids
            return any(go(x) if (x and x[0].__class__ is str) else any(go(y) for y in x) for x in t[1:] if x.__class__ is tuple and x)
        return go(ty)

    def preds_hold(self, im, sub, depth):
        sub = dict(sub)
        self.complete(im, sub, depth)
        for p in im.preds:
            if p[0] != 'trait': continue
            if p[1] in COPYLIKE: continue
            args = tuple(self.norm(ty_subst(x, sub), depth + 1) for x in p[2])
            if not self.holds(p[1], args, depth + 1): return False
        return True

    def holds(self, trait, args, depth=0):
        if (trait, args) in self.traits: return True
        t = args[0]
        if t[0] == 'proj':
            for b in ITEM_BOUNDS.get(t[1], ()):
                if b == trait or trait in self.supers(b): return True
        for tr, a in self.traits:
            if tr == trait and tuple(self.norm(x) for x in a) == args: return True
        if t[0] in ('param',):
            if trait == 'aegir::buffers::Buffer' and self.is_scalar(t): return True
            return bool(self.blanket(trait, args, depth))
        if trait.startswith('core::') or trait.startswith('num_traits') or trait.startswith('std') or trait.startswith('alloc'):
            return True
        return self.find_impl(trait, args, depth + 1) is not None

    def blanket(self, trait, args, depth):
        if depth > 10: return False
        return self.find_impl(trait, args, depth + 1) is not None

    def supers(self, trait, seen=None):
        seen = seen if seen is not None else set()
        tr = self.prog.traits.get(trait)
        if not tr or trait in seen: return seen
        seen.add(trait)
        for p in tr['preds']:
            if p[0] == 'trait' and p[2][0] == ('param', 'Self', 0):
                seen.add(p[1]); self.supers(p[1], seen)
        return seen

    def is_rigid(self, ty):
        return ty[0] in ('param', 'proj') or ty[0] in ('alias', 'other')
