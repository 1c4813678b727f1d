"""Checks over the concrete buffer families: arrays of rank 1-5, vectors, pairs and scalars."""
import itertools
from terms import *
import terms as tm
from mir import *
from ana import Ana, mkval
import rigid, algebra, loops, stdmodels as sm
from rigid import RAW, FULL, DIAG, SPEC, S0, INC
from algebra import equal, decide
from nodes import FORMS, is_ok, is_err, leaves_of, map_ok

BU = 'aegir::buffers::'
CLASS, BUFFER, SHAPED = BU + 'Class', BU + 'Buffer', BU + 'shapes::Shaped'
ZF, ZM, ZU, CT = BU + 'ZipFold', BU + 'ZipMap', BU + 'ZipMut', BU + 'Contract'
SH = BU + 'shapes::'

# ------------------------------------------------------------------ views
class View:
    """how a buffer type is indexed: rank, extents, element access, index and shape values"""
    def __init__(self, ip, t):
        self.ip = ip; t = ip.env.norm(t); self.t = t
        if t[0] == 'array':
            self.kind = 'array'; d = []; x = t
            while x[0] == 'array': d.append(ip.ty_const(x[2])); x = ip.env.norm(x[1])
            self.sdims = d; self.rank = len(d); self.field = x
        elif t[0] == 'tuple' and len(t[1]) == 2: self.kind = 'pair'; self.rank = 1; self.sdims = [num(2)]; self.field = t[1][0]
        elif t[0] == 'adt' and t[1].endswith('::Vec'): self.kind = 'vec'; self.rank = 1; self.sdims = None; self.field = t[2][0]
        elif t[0] == 'ref': raise ValueError('reference')
        elif t[0] in ('prim', 'param', 'proj'): self.kind = 'scalar'; self.rank = 0; self.sdims = []; self.field = t
        else: raise ValueError('unknown buffer family %s' % ty_show(t))
    def dims(self, v):
        return self.sdims if self.sdims is not None else [alen(v)]
    def el(self, v, js):
        if v.op == 'ite': return ite(v.a[0], self.el(v.a[1], js), self.el(v.a[2], js))
        if v.op in ('bot', 'unk'): return v
        if self.kind == 'pair':
            if v.op != 'tup': return mk('pairel', v, js[0])
            return ite(eq(js[0], ZERO), v.a[0], v.a[1])
        for j in js: v = sel(v, j)
        return v
    def dims_ok(self, v):
        """the extents the value itself has (arrays built by the analysed code carry their own)"""
        if v.op == 'ite': return algebra.conj([self.dims_ok(v.a[1]), self.dims_ok(v.a[2])])
        if self.kind == 'array':
            out = []
            for d in self.sdims:
                out.append(equal(alen(v), d)); v = sel(v, ZERO)
            return algebra.conj(out)
        return ('yes', None)
    def ix(self, js):
        if self.rank == 0: return mk('tup')
        if self.kind in ('pair',) or (self.kind == 'array' and self.rank == 1): return js[0]
        return arrlit(*js)
    def shape(self, v):
        if self.kind == 'scalar': return S0
        if self.kind == 'vec': return mk('adt', SH + 'runtime::SDynamic', 0, arrlit(alen(v)))
        return mk('adt', SH + 'compiled::S%d' % self.rank, 0)
    def js(self, v):
        js = [fresh() for _ in range(self.rank)]
        for j, d in zip(js, self.dims(v)): self.ip.ranges[j] = (ZERO, d); algebra.RANGES[j] = (ZERO, d)
        return js
    def name(self): return ty_show(self.t)

def elcmp(view, got, expect, c=TRUE):
    """got is a buffer of this family whose element at every index js is expect(js)"""
    if algebra.find_unk(got) is not None and got.op == 'unk': return ('?', 'unanalysed: %s' % show(got)[:120])
    r = [view.dims_ok(got)]
    if view.kind == 'pair':
        for j in (ZERO, ONE): r.append(eq_under(c, view.el(got, [j]), expect([j])))
    else:
        js = view.js(got)
        r.append(eq_under(c, view.el(got, js), expect(js)))
    return algebra.conj(r)
def eq_under(c, a, b):
    """a = b whenever c"""
    if c is TRUE: return equal(a, b)
    return equal(ite(c, a, b), b)

def impls_of(A, tr):
    return A.P.by_trait.get(tr, ())

def run_trait(A, im, tr, me, names=None, concrete=None):
    """method `me` of impl `im`, or the provided method of the trait specialised to it"""
    f = im.fns.get(me)
    if f: return A.run(f, names, concrete), f
    d = tr + '::' + me; t = A.P.traits[tr]; fn = A.P.fns.get(d)
    if fn is None: return None, d
    sub = {g[2]: x for g, x in zip(t['generics'], im.targs)}
    # renumber: impl parameters are kept apart from the method's own by name
    return A.run(d, names, concrete, sub=sub, preds=tuple(im.preds) + tuple(psub(p, sub) for p in fn.preds)), d
def psub(p, sub):
    return p

def cname(im): return '<%s>' % ', '.join(ty_show(t) for t in im.targs)

# ------------------------------------------------------------------ C12
def class_buffer(ip, im):
    """type of the buffer built by a Class impl, for field F"""
    b = im.types['Buffer']
    return b

def subset_arg(fn):
    def mkit(ip):
        it = None
        for p in fn.preds:
            if p[0] == 'proj' and p[1].endswith('Iterator::Item'): it = ip.env.norm(p[3])
        S = sym('subset', 'arr'); k = fresh()
        if it is not None and it[0] == 'array': e = arrlit(*[sel(sel(S, k), num(i)) for i in range(int(ip.ty_const(it[2]).a[0]))])
        elif it is not None and it[0] == 'tuple': e = mk('tup')
        else: e = sel(S, k)
        return mk('seq', lam(k, e), ZERO, alen(S))
    return mkit
def subset_hit(view, js):
    S = sym('subset', 'arr'); k = fresh()
    if view.rank == 0: return lt(ZERO, alen(S))
    if view.ix(js) is js[0]: c = eq(sel(S, k), js[0])
    else: c = band(*[eq(sel(sel(S, k), num(i)), j) for i, j in enumerate(js)])
    return loops.any_(alen(S), lam(k, c))

def ret_view(r):
    """view of the buffer type a run returns (looking through Result)"""
    t = r.ip.env.norm(ty_subst(tup(r.fn.body['locals'][0]), r.sub))
    if t[0] == 'adt' and t[1].endswith('::Result'): t = t[2][0]
    return t

def c12(A, rep, tier):
    n = 0
    f = sym('f', 'fn'); g = sym('active', 'fn')
    for im in impls_of(A, CLASS):
        n += 1
        for me in ('build', 'build_subset', 'full', 'zeroes', 'ones', 'diagonal', 'identity'):
            fid = im.fns.get(me) or CLASS + '::' + me
            if fid not in A.P.fns: continue
            names = {'build': ['shape', 'f'], 'build_subset': ['shape', 'base', 'subset', 'active'], 'full': ['shape', 'value'], 'diagonal': ['shape', 'value']}.get(me, ['shape'])
            conc = {'build': {1: f}, 'build_subset': {2: subset_arg(A.P.fns[im.fns[me]]) if me in im.fns else None, 3: g}}.get(me, {})
            r, fid = run_trait(A, im, CLASS, me, names, conc)
            ip = r.ip
            bt = ip.env.norm(ty_subst(tup(r.fn.body['locals'][0]), r.sub))
            try: view = View(ip, bt)
            except ValueError as e:
                rep.add('%s::%s' % (cname(im), me), '?', fid, str(e)); continue
            shape = r.args[0]
            val = r.args[1] if me in ('full', 'diagonal', 'build_subset') else None
            exp = {'build': lambda js: mk('call', f, view.ix(js)),
                   'build_subset': lambda js: ite(subset_hit(view, js), mk('call', g, view.ix(js)), val),
                   'full': lambda js: val, 'zeroes': lambda js: ZERO, 'ones': lambda js: ONE,
                   'diagonal': lambda js: ite(diagc(js), val, ZERO), 'identity': lambda js: ite(diagc(js), ONE, ZERO)}[me]
            res = elcmp(view, r.ret, exp)
            if view.kind == 'vec':
                res = algebra.conj([res, equal(alen(r.ret), sel(shape.a[2], ZERO))])
            rep.eq('%s::%s' % (cname(im), me), res, fid, 'each element of the constructed buffer is the named one')
    rep.floor('buffer constructor families', n, 4)
    # the provided constructors, for a class nothing else is known about
    k = fresh(); S = sym('shape')
    for me, b in (('full', lambda r: r.args[1]), ('zeroes', lambda r: ZERO), ('ones', lambda r: ONE),
                  ('diagonal', lambda r: ite(mk('batom', 'isdiag', k), r.args[1], ZERO)), ('identity', lambda r: ite(mk('batom', 'isdiag', k), ONE, ZERO))):
        fid = CLASS + '::' + me
        if fid not in A.P.fns: continue
        r = A.run(fid, ['shape', 'value'])
        v = b(r)
        rep.eq('Class::%s provided' % me, equal(r.ret, mk('buf', r.args[0], lam(k, v))), fid, 'the provided constructor names its elements for every class')
    m = 0
    for im in impls_of(A, SHAPED):
        for me in im.fns:
            try: r = A.run(im.fns[me], ['self'])
            except Exception as e: rep.add('%s::%s' % (cname(im), me), '?', im.fns[me], repr(e)[:100]); continue
            t = im.targs[0]
            if t[0] == 'adt' and t[1] == SPEC: continue
            if t[0] == 'ref' or t[0] == 'param' : continue
            try: view = View(r.ip, t)
            except ValueError: continue
            m += 1
            rep.eq('%s::%s' % (cname(im), me), equal(r.ret, view.shape(r.arg(0))), im.fns[me], 'reported shape = extents of the value')
    rep.floor('Shaped families', m, 3)

def diagc(js):
    return band(*[eq(js[0], j) for j in js[1:]]) if len(js) > 1 else TRUE

# ------------------------------------------------------------------ C13
def nest_fold(view, v, init, f2):
    """fold over all elements in index order"""
    dims = view.dims(v)
    if view.rank == 0: return f2(init, v)
    if view.kind == 'pair': return f2(f2(init, v.a[0]), v.a[1])
    def go(i, pre, acc0):
        t = fresh(); acc = fresh()
        algebra.RANGES[t] = (ZERO, dims[i])
        body = f2(acc, view.el(v, pre + [t])) if i == len(dims) - 1 else go(i + 1, pre + [t], acc)
        return loops.fold_of(dims[i], acc0, t, acc, body)
    return go(0, [], init)

def c13(A, rep, tier):
    f = sym('f', 'fn'); n = 0
    for im in impls_of(A, BUFFER):
        t = im.targs[0]
        n += 1
        for me in ('map', 'map_ref', 'mutate', 'fold', 'sum', 'get', 'get_unchecked'):
            nm = {'fold': ['self', 'init', 'f'], 'get': ['self', 'ix'], 'get_unchecked': ['self', 'ix']}.get(me, ['self', 'f'])
            conc = {'map': {1: f}, 'map_ref': {1: f}, 'mutate': {1: f}, 'fold': {2: f}}.get(me, {})
            key = '%s::%s' % (ty_show(t), me)
            fid = im.fns.get(me) or BUFFER + '::' + me
            if fid not in A.P.fns: continue
            r, fid = run_trait(A, im, BUFFER, me, nm, conc)
            view = View(r.ip, t); ip = r.ip
            v = r.arg(0)
            if me in ('map', 'map_ref', 'mutate'):
                got = r.ret if me != 'mutate' else r.out(0)
                js = view.js(v)
                view2 = View(ip, ret_type(r)) if me != 'mutate' else view
                res = elcmp(view2, got, lambda js: mk('call', f, view.el(v, js)))
                if view.kind == 'vec': res = algebra.conj([res, equal(alen(got), alen(v))])
                rep.eq(key, res, fid, 'element at each index = f(element)')
            elif me == 'fold':
                ex = nest_fold(view, v, r.args[1], lambda a, x: mk('call', f, a, x))
                rep.eq(key, equal(r.ret, ex), fid, 'every element visited once, in index order')
            elif me == 'sum':
                ex = nest_fold(view, v, ZERO, lambda a, x: add(a, x))
                rep.eq(key, equal(r.ret, ex), fid, 'sum of all elements')
            elif me in ('get', 'get_unchecked'):
                ixv = r.args[1]
                if view.rank == 0: js = []
                elif view.ix([ixv]) is ixv and ixv.op != 'arrlit' and not (ixv.op == 'arr'): js = [ixv]
                else: js = [sel(ixv, num(i)) for i in range(view.rank)]
                inb = band(*[lt(j, d) for j, d in zip(js, view.dims(v))]) if js else TRUE
                if view.kind == 'pair': inb = bor(eq(js[0], ZERO), eq(js[0], ONE))
                el = view.el(v, js)
                if me == 'get':
                    ex = ite(inb, sm.some(el), sm.none())
                    rep.eq(key, equal(r.ret, ex, nat(js)), fid, 'element exactly for member indices')
                    rep.eq(key + ' total', decide(r.cond, TRUE, nat(js)) if r.cond is not TRUE else ('yes', None), fid, 'checked access never panics')
                else:
                    if r.cond is not TRUE: rep.eq(key + ' total', decide(r.cond, inb, nat(js)), fid, 'access at a member index never panics')
                    rep.eq(key, equal(r.ret, el, nat(js) + tuple((lt(j, d), True) for j, d in zip(js, view.dims(v)))), fid, 'element at the index')
    rep.floor('buffer implementations', n, 10)
    # the provided methods, for a buffer nothing else is known about
    S = sym('self'); shp = mk('bshape', S); k = fresh(); acc = fresh()
    el = lambda i: mk('bel', S, i)
    for me, conc, exp in (
        ('fold', {2: f}, lambda r: loops.fold_of(mk('card', shp), r.args[1], k, acc, mk('call', f, acc, el(mk('ixof', shp, k))))),
        ('map_ref', {1: f}, lambda r: mk('buf', shp, lam(k, mk('call', f, el(k))))),
        ('sum', {}, lambda r: mk('bsum', shp, lam(k, el(k)))),
        ('get', {}, lambda r: ite(mk('batom', 'scontains', shp, r.args[1]), sm.some(el(r.args[1])), sm.none()))):
        fid = BUFFER + '::' + me
        if fid not in A.P.fns: continue
        r = A.run(fid, {'fold': ['self', 'init', 'f'], 'get': ['self', 'ix']}.get(me, ['self', 'f']), concrete=conc)
        rep.eq('Buffer::%s provided' % me, equal(r.ret, exp(r)), fid, 'the provided method does for every buffer what the implementations do')
def nat(js): return tuple((lt(j, ZERO), False) for j in js if j.op != 'num')
def ret_type(r):
    t = r.ip.env.norm(ty_subst(tup(r.fn.body['locals'][0]), r.sub))
    return t

# ------------------------------------------------------------------ C14
def zip_expect(vl, vr, a, b, f):
    """(success condition, output view, element function)"""
    if vl.rank and vr.rank:
        okc = band(*[eq(x, y) for x, y in zip(vl.dims(a), vr.dims(b))])
    else: okc = TRUE
    out = vl if vl.rank >= vr.rank else vr
    def elf(js): return mk('call', f, vl.el(a, js if vl.rank else []), vr.el(b, js if vr.rank else []))
    return okc, out, elf

def result_cases(t):
    """(condition, leaf) for the Ok/Err leaves of a Result term"""
    if t.op == 'ite':
        return [(band(t.a[0], c), x) for c, x in result_cases(t.a[1])] + [(band(bnot(t.a[0]), c), x) for c, x in result_cases(t.a[2])]
    return [(TRUE, t)]

def check_result(rep, key, fid, r, okc, err_expect, okcheck, rule, facts=()):
    """Ok exactly under okc with a payload passing okcheck; Err(err_expect) otherwise"""
    for c, x in result_cases(r.ret):
        if x.op == 'unk' or (x.op not in ('adt', 'bot')):
            rep.add(key, '?', fid, 'unanalysed result %s' % show(x)[:100], rule); continue
        if x.op == 'bot': continue
        if is_ok(x):
            rep.eq(key + ' ok', algebra.conj([decide(okc, c, facts), okcheck(x.a[2], c)]), fid, rule)
        else:
            d = decide(bnot(okc), c, facts)
            e = equal(x.a[2], err_expect) if err_expect is not None else ('yes', None)
            rep.eq(key + ' err', algebra.conj([d, e]), fid, rule)

def c14(A, rep, tier):
    f = sym('f', 'fn'); n = {'fold': 0, 'map': 0, 'mut': 0}
    for im in impls_of(A, ZF):
        if 'zip_fold' not in im.fns: continue
        n['fold'] += 1; fid = im.fns['zip_fold']
        r = A.run(fid, ['self', 'rhs', 'init', 'f'], {3: f})
        vl, vr = View(r.ip, im.targs[0]), View(r.ip, im.targs[1])
        a, b = r.arg(0), r.arg(1); key = '%s::zip_fold' % cname(im)
        okc, out, elf = zip_expect(vl, vr, a, b, f)
        def okcheck(x, c):
            ex = nest_zip(vl, vr, a, b, r.args[2], f)
            return eq_under(c, x, ex)
        check_result(rep, key, fid, r, okc, rigid.inc(vl.shape(a), vr.shape(b)), okcheck, 'left and right elements paired at each index, in order', ())
    for im in impls_of(A, ZM):
        for me in ('zip_map', 'zip_map_id', 'zip_shape'):
            if me in im.fns or (ZM + '::' + me) in A.P.fns:
                if me == 'zip_map': n['map'] += 1
                r, fid = run_trait(A, im, ZM, me, ['self', 'rhs', 'f'], {2: f} if me != 'zip_shape' else {})
                ip = r.ip
                vl, vr = View(ip, im.targs[0]), View(ip, im.targs[1])
                a = r.arg(0); key = '%s::%s' % (cname(im), me)
                if me != 'zip_shape':
                    b = r.arg(1)
                    okc, out, elf = zip_expect(vl, vr, a, b, f)
                    err = rigid.inc(vl.shape(a), vr.shape(b))
                else:
                    sh = r.arg(1)
                    rd = vr.sdims if vr.sdims is not None else [sel(sh.a[2], ZERO)]
                    okc = band(*[eq(x, y) for x, y in zip(vl.dims(a), rd)]) if vl.rank and vr.rank else TRUE
                    out = vl if vl.rank >= vr.rank else vr
                    elf = lambda js: vl.el(a, js if vl.rank else [])
                    err = rigid.inc(vl.shape(a), sh)
                def okcheck(x, c):
                    res = elcmp(out, x, elf, c)
                    if out.kind == 'vec':
                        d = alen(a) if vl.kind == 'vec' else (alen(r.arg(1)) if me != 'zip_shape' else sel(r.arg(1).a[2], ZERO))
                        res = algebra.conj([res, eq_under(c, alen(x), d)])
                    return res
                check_result(rep, key, fid, r, okc, err, okcheck, 'left and right elements combined at each index, in order; shape errors name left and right')
    for im in impls_of(A, ZU):
        if 'zip_mut' not in im.fns: continue
        n['mut'] += 1; fid = im.fns['zip_mut']
        r = A.run(fid, ['self', 'rhs', 'f'], {2: f})
        vl, vr = View(r.ip, im.targs[0]), View(r.ip, im.targs[1])
        a, b = r.arg(0), r.arg(1); key = '%s::zip_mut' % cname(im)
        okc, out, elf = zip_expect(vl, vr, a, b, f)
        check_result(rep, key, fid, r, okc, rigid.inc(vl.shape(a), vr.shape(b)), lambda x, c: elcmp(out, r.out(0), elf), 'left and right elements combined in place at each index')
    rep.floor('zip_fold implementations', n['fold'], 12); rep.floor('zip_map implementations', n['map'], 15); rep.floor('zip_mut implementations', n['mut'], 5)

def facts_of(c):
    out = []
    while c.op == 'ite' and (c.a[1] is FALSE or c.a[2] is FALSE):
        if c.a[2] is FALSE: out.append((c.a[0], True)); c = c.a[1]
        else: out.append((c.a[0], False)); c = c.a[2]
    if c is not TRUE and c is not FALSE and c.op != 'ite': out.append((c, True))
    return tuple(out)

def nest_zip(vl, vr, a, b, init, f):
    big, bv = (vl, a) if vl.rank >= vr.rank else (vr, b)
    dims = big.dims(bv)
    pair = lambda js: mk('tup', vl.el(a, js if vl.rank else []), vr.el(b, js if vr.rank else []))
    if big.rank == 0: return mk('call', f, init, pair([]))
    if big.kind == 'pair': return mk('call', f, mk('call', f, init, pair([ZERO])), pair([ONE]))
    def go(i, pre, acc0):
        t = fresh(); acc = fresh()
        algebra.RANGES[t] = (ZERO, dims[i])
        body = mk('call', f, acc, pair(pre + [t])) if i == len(dims) - 1 else go(i + 1, pre + [t], acc)
        return loops.fold_of(dims[i], acc0, t, acc, body)
    return go(0, [], init)

# ------------------------------------------------------------------ C15
def mkspec(ip, view, name, form, base):
    sh = view.shape(base)
    if form == RAW: return mk('adt', SPEC, RAW, base)
    return mk('adt', SPEC, form, sh, sym('sval.' + name))
def spec_el(view, s, js):
    """element of the dense buffer a Spec value stands for"""
    if s.op == 'ite': return ite(s.a[0], spec_el(view, s.a[1], js), spec_el(view, s.a[2], js))
    if s.op in ('bot', 'unk'): return s
    if s.op != 'adt': return unk('spec')
    if s.a[1] == RAW: return view.el(s.a[2], js)
    if s.a[1] == FULL: return s.a[3]
    return ite(diagc(js), s.a[3], ZERO)

def c15(A, rep, tier):
    n = 0
    for im in impls_of(A, CT):
        n += 1
        fid = im.fns.get('contract'); key = cname(im)
        if not fid: rep.add(key, '?', im.id, 'no contract method'); continue
        r = A.run(fid, ['self', 'rhs']); ip = r.ip
        vl, vr = View(ip, im.targs[0]), View(ip, im.targs[1])
        k = ip.ty_const(im.targs[2]); k = int(k.a[0]) if k.op == 'num' else None
        if k is None: rep.add(key, '?', fid, 'symbolic axis count'); continue
        kk = min(k, vl.rank, vr.rank)
        a, b = r.arg(0), r.arg(1)
        dl, dr = vl.dims(a), vr.dims(b)
        rule = 'output[i.., j..] = sum over the shared axes of left[i.., k] * right[k, j..]'
        shared = list(zip(dl[vl.rank - kk:], dr[:kk]))
        okc = band(*[eq(x, y) for x, y in shared]) if shared else TRUE
        if okc is not TRUE:
            rep.add(key + ' extents', 'no', fid, 'contracts an axis of extent %s with one of extent %s' % (show(shared[0][0]), show(shared[0][1])), 'contracted extents agree')
        odims = dl[:vl.rank - kk] + dr[kk:]
        out_t = ip.env.norm(ret_type_ok(r))
        try: vo = View(ip, out_t)
        except ValueError as e: rep.add(key, '?', fid, str(e)); continue
        if vo.rank != len(odims): rep.add(key + ' rank', 'no', fid, 'output has rank %d, expected %d' % (vo.rank, len(odims)), rule); continue
        rep.eq(key + ' output extents', algebra.conj([equal(x, y) for x, y in zip(vo.sdims, odims)]), fid, 'output extents = free extents of left, then of right')
        def elf(ea, eb):
            def g(js):
                li, rj = js[:vl.rank - kk], js[vl.rank - kk:]
                ks = [fresh() for _ in range(kk)]
                for q, (d, _) in zip(ks, shared): algebra.RANGES[q] = (ZERO, d)
                body = mul(ea(li + ks), eb(ks + rj))
                for q, (d, _) in reversed(list(zip(ks, shared))): body = loops.sum_(d, lam(q, body))
                return body
            return g
        for c, x in result_cases(r.ret):
            if is_ok(x): rep.eq(key + '::contract', elcmp(vo, x.a[2], elf(lambda js: vl.el(a, js), lambda js: vr.el(b, js))), fid, rule)
            else: rep.add(key + '::contract', '?' if not is_err(x) else 'no', fid, 'fails: %s' % show(x)[:100], rule)
        f3 = im.fns.get('contract_shape')
        if f3:
            r3 = A.run(f3, ['x', 'y'])
            rep.eq(key + '::contract_shape', equal(r3.ret, sm.ok(mk('adt', SH + 'compiled::S%d' % vo.rank, 0))), f3, 'shape of the output')
        f2 = im.fns.get('contract_spec')
        if not f2: continue
        for fa, fb in itertools.product((RAW, FULL, DIAG), repeat=2):
            ba, bb = {}, {}
            def arg(view_t, nm, form, store):
                def mk_(ip):
                    v = mkval(ip, view_t, nm); store['v'] = v
                    return mkspec(ip, View(ip, view_t), nm, form, v)
                return mk_
            r2 = A.run(f2, ['x', 'y'], {0: arg(im.targs[0], 'x', fa, ba), 1: arg(im.targs[1], 'y', fb, bb)})
            sa, sb = r2.args[0], r2.args[1]
            kx = '%s::contract_spec[%s/%s]' % (key, FORMS[fa], FORMS[fb])
            v2 = View(r2.ip, out_t)
            for c, x in result_cases(r2.ret):
                if x.op == 'bot': continue
                if not is_ok(x): rep.add(kx, '?' if not is_err(x) else 'no', f2, 'fails: %s' % show(x)[:100], rule); continue
                js = v2.js(None if v2.sdims is not None else x)
                g = elf(lambda q: spec_el(vl, sa, q), lambda q: spec_el(vr, sb, q))(js)
                got = spec_el(v2, x.a[2], js)
                rep.eq(kx, eq_under(c, got, g), f2, 'structured contraction densifies to the dense one')
                # every structured leaf names the output shape
                shs = [y.a[2] for y in leaves_of(x.a[2]) if y.op == 'adt' and y.a[1] in (FULL, DIAG)]
                for s in shs: rep.eq(kx + ' shape', equal(s, mk('adt', SH + 'compiled::S%d' % vo.rank, 0)), f2, 'structured result reports the output shape')
    rep.floor('contraction implementations', n, 6)

def ret_type_ok(r):
    t = r.ip.env.norm(ty_subst(tup(r.fn.body['locals'][0]), r.sub))
    if t[0] == 'adt' and t[1].endswith('::Result'): return t[2][0]
    return t
