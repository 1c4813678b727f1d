"""Strings as concatenations of literals and displayed operands; transfer functions of the formatting machinery."""
from terms import *
import terms as tm
import stdmodels as sm
from stdmodels import model, M, ok, UNIT, deref_all

def pieces(t):
    if t.op == 'scat': return list(t.a)
    if t.op == 'str' and t.a[0] == '': return []
    return [t]
def cat(*ts):
    out = []
    for t in ts:
        for p in pieces(t):
            if p.op == 'str' and out and out[-1].op == 'str': out[-1] = string(out[-1].a[0] + p.a[0])
            else: out.append(p)
    if not out: return string('')
    return out[0] if len(out) == 1 else mk('scat', *out)
tm.BUILD['scat'] = cat

def chr_text(c):
    if c.op == 'chr' and c.a[0].__class__ is not T: return string(chr(int(c.a[0])) if not isinstance(c.a[0], str) else c.a[0])
    if c.op == 'num': return string(chr(int(c.a[0])))
    return mk('chr', c)

def render(ip, kind, ty, x, st, pc, c):
    """text of a value of type ty under Display/Debug"""
    v = under(ip.deep(deref_all(ip, x, st, pc), st), pc)
    while ty[0] == 'ref': ty = ty[1]
    if kind == 'display':
        if ty[0] == 'prim' and ty[1] in ('str',) or ty[0] == 'adt' and ty[1] == 'alloc::string::String': return v
        if ty[0] == 'prim' and ty[1] == 'char': return chr_text(v)
        if ty[0] == 'prim' and v.op == 'num': return string(show(v))
        if ty[0] == 'adt' and ty[1] in ('core::fmt::Arguments',): return v
        got = ip.env.find_impl('core::fmt::Display', (ty,))
        if got:
            im, sub = got
            tf = ip.prog.fns.get(im.fns.get('fmt'))
            if tf is not None:
                k = ('fmtbuf', len(st), c.span, ip.calls)
                s2 = dict(st); s2[k] = string('')
                r, s3, cc = ip.invoke(tf, dict(sub), [mk('refv', v), mk('ref', k)], s2, pc, c.span)
                return s3[k]
    if kind == 'debug' and ty[0] == 'adt':
        got = ip.env.find_impl('core::fmt::Debug', (ty,))
    return mk('disp', kind, v)

def template(ip, t, args, st, pc, c):
    """core's compact encoding of format_args!"""
    b = [int(x.a[0]) for x in t.a]; i = 0; out = []; nxt = 0
    while i < len(b):
        n = b[i]; i += 1
        if n == 0: break
        if n < 0x80: out.append(string(bytes(b[i:i + n]).decode('utf-8', 'replace'))); i += n; continue
        if n == 0x80:
            ln = b[i] | b[i + 1] << 8; i += 2
            out.append(string(bytes(b[i:i + ln]).decode('utf-8', 'replace'))); i += ln; continue
        opts = n & 0x3f
        if opts & 1: i += 4
        if opts & 2: i += 2
        if opts & 4: i += 2
        if opts & 8: nxt = b[i] | b[i + 1] << 8; i += 2
        a = args[nxt]; nxt += 1
        if opts & ~8: out.append(unk('formatting options'))
        else: out.append(a.a[0])
    return cat(*out)

def arg_model(kind):
    def f(ip, c, st, pc): return mk('fmtarg', render(ip, kind, c.targs[-1], c.a[0], st, pc, c))
    return f
for k in ('display', 'debug', 'lower_exp', 'lower_hex'): M['core::fmt::rt::Argument::new_' + k] = M['std::fmt::rt::Argument::new_' + k] = arg_model(k)

@model('std::fmt::rt::Arguments::new', 'std::fmt::Arguments::new', 'std::fmt::rt::new')
def args_new(ip, c, st, pc):
    t = deref_all(ip, c.a[0], st, pc); a = ip.deep(deref_all(ip, c.a[1], st, pc), st)
    if t.op != 'arrlit' or a.op != 'arrlit': return unk('format arguments')
    return template(ip, t, list(a.a), st, pc, c)
@model('std::fmt::Arguments::from_str', 'std::fmt::rt::Arguments::from_str', 'std::fmt::Arguments::from_str_nonconst', 'std::fmt::rt::from_str')
def args_str(ip, c, st, pc): return deref_all(ip, c.a[0], st, pc)
@model('std::fmt::format', 'std::string::String::from_utf8_lossy')
def fmt_format(ip, c, st, pc): return deref_all(ip, c.a[0], st, pc)
@model('std::hint::must_use')
def must_use(ip, c, st, pc): return c.a[0]

def sink(ip, r, st, pc):
    """the place behind a chain of references"""
    while True:
        v = under(ip.read(r, st, pc), pc)
        if v.op in ('ref', 'rfld', 'rsel'): r = v
        else: return r, v
def append(ip, r, text, st, pc):
    r, v = sink(ip, r, st, pc)
    return ip.write(r, cat(v, text), dict(st), pc)
def istext(t): return t[0] == 'adt' and t[1] in ('alloc::string::String', 'core::fmt::Formatter') or t[0] == 'prim' and t[1] == 'str'

@model('std::fmt::Formatter::write_str', 'std::fmt::Formatter::write_fmt', 'std::fmt::Formatter::pad', 'std::fmt::Write::write_str', 'std::fmt::Write::write_fmt',
       'core::fmt::Write::write_str', 'core::fmt::Write::write_fmt')
def write_str(ip, c, st, pc):
    return ok(UNIT), append(ip, c.a[0], deref_all(ip, c.a[1], st, pc), st, pc)
@model('std::fmt::Formatter::write_char', 'std::fmt::Write::write_char', 'core::fmt::Write::write_char')
def write_char(ip, c, st, pc): return ok(UNIT), append(ip, c.a[0], chr_text(c.a[1]), st, pc)
@model('std::string::String::push_str')
def push_str(ip, c, st, pc): return UNIT, append(ip, c.a[0], deref_all(ip, c.a[1], st, pc), st, pc)
@model('std::string::String::push')
def push_chr(ip, c, st, pc): return UNIT, append(ip, c.a[0], chr_text(c.a[1]), st, pc)
@model('std::string::String::insert')
def insert_chr(ip, c, st, pc):
    r, v = sink(ip, c.a[0], st, pc)
    if c.a[1].op == 'num' and c.a[1].a[0] == 0: return UNIT, ip.write(r, cat(chr_text(c.a[2]), v), dict(st), pc)
    return NotImplemented
@model('std::string::String::insert_str')
def insert_str(ip, c, st, pc):
    r, v = sink(ip, c.a[0], st, pc)
    if c.a[1].op == 'num' and c.a[1].a[0] == 0: return UNIT, ip.write(r, cat(deref_all(ip, c.a[2], st, pc), v), dict(st), pc)
    return NotImplemented
@model('std::string::String::new', 'std::string::String::with_capacity')
def str_new(ip, c, st, pc): return string('')
@model('core::fmt::Display::fmt', 'core::fmt::Debug::fmt', 'std::fmt::Display::fmt', 'std::fmt::Debug::fmt')
def disp_fmt(ip, c, st, pc):
    kind = 'debug' if 'Debug' in c.fid else 'display'
    ty = c.targs[0]
    if kind == 'debug' and ip.env.find_impl('core::fmt::Debug', (ty,)): return NotImplemented
    return ok(UNIT), append(ip, c.a[1], render(ip, kind, ty, c.a[0], st, pc, c), st, pc)
@model('alloc::string::ToString::to_string', 'std::string::ToString::to_string')
def to_string(ip, c, st, pc): return render(ip, 'display', c.targs[0], c.a[0], st, pc, c)
@model('alloc::borrow::ToOwned::to_owned', 'std::borrow::ToOwned::to_owned', 'std::str::to_owned', 'std::string::String::as_str', 'std::string::String::as_mut_str')
def to_owned(ip, c, st, pc):
    if c.fid.endswith('to_owned') and not istext(c.targs[0] if c.targs else ('x',)): return NotImplemented
    r = deref_all(ip, c.a[0], st, pc)
    return mk('refv', r) if 'as_' in c.fid.rsplit('::', 1)[1] else r
@model('std::vec::concat', 'std::slice::concat', 'std::slice::join')
def concat_(ip, c, st, pc):
    a = ip.deep(deref_all(ip, c.a[0], st, pc), st)
    if a.op != 'arrlit': return NotImplemented
    xs = [deref_all(ip, x, st, pc) for x in a.a]
    sep = deref_all(ip, c.a[1], st, pc) if len(c.a) > 1 else string('')
    out = []
    for i, x in enumerate(xs):
        if i: out.append(sep)
        out.append(x)
    return cat(*out)
@model('std::str::starts_with', 'std::str::ends_with')
def starts_with(ip, c, st, pc):
    x = deref_all(ip, c.a[0], st, pc); p = deref_all(ip, c.a[1], st, pc)
    p = chr_text(p) if p.op == 'chr' else p
    end = c.fid.endswith('ends_with')
    if x.op == 'str' and p.op == 'str': return TRUE if (x.a[0].endswith(p.a[0]) if end else x.a[0].startswith(p.a[0])) else FALSE
    return mk('batom', 'endswith' if end else 'startswith', x, p)

_add = M.get('std::ops::Add::add')
@model('std::ops::Add::add')
def str_add(ip, c, st, pc):
    if not c.targs or not istext(c.targs[0]): return _add(ip, c, st, pc)
    return cat(deref_all(ip, c.a[0], st, pc), deref_all(ip, c.a[1], st, pc))
_adda = M.get('std::ops::AddAssign::add_assign')
@model('std::ops::AddAssign::add_assign')
def str_add_assign(ip, c, st, pc):
    if not c.targs or not istext(c.targs[0]): return _adda(ip, c, st, pc) if _adda else NotImplemented
    return UNIT, append(ip, c.a[0], deref_all(ip, c.a[1], st, pc), st, pc)

@model('std::string::String::len', 'std::str::len')
def str_len(ip, c, st, pc):
    v = deref_all(ip, c.a[0], st, pc)
    return num(len(v.a[0].encode())) if v.op == 'str' else mk('tlen', v)
@model('std::string::String::is_empty', 'std::str::is_empty')
def str_is_empty(ip, c, st, pc): return eq(str_len(ip, c, st, pc), ZERO)
@model('std::string::String::reserve', 'std::string::String::shrink_to_fit')
def str_reserve(ip, c, st, pc): return UNIT
