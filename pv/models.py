"""Models of the Qt value types and of the small helper functions the analysed code is built on.
A model has the signature  (I, st, ci, this, args, site, m) -> [(state, value)] | None (None: not handled here)."""
from math import inf
from .dom import *

MODELS = {}
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d

BUFROOTS = ('new', 'this', 'o')
# ---- byte buffers ----------------------------------------------------------
def storage(st, loc): 
    v = st.mem.get(loc + ('$st',))
    return v[1] if v is not None else 0
def restore(I, st, loc, site=None, why=''):
    """the buffer owned by loc may now live elsewhere"""
    if loc[0][0] not in BUFROOTS: return
    old = storage(st, loc)
    new = st.fresh('st', loc)
    st.mem[loc + ('$st',)] = ('stk', new)
    if I.mon is not None: I.mon.on_realloc(I, st, loc, old, new, site)
def setstr(I, st, loc, v, realloc=True, site=None):
    st.mem[loc] = v
    if realloc:
        st.mem.pop(loc + ('$cap',), None)
        restore(I, st, loc, site)
def set_size(I, st, loc, n):
    v = I.getstr(st, loc)
    cur = slen(v)
    if I.mon is not None: I.mon.on_setsize(I, st, loc, v, n)
    if n == ZERO: nv = EMPTY
    else:
        d = sub(n, cur)
        pend = st.mem.get(loc + ('$tail',))
        if pend is not None and pend[1] == cur and sub(pend[2], d) == ZERO:
            nv = mkstr(v[1] + pend[3])
        elif pend is not None and pend[1] == cur:
            nv = mkstr(v[1] + slice_str(st, ('s', pend[3]), ZERO, d)[1])
        elif d == ZERO: nv = v
        elif st.decide(cle(n, cur)) is True: nv = slice_str(st, v, ZERO, n)
        else: nv = mkstr(v[1] + (('U', ('grown', v, n), d),))
    st.mem.pop(loc + ('$tail',), None)
    st.mem[loc] = nv
def poke(I, st, p, v, site):
    if p[0] != 'c':
        return
    loc = p[1]
    if I.mon is not None: I.mon.on_poke(I, st, p, v, site)
    cur = I.getstr(st, loc)
    cap_tail(I, st, loc, cur, p[3], (('C', v),) if v[0] == 'i' else (('U', ('pokev', v), ONE),), ONE)
def cap_tail(I, st, loc, cur, off, segs, ln):
    """bytes written at offset off of the buffer: beyond the current size they are remembered for a later size update"""
    n = slen(cur)
    if off == n:
        st.mem[loc + ('$tail',)] = ('tail', n, ln, segs)
    else:
        t = st.mem.get(loc + ('$tail',))
        if t is not None and t[1] == n and add(n, t[2]) == off:
            st.mem[loc + ('$tail',)] = ('tail', n, add(t[2], ln), t[3] + segs)
        elif st.decide(clt(off, n)) is not False and loc[0][0] in ('v', 't') and not (isconst(ln) and ln[1] == 1 and False):
            b = str_lit(cur)
            if b is not None and isconst(off) and 0 <= off[1] < len(b) and len(segs) == 1 and segs[0][0] == 'C':
                st.mem[loc] = mkstr([('L', b[:off[1]]), segs[0], ('L', b[off[1] + 1:])])
            else: st.mem[loc] = ('s', (('U', ('overwritten', st.fresh('ow', loc)), n),))
def slice_str(st, v, off, ln):
    if ln == ZERO: return EMPTY
    tot = slen(v)
    if off == ZERO and (ln == tot): return v
    segs = list(v[1])
    # drop a prefix
    while segs:
        if off == ZERO: break
        g = segs[0]; gl = seglen(g)
        if st.decide(cle(gl, off)) is True:
            off = sub(off, gl); segs.pop(0); continue
        if g[0] == 'L' and isconst(off): segs[0] = ('L', g[1][off[1]:]); off = ZERO; break
        if g[0] == 'V' and st.decide(cle(add(off, ln), gl)) is True:
            return mkstr([('V', g[1], add(g[2], off), ln)])
        if g[0] == 'V': segs[0] = ('V', g[1], add(g[2], off), sub(gl, off)); off = ZERO; break
        return mkstr([('V', ('str', ('s', tuple(segs))), off, ln)])
    out = []; need = ln
    for g in segs:
        gl = seglen(g)
        if st.decide(cle(gl, need)) is True:
            out.append(g); need = sub(need, gl)
            if need == ZERO: break
            continue
        if g[0] == 'L' and isconst(need): out.append(('L', g[1][:need[1]])); need = ZERO; break
        if g[0] == 'V': out.append(('V', g[1], g[2], need)); need = ZERO; break
        out.append(('V', ('str', ('s', (g,))), ZERO, need)); need = ZERO; break
    return mkstr(out)
def char_slice(I, st, p, ln):
    if p[0] == 'cl':
        if isconst(p[2]) and isconst(ln): return lit((p[1] + b'\0')[p[2][1]:p[2][1] + ln[1]])
        return mkstr([('V', ('str', lit(p[1])), p[2], ln)])
    if p[0] == 'cs': return slice_str(st, p[1], p[2], ln)
    if p[0] == 'c': return slice_str(st, I.getstr(st, p[1]), p[3], ln)
    if p[0] == 'n': return EMPTY
    if p[0] == 'p': return mkstr([('V', ('mem', I.keyof(st, p[1][:1])), p[1][-1][1] if isinstance(p[1][-1], tuple) and p[1][-1][0] == '[]' else ZERO, ln)])
    return mkstr([('U', ('slice', p, ln), ln)])
def cstr(I, st, p):
    """content of a NUL-terminated char pointer"""
    if p[0] == 'cl' and isconst(p[2]): return lit(p[1][p[2][1]:])
    if p[0] == 'cs' and p[2] == ZERO: return p[1]
    if p[0] == 'c' and p[3] == ZERO: return I.getstr(st, p[1])
    if p[0] == 'n': return EMPTY
    return opaque_str(('cstr', p))
def strof(I, st, a, pt=None):
    """string value of an argument that is a string, a reference to one, a token or a C string"""
    if a[0] == 's': return a
    if a[0] in ('cl', 'c', 'cs', 'n'): return cstr(I, st, a)
    if a[0] == 'p':
        v = st.mem.get(a[1])
        if v is not None and v[0] == 's': return v
        if v is not None and v[0] == 'cl': return cstr(I, st, v)
        g = token_lit(I, a[1])
        if g is not None: return lit(g)
        if (isinstance(a[1][-1], tuple) and a[1][-1][0] == '[]' and I.kind(pt or '') == 'ptr'): return opaque_str(('cstr', a))
        if v is not None and v[0] == 'agg' and v[1] and v[1][0] == 'token': return lit(v[1][1])
        return I.getstr(st, a[1])
    if a[0] == 'agg':
        if a[1] and a[1][0] == 'token': return lit(a[1][1])
        return opaque_str(('val', a[1]))
    return opaque_str(('str', a))
def token_lit(I, loc):
    if loc[0][0] == 'g':
        g = I.P.globals.get(loc[0][1]); x = (g or {}).get('init')
        if len(loc) == 1 and x and x.get('k') == 'construct' and len(x['a']) == 1 and x['a'][0].get('k') == 'str':
            return x['a'][0]['v'].encode()
    return None
def eqcond(st, a, b):
    if a == b: return True
    la, lb = str_lit(a), str_lit(b)
    if la is not None and lb is not None: return la == lb
    if la is not None: a, b, la, lb = b, a, lb, la
    d = st.decide(ceq(slen(a), slen(b)))
    if d is False: return False
    if lb == b'': return ceq(slen(a), ZERO)
    if lb is not None and len(a[1]) == 1: return atom('eq', a[1][0], lb)
    x, y = sorted((a, b), key=repr)
    return atom('seq', x, y)
def ieqcond(st, a, b):
    if a == b: return True
    la, lb = str_lit(a), str_lit(b)
    if la is not None and lb is not None: return la.lower() == lb.lower()
    if la is not None: a, b, la, lb = b, a, lb, la
    d = st.decide(ceq(slen(a), slen(b)))
    if d is False: return False
    if lb == b'': return ceq(slen(a), ZERO)
    if lb is not None and len(a[1]) == 1: return atom('ieq', a[1][0], lb.lower())
    x, y = sorted((a, b), key=repr)
    return atom('sieq', x, y)

def S(I, st, this): return I.getstr(st, this[1])
def ret(st, v): return [(st, v)]
def retb(st, c): return [(st, ('b', c))]

@model('QByteArray::QByteArray', 'QString::QString', 'Pillow::ByteArray::ByteArray')
def _ba_ctor(I, st, ci, this, args, site, m):
    ps = ci['params']
    if ci['n'].startswith('Pillow') and not ci.get('copy'): return ret(st, EMPTY)
    if not ps: return ret(st, EMPTY)
    if ci.get('copy'):
        return ret(st, strof(I, st, args[0]))
    p0 = ps[0].replace('const ', '')
    if 'char *' in p0 and 'QChar' not in p0:
        if len(args) > 1 and args[1][0] == 'i':
            n = args[1]
            if isconst(n) and n[1] < 0: return ret(st, cstr(I, st, args[0]))
            return ret(st, char_slice(I, st, args[0], n))
        return ret(st, cstr(I, st, args[0]))
    if p0.strip().startswith('QLatin1String') or 'QByteArray' in p0: return ret(st, strof(I, st, args[0]))
    if p0.strip() == 'int' and len(args) > 1 and args[0][0] == 'i':
        return ret(st, mkstr([('U', ('fill',) + tuple(args), args[0])]))
    return ret(st, opaque_str(('ctor', ci['n'], tuple(args))))
@model('QLatin1String::QLatin1String', 'QLatin1Literal::QLatin1Literal')
def _l1(I, st, ci, this, args, site, m):
    if ci.get('copy'): return ret(st, strof(I, st, args[0]))
    return ret(st, cstr(I, st, args[0]) if args else EMPTY)
@model('QByteArray::operator=', 'QString::operator=', 'Pillow::ByteArray::operator=')
def _ba_assign(I, st, ci, this, args, site, m):
    setstr(I, st, this[1], strof(I, st, args[0], ci['params'][0]), True, site)
    return ret(st, this)
@model('QByteArray::swap', 'QString::swap')
def _ba_swap(I, st, ci, this, args, site, m):
    a, b = S(I, st, this), I.getstr(st, args[0][1])
    setstr(I, st, this[1], b); setstr(I, st, args[0][1], a)
    return ret(st, ('void',))
@model('QByteArray::size', 'QByteArray::length', 'QByteArray::count', 'QString::size', 'QString::length', 'QLatin1String::size', 'QLatin1Literal::size')
def _ba_size(I, st, ci, this, args, site, m):
    if args: return None
    return ret(st, slen(strof(I, st, this)))
@model('QByteArray::isEmpty', 'QString::isEmpty', 'QByteArray::isNull', 'QString::isNull')
def _ba_empty(I, st, ci, this, args, site, m):
    return retb(st, ceq(slen(S(I, st, this)), ZERO))
@model('QByteArray::capacity', 'QString::capacity')
def _ba_cap(I, st, ci, this, args, site, m):
    c = st.mem.get(this[1] + ('$cap',))
    if c is None:
        c = sym(('cap',) + st.fresh('cap', this[1]), 0, INTMAX)
        st.mem[this[1] + ('$cap',)] = c
        st.assume(cle(slen(S(I, st, this)), c))
    return ret(st, c)
@model('QByteArray::reserve', 'QString::reserve')
def _ba_reserve(I, st, ci, this, args, site, m):
    loc = this[1]
    if args[0][0] == 'i':
        c = sym(('cap',) + st.fresh('cap', loc), 0, INTMAX)
        restore(I, st, loc, site)
        st.mem[loc + ('$cap',)] = c
        st.assume(cle(args[0], c)); st.assume(cle(slen(S(I, st, this)), c))
    return ret(st, ('void',))
@model('QByteArray::clear', 'QString::clear')
def _ba_clear(I, st, ci, this, args, site, m):
    setstr(I, st, this[1], EMPTY, True, site); st.mem[this[1] + ('$cap',)] = ZERO
    return ret(st, ('void',))
@model('QByteArray::detach', 'QString::detach', 'QByteArray::squeeze')
def _ba_detach(I, st, ci, this, args, site, m): return ret(st, ('void',))
@model('QByteArray::isDetached')
def _ba_isdet(I, st, ci, this, args, site, m): return retb(st, True)
@model('QByteArray::data', 'QByteArray::constData', 'QByteArray::begin', 'QByteArray::constBegin', 'QByteArray::cbegin', 'QByteArray::operator const char *', 'QLatin1String::data', 'QLatin1String::latin1', 'QLatin1Literal::data')
def _ba_data(I, st, ci, this, args, site, m):
    loc = this[1]
    if loc[0][0] in ('t',) or ci['n'].startswith('QLatin1'):
        v = strof(I, st, this); b = str_lit(v)
        return ret(st, ('cl', b, ZERO) if b is not None else ('cs', v, ZERO))
    return ret(st, ('c', loc, storage(st, loc), ZERO))
@model('QByteArray::end', 'QByteArray::constEnd', 'QByteArray::cend')
def _ba_end(I, st, ci, this, args, site, m):
    loc = this[1]
    return ret(st, ('c', loc, storage(st, loc), slen(S(I, st, this))))
@model('QByteArray::data_ptr')
def _ba_dptr(I, st, ci, this, args, site, m):
    loc = this[1] + ('$dp',)
    st.mem[loc] = ('p', this[1] + ('$d',))
    return ret(st, ('p', loc))
def _append(I, st, loc, v, site):
    cur = I.getstr(st, loc)
    if I.mon is not None: I.mon.on_append(I, st, loc, v, site)
    setstr(I, st, loc, mkstr(cur[1] + v[1]), True, site)
@model('QByteArray::append', 'QString::append', 'QByteArray::operator+=', 'QString::operator+=', 'QByteArray::push_back', 'Pillow::ByteArray::append')
def _ba_append(I, st, ci, this, args, site, m):
    ps = [p.replace('const ', '').replace('&', '').strip() for p in ci['params']]
    loc = this[1]
    a = args[0]
    if ps[0] == 'char' or ps[0] in ('QChar',):
        x = I.toint(st, a) if a[0] in ('i', 'b') else None
        v = mkstr([('C', x)]) if x is not None else mkstr([('U', ('chr', a), ONE)])
    elif ps[0] == 'Pillow::HttpHeader' or ps[0].startswith('QPair<QByteArray'):
        f = I.getstr(st, a[1] + ('first',)); s2 = I.getstr(st, a[1] + ('second',))
        v = mkstr(f[1] + (('L', b': '),) + s2[1] + (('L', b'\r\n'),))
        if I.mon is not None: I.mon.on_append_header(I, st, loc, a[1], f, s2, site)
    elif len(ps) == 2 and ps[0] == 'char *':
        if args[1][0] != 'i': return None
        v = char_slice(I, st, a, args[1]) if not (isconst(args[1]) and args[1][1] < 0) else cstr(I, st, a)
    elif ps[0].startswith('char[') or ps[0].startswith('char ('):
        v = strof(I, st, a)
        if a[0] == 'p': v = opaque_str(('chararr', a))
    elif ps[0] == 'char *': v = cstr(I, st, a)
    elif len(ps) == 2 and ps[0] == 'int': v = mkstr([('U', ('fill',) + tuple(args), args[0])])
    else: v = strof(I, st, a, ci['params'][0])
    _append(I, st, loc, v, site)
    return ret(st, this)
@model('QByteArray::prepend')
def _ba_prepend(I, st, ci, this, args, site, m):
    v = strof(I, st, args[0], ci['params'][0]); cur = S(I, st, this)
    setstr(I, st, this[1], mkstr(v[1] + cur[1]), True, site); return ret(st, this)
@model('QByteArray::right', 'QByteArray::left', 'QByteArray::mid', 'QString::mid', 'QString::left', 'QString::right', 'QByteArray::remove', 'QByteArray::chop', 'QByteArray::truncate', 'QByteArray::resize', 'QByteArray::chopped', 'QString::remove')
def _ba_part(I, st, ci, this, args, site, m):
    op = ci['name']; v = S(I, st, this); n = slen(v)
    if any(a[0] != 'i' for a in args): return None
    outs = []
    def clampsplit(st, x, lo, hi):
        """splits on x < lo, lo <= x <= hi, x > hi ; yields (state, clamped)"""
        r = []
        for s1, t in I.split(st, clt(x, lo)):
            if t: r.append((s1, lo)); continue
            for s2, t2 in I.split(s1, clt(hi, x)):
                r.append((s2, hi if t2 else x))
        return r
    if op in ('left', 'right', 'truncate', 'chop', 'chopped'):
        for s1, k in clampsplit(st, args[0], ZERO, n):
            if op in ('left', 'truncate'):
                # QByteArray::left(n<0) gives empty
                r = slice_str(s1, v, ZERO, k)
            elif op == 'right': r = slice_str(s1, v, sub(n, k), k)
            else: r = slice_str(s1, v, ZERO, sub(n, k))
            if op in ('truncate', 'chop'):
                s1.mem[this[1]] = r; outs.append((s1, ('void',)))
            else: outs.append((s1, r))
        return outs
    if op == 'mid':
        for s1, p in clampsplit(st, args[0], ZERO, n):
            if len(args) < 2 or (isconst(args[1]) and args[1][1] < 0):
                outs.append((s1, slice_str(s1, v, p, sub(n, p)))); continue
            for s2, k in clampsplit(s1, args[1], ZERO, sub(n, p)): outs.append((s2, slice_str(s2, v, p, k)))
        return outs
    if op == 'remove' and len(args) == 2:
        for s1, p in clampsplit(st, args[0], ZERO, n):
            for s2, k in clampsplit(s1, args[1], ZERO, sub(n, p)):
                a = slice_str(s2, v, ZERO, p); b = slice_str(s2, v, add(p, k), sub(sub(n, p), k))
                setstr(I, s2, this[1], mkstr(a[1] + b[1]), True, site); outs.append((s2, this))
        return outs
    if op == 'resize':
        for s1, t in I.split(st, cle(args[0], n)):
            if t: 
                r = slice_str(s1, v, ZERO, args[0])
            else: r = mkstr(v[1] + (('U', ('grown', v, args[0]), sub(args[0], n)),))
            setstr(I, s1, this[1], r, True, site); outs.append((s1, ('void',)))
        return outs
    return None
@model('QByteArray::at', 'QByteArray::operator[]')
def _ba_at(I, st, ci, this, args, site, m):
    if ci['n'].endswith('[]') and not ci.get('const'): return ret(st, ('c', this[1], storage(st, this[1]), args[0])) if 'QByteRef' not in ci['ret'] else None
    return ret(st, I.strchar(st, S(I, st, this), args[0]))
@model('QByteArray::toInt', 'QByteArray::toLongLong', 'QByteArray::toUInt', 'QByteArray::toULongLong', 'QByteArray::toLong', 'QString::toInt', 'QString::toLongLong')
def _ba_toint(I, st, ci, this, args, site, m):
    v = S(I, st, this); lo, hi = I.rng(ci['ret'])
    b = str_lit(v); base = args[1] if len(args) > 1 else con(10)
    outs = []
    okc = atom('numok', ci['ret'], v, base)
    if b is not None:
        try: x = int(b.decode().strip(), base[1]); good = lo <= x <= hi
        except Exception: x = 0; good = False
        rs = [(st, con(x if good else 0), good)]
    else:
        rs = []
        for s1, t in I.split(st, okc):
            rs.append((s1, sym(('num', ci['ret'], v, base), lo, hi) if t else ZERO, t))
    for s1, val, good in rs:
        if args and args[0][0] == 'p': s1.mem[args[0][1]] = ('b', good)
        outs.append((s1, val))
    return outs
@model('QByteArray::setRawData')
def _ba_setraw(I, st, ci, this, args, site, m):
    p, n = args[0], args[1]
    if p[0] == 'cl': v = char_slice(I, st, p, n)
    elif p[0] == 'c': v = mkstr([('V', ('b', p[1], p[2]), p[3], n)])
    else: v = char_slice(I, st, p, n)
    st.mem[this[1]] = v
    if I.mon is not None: I.mon.on_rawview(I, st, this[1], p, n, site)
    return ret(st, this)
@model('QByteArray::fromRawData')
def _ba_fromraw(I, st, ci, this, args, site, m):
    p, n = args[0], args[1]
    if p[0] == 'c': return ret(st, mkstr([('V', ('b', p[1], p[2]), p[3], n)]))
    return ret(st, char_slice(I, st, p, n))
@model('Pillow::ByteArrayHelpers::setFromRawData')
def _sfr(I, st, ci, this, args, site, m):
    t, p, off, n = args
    if p[0] != 'c' or off[0] != 'i' or n[0] != 'i': return None
    q = I.padd(st, p, off, 1)
    st.mem[t[1]] = mkstr([('V', ('b', q[1], q[2]), q[3], n)])
    if I.mon is not None: I.mon.on_rawview(I, st, t[1], q, n, site)
    return ret(st, ('void',))
@model('Pillow::ByteArrayHelpers::setFromRawDataAndNullterm')
def _sfrn(I, st, ci, this, args, site, m):
    t, p, off, n = args
    if p[0] != 'c' or off[0] != 'i' or n[0] != 'i': return None
    q = I.padd(st, p, off, 1)
    st.mem[t[1]] = mkstr([('V', ('b', q[1], q[2]), q[3], n)])
    if I.mon is not None:
        I.mon.on_rawview(I, st, t[1], q, n, site)
        I.mon.on_poke(I, st, I.padd(st, q, n, 1), ZERO, site, cond=cne(n, ZERO))
    return ret(st, ('void',))
@model('Pillow::ByteArrayHelpers::appendNumber')
def _appnum(I, st, ci, this, args, site, m):
    v = args[1]
    base = int((ci.get('targs') or ['int', '10'])[1])
    if v[0] == 'p': v = I.load(st, v[1], (ci.get('targs') or ['int'])[0])
    if v[0] != 'i': v = sym(('numof', v))
    if isconst(v) and base == 10: seg = ('L', str(v[1]).encode())
    elif isconst(v) and base == 16: seg = ('L', (('-' if v[1] < 0 else '') + '%x' % abs(v[1])).encode())
    else: seg = ('N', base, v)
    _append(I, st, args[0][1], mkstr([seg]), site)
    return ret(st, ('void',))
@model('QByteArray::number', 'QString::number')
def _number(I, st, ci, this, args, site, m):
    if args[0][0] != 'i': return None
    base = args[1][1] if len(args) > 1 and isconst(args[1]) else 10
    v = args[0]
    if isconst(v) and base == 10: return ret(st, lit(str(v[1]).encode()))
    return ret(st, mkstr([('N', base, v)]))
@model('Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive')
def _aeci(I, st, ci, this, args, site, m):
    if len(args) == 4:
        if args[1][0] != 'i' or args[3][0] != 'i': return None
        a = char_slice(I, st, args[0], args[1]); b = char_slice(I, st, args[2], args[3])
    else: a = strof(I, st, args[0]); b = strof(I, st, args[1])
    return retb(st, ieqcond(st, a, b))
@model('QString::toUtf8', 'QString::toLatin1', 'QString::toAscii', 'QString::toLocal8Bit')
def _toenc(I, st, ci, this, args, site, m):
    v = S(I, st, this); b = str_lit(v)
    if b is not None and all(x < 128 for x in b): return ret(st, v)
    return ret(st, opaque_str((ci['name'], v)))
@model('Pillow::ByteArrayHelpers::percentDecode', 'Pillow::HttpHeaderCollection::dummy')
def _pdec(I, st, ci, this, args, site, m):
    v = strof(I, st, args[0]) if len(args) == 1 else char_slice(I, st, args[0], args[1])
    if str_lit(v) == b'': return ret(st, EMPTY)
    return ret(st, opaque_str(('pdec', v)))
@model('Pillow::ByteArray::operator==', 'Pillow::ByteArray::operator!=')
def _baeq(I, st, ci, this, args, site, m):
    c = eqcond(st, S(I, st, this), strof(I, st, args[0]))
    return retb(st, c if ci['name'].endswith('==') else neg(c))
def _is_str_t(t):
    t = t.replace('const ', '').replace('&', '').strip()
    return t in ('QByteArray', 'QString', 'Pillow::ByteArray', 'char *', 'QLatin1String', 'QStringRef', 'Pillow::Token', 'Pillow::LowerCaseToken') or t.startswith('char[')
@model('operator==', 'operator!=', 'QByteArray::operator==', 'QString::operator==', 'QString::operator!=', 'QByteArray::operator!=')
def _streq(I, st, ci, this, args, site, m):
    xs = ([this] if this is not None else []) + list(args)
    ts = ([ci['cls']] if this is not None else []) + ci['params']
    if len(xs) != 2 or not all(_is_str_t(t) for t in ts): return None
    c = eqcond(st, strof(I, st, xs[0], ts[0]), strof(I, st, xs[1], ts[1]))
    return retb(st, c if ci['name'].endswith('==') else neg(c))
@model('operator+')
def _strplus(I, st, ci, this, args, site, m):
    if not all(_is_str_t(t) or t.strip() == 'char' for t in ci['params']) : return None
    out = ()
    for a, t in zip(args, ci['params']):
        if t.strip() == 'char': out += (('C', a),) if a[0] == 'i' else (('U', a, ONE),)
        else: out += strof(I, st, a, t)[1]
    return ret(st, mkstr(out))
@model('qstrlen', 'strlen')
def _strlen(I, st, ci, this, args, site, m):
    return ret(st, slen(cstr(I, st, args[0])))
@model('memcpy', 'memmove')
def _memcpy(I, st, ci, this, args, site, m):
    d, s, n = args
    if I.mon is not None: I.mon.on_bufwrite(I, st, d, n, site)
    if d[0] == 'c' and n[0] == 'i':
        v = char_slice(I, st, s, n)
        cap_tail(I, st, d[1], I.getstr(st, d[1]), d[3], v[1], n)
    return ret(st, d)
@model('memset')
def _memset(I, st, ci, this, args, site, m):
    d = args[0]
    if d[0] == 'p':
        I.havoc(st, d[1], ('zero',) if args[1] == ZERO else st.fresh('memset', tuple(site)))
    return ret(st, d)
# ---- pairs -----------------------------------------------------------------
@model('QPair::QPair', 'std::pair::pair')
def _pair(I, st, ci, this, args, site, m):
    if ci.get('copy') or len(args) != 2:
        if not args: return ret(st, ('agg', ('pair0', ci['cls']), ((('first',), EMPTY), (('second',), EMPTY)))) if 'QByteArray' in ci['cls'] or 'QString' in ci['cls'] else None
        return None
    def val(a, t):
        if a[0] == 'p': return I.load(st, a[1], t.replace('const ', '').replace('&', '').strip()) if '&' in t else a
        return a
    a, b = val(args[0], ci['params'][0]), val(args[1], ci['params'][1])
    return ret(st, ('agg', ('pair', a, b), ((('first',), a), (('second',), b))))
# ---- sequences --------------------------------------------------------------
SEQ = ('QVector', 'QList', 'QVarLengthArray', 'QStringList', 'QSet', 'QQueue', 'QStack', 'Pillow::HttpHeaderCollection')
def csize(I, st, loc):
    v = st.mem.get(loc + ('$n',))
    if v is not None: return v
    x = st.mem.get(loc)
    if x is not None and x[0] == 'agg' and x[1] and x[1][0] == 'emptyc': return ZERO
    k, rest, subs = I.aggkey(st, loc)
    for l, y in subs:
        if l == tuple(rest) + ('$n',): return y
    if k is None: return ZERO
    key = k if not rest else ('fld', k) + tuple(rest)
    if key and key[0] == 'ctor' and not key[2]: return ZERO
    return sym(('size', key), 0, INTMAX)
def seqm(*ops):
    return model(*['%s::%s' % (c, o) for c in ('QVector', 'QList', 'QVarLengthArray', 'QStringList', 'QQueue', 'QStack') for o in ops])
@model(*['%s::%s' % (c, c) for c in ('QVector', 'QList', 'QVarLengthArray', 'QStringList', 'QHash', 'QMultiHash', 'QMap', 'QSet')])
def _seq_ctor(I, st, ci, this, args, site, m):
    if not args: return ret(st, ('agg', ('emptyc', ci['cls']), ()))
    if ci.get('copy') and args[0][0] == 'p': return ret(st, I.load(st, args[0][1], 'struct'))
    if ci['params'] and ci['params'][0].strip() == 'int' and args[0][0] == 'i':
        if args[0] == ZERO: return ret(st, ('agg', ('emptyc', ci['cls']), ()))
        return ret(st, ('agg', ('seqn', args[0]), ((('$n',), args[0]),)))
    return None
@seqm('size', 'count', 'length')
def _seq_size(I, st, ci, this, args, site, m):
    if args: return None
    return ret(st, csize(I, st, this[1]))
@seqm('isEmpty', 'empty')
def _seq_empty(I, st, ci, this, args, site, m): return retb(st, ceq(csize(I, st, this[1]), ZERO))
@seqm('capacity')
def _seq_cap(I, st, ci, this, args, site, m):
    c = sym(('cap',) + st.fresh('cap', this[1]), 0, INTMAX); st.assume(cle(csize(I, st, this[1]), c)); return ret(st, c)
@seqm('reserve', 'squeeze', 'detach')
def _seq_res(I, st, ci, this, args, site, m): return ret(st, ('void',))
def setn(st, loc, n):
    st.mem[loc + ('$n',)] = n
    if st.mem.get(loc, ('undef',))[0] == 'undef': st.mem[loc] = ('agg', ('elems', loc), ())
def drop_elems(st, loc, pred=lambda i: True):
    k = len(loc)
    for l in [l for l in st.mem if len(l) > k and l[:k] == loc and isinstance(l[k], tuple) and l[k][0] == '[]' and pred(l[k][1])]: del st.mem[l]
@seqm('clear')
def _seq_clear(I, st, ci, this, args, site, m):
    loc = this[1]
    I.havoc(st, loc, ('emptyc', ci['cls'])); setn(st, loc, ZERO)
    return ret(st, ('void',))
@seqm('append', 'push_back', 'operator<<', 'operator+=', 'enqueue', 'push')
def _seq_append(I, st, ci, this, args, site, m):
    loc = this[1]; n = csize(I, st, loc)
    pt = ci['params'][0].replace('const ', '').replace('&', '').strip()
    et = ci['cls'][ci['cls'].index('<') + 1:-1] if '<' in ci['cls'] else 'QString'
    if pt.split('<')[0].split('::')[-1] in ('QVector', 'QList', 'QStringList') and pt.split('<')[0] == ci['cls'].split('<')[0]:
        k = csize(I, st, args[0][1]) if args[0][0] == 'p' else sym(('size', args[0]), 0, INTMAX)
        setn(st, loc, add(n, k))
        if I.mon is not None: I.mon.on_seq(I, st, 'extend', loc, args[0], site)
        return ret(st, this if ci['ret'].endswith('&') else ('void',))
    v = args[0]
    if v[0] == 'p' and '&' in ci['params'][0]: v = I.load(st, v[1], pt)
    el = loc + (('[]', n),)
    if loc not in st.mem: st.mem[loc] = ('agg', I.keyof(st, loc), ())
    I.store(st, el, v, pt)
    setn(st, loc, add(n, ONE))
    if I.mon is not None: I.mon.on_seq(I, st, 'append', loc, v, site)
    return ret(st, this if ci['ret'].endswith('&') else ('void',))
@model('Pillow::HttpHeaderCollection::operator+=')
def _hdr_extend(I, st, ci, this, args, site, m):
    """appends a whole collection (what its loop does is the subject of C14)"""
    if 'QVector' not in ci['params'][0] or args[0][0] != 'p': return None
    loc = this[1]; n = csize(I, st, loc)
    if loc not in st.mem: st.mem[loc] = ('agg', I.keyof(st, loc), ())
    setn(st, loc, add(n, csize(I, st, args[0][1])))
    if I.mon is not None: I.mon.on_seq(I, st, 'extend', loc, args[0], site)
    return ret(st, this)
@seqm('pop_back', 'removeLast', 'takeLast', 'pop', 'takeFirst', 'removeFirst', 'pop_front', 'dequeue')
def _seq_pop(I, st, ci, this, args, site, m):
    loc = this[1]; n = csize(I, st, loc)
    first = ci['name'] in ('takeFirst', 'removeFirst', 'pop_front', 'dequeue')
    st.assume(cle(ONE, n))
    i = ZERO if first else sub(n, ONE)
    v = ('void',)
    et = ci['cls'][ci['cls'].index('<') + 1:-1].strip() if '<' in ci['cls'] else ''
    gone = v
    if I.kind(ci['ret']) != 'void': v = gone = I.load(st, loc + (('[]', i),), ci['ret'])
    elif et.endswith('*'): gone = I.load(st, loc + (('[]', i),), et)
    if first:
        k = st.fresh('shift', loc); drop_elems(st, loc); st.mem[loc] = ('agg', k, ())
    else: drop_elems(st, loc, lambda j: j == i)
    if loc not in st.mem: st.mem[loc] = ('agg', I.keyof(st, loc), ())
    setn(st, loc, sub(n, ONE))
    if I.mon is not None: I.mon.on_seq(I, st, 'pop', loc, gone, site)
    return ret(st, v)
@seqm('resize')
def _seq_resize(I, st, ci, this, args, site, m):
    if args[0][0] != 'i': return None
    loc = this[1]
    if loc not in st.mem: st.mem[loc] = ('agg', I.keyof(st, loc), ())
    setn(st, loc, args[0]); return ret(st, ('void',))
@seqm('at', 'operator[]', 'value', 'first', 'last', 'front', 'back', 'constFirst', 'constLast')
def _seq_at(I, st, ci, this, args, site, m):
    loc = this[1]
    nm = ci['name']
    if nm in ('first', 'front', 'constFirst'): i = ZERO
    elif nm in ('last', 'back', 'constLast'): i = sub(csize(I, st, loc), ONE)
    else: i = args[0]
    if i[0] != 'i': return None
    if nm == 'value':
        return None
    if I.mon is not None: I.mon.on_index(I, st, loc, i, csize(I, st, loc), site)
    el = loc + (('[]', i),)
    if I.kind(ci['ret']) == 'ref': return ret(st, ('p', el))
    return ret(st, I.load(st, el, ci['ret']))
@seqm('begin', 'constBegin', 'cbegin', 'data', 'constData')
def _seq_begin(I, st, ci, this, args, site, m): return ret(st, ('p', this[1] + (('[]', ZERO),)))
@seqm('end', 'constEnd', 'cend')
def _seq_end(I, st, ci, this, args, site, m): return ret(st, ('p', this[1] + (('[]', csize(I, st, this[1])),)))
@seqm('operator=')
def _seq_assign(I, st, ci, this, args, site, m):
    if args[0][0] == 'p': v = I.load(st, args[0][1], 'struct'); n = csize(I, st, args[0][1])
    else: v = args[0]; n = None
    I.store(st, this[1], v, 'struct')
    if n is not None: setn(st, this[1], n)
    return ret(st, this)
@seqm('removeAll', 'removeOne', 'remove', 'removeAt', 'erase', 'insert', 'prepend')
def _seq_rm(I, st, ci, this, args, site, m):
    loc = this[1]
    n = csize(I, st, loc)
    I.havoc(st, loc, st.fresh('seqmut', loc))
    n2 = sym(('size',) + st.fresh('seqn', loc), 0, INTMAX)
    if ci['name'] == 'removeOne' or ci['name'] == 'removeAll': st.assume(cle(n2, n))
    setn(st, loc, n2)
    if I.mon is not None: I.mon.on_seq(I, st, ci['name'], loc, args[0] if args else None, site)
    return ret(st, I.fresh(ci['ret'], st.fresh('rm', loc))) if I.kind(ci['ret']) != 'ref' else ret(st, this)
for _c in ('QList::const_iterator', 'QList::iterator'):
    def _mk(c):
        def ne(I, st, ci, this, args, site, m):
            a = I.load(st, this[1], 'struct'); b = args[0]
            if b[0] == 'p':
                x = st.mem.get(b[1])
                b = x if x is not None and x[0] == 'p' else I.load(st, b[1], 'struct') if not isinstance(b[1][-1], tuple) else b
            cnd = I.ptreq(st, a, b)
            return retb(st, neg(cnd) if ci['name'].endswith('!=') else cnd)
        def star(I, st, ci, this, args, site, m):
            return ret(st, I.load(st, this[1], 'struct'))
        def inc(I, st, ci, this, args, site, m):
            v = I.load(st, this[1], 'struct'); st.mem[this[1]] = I.padd(st, v, ONE, 1 if '++' in ci['name'] else -1)
            return ret(st, this if ci['ret'].endswith('&') else v)
        MODELS[c + '::operator!='] = ne; MODELS[c + '::operator=='] = ne; MODELS[c + '::operator*'] = star; MODELS[c + '::operator->'] = star; MODELS[c + '::operator++'] = inc; MODELS[c + '::operator--'] = inc
    _mk(_c)
@model('QtPrivate::qMakeForeachContainer', 'QtPrivate::QForeachContainer::QForeachContainer')
def _foreach(I, st, ci, this, args, site, m):
    if ci.get('copy'): return None
    a = args[0]
    if a[0] != 'p':
        l = I.tmp(st, 0); I.store(st, l, a, 'struct'); a = ('p', l)
    # the loop iterates over a snapshot of the container
    l = (('fe',) + st.fresh('fe', tuple(site)),)
    n = csize(I, st, a[1])
    I.store(st, l, I.load(st, a[1], 'struct'), 'struct'); st.mem[l + ('$n',)] = n
    return ret(st, ('agg', ('foreach', l), ((('i',), ('p', l + (('[]', ZERO),))), (('e',), ('p', l + (('[]', n),))), (('control',), ONE))))
# ---- casts, misc -------------------------------------------------------------
@model('qobject_cast')
def _qoc(I, st, ci, this, args, site, m):
    p = args[0]; t = (ci.get('targs') or [ci['ret']])[0].replace('*', '').strip()
    if p[0] == 'n': return ret(st, ('n',))
    if p[0] != 'p': return None
    outs = []
    cls = I.dynclass(st, p)
    if cls is not None:
        return ret(st, p if I.P.derives(cls, t) else ('n',))
    nn = ('at', ('null', p[1]), False) if I.maybe_null(p[1]) else True
    for s1, t1 in I.split(st, nn):
        if not t1: outs.append((s1, ('n',))); continue
        for s2, t2 in I.split(s1, atom('isa', t, p[1])):
            outs.append((s2, p if t2 else ('n',)))
    return outs
@model('qGetPtrHelper')
def _gph(I, st, ci, this, args, site, m):
    a = args[0]
    if a[0] == 'p' and I.kind(ci['params'][0]) == 'ref': return ret(st, I.load(st, a[1], ci['ret']))
    return ret(st, a)
@model('qMin', 'qMax', 'std::min', 'std::max')
def _minmax(I, st, ci, this, args, site, m):
    t = ci['params'][0].replace('const ', '').replace('&', '').strip()
    a, b = [I.load(st, x[1], t) if x[0] == 'p' else x for x in args[:2]]
    if a[0] != 'i' or b[0] != 'i': return None
    outs = []
    for s1, le in I.split(st, cle(a, b)):
        i = (0 if le else 1) if 'in' in ci['name'][-2:] else (1 if le else 0)
        outs.append((s1, args[i] if I.kind(ci['ret']) == 'ref' else (a, b)[i]))
    return outs
def noop(I, st, ci, this, args, site, m):
    if I.kind(ci['ret']) == 'void': return ret(st, ('void',))
    if this is not None and I.kind(ci['ret']) == 'ref': return ret(st, this)
    return ret(st, ('agg', ('noop', ci['n']), ()))
for n in ('QDebug::operator<<', 'QMessageLogger::warning', 'QMessageLogger::debug', 'QMessageLogger::critical', 'QMessageLogger::QMessageLogger', 'QDebug::~QDebug', 'QMessageLogger::info',
          'QDebug::nospace', 'QDebug::noquote', 'QDebug::space', 'QObject::connect', 'QObject::disconnect', 'QObject::blockSignals'):
    MODELS[n] = noop
@model('__assert_fail', 'qt_assert', 'qBadAlloc')
def _noreturn(I, st, ci, this, args, site, m): return []
# ---- guarded pointers ---------------------------------------------------------
def qp_get(I, st, loc, t):
    v = st.mem.get(loc + ('$p',))
    if v is not None: return v
    a = st.mem.get(loc)
    if a is not None and a[0] == 'agg':
        if a[1] and a[1][0] == 'qptr': return a[1][1]
        for l, x in a[2]:
            if l == ('$p',): return x
        return ('p', (('o', ('qptr', a[1])),))
    k, rest, subs = I.aggkey(st, loc)
    if k is None: return ('n',)
    for l, x in subs:
        if l == tuple(rest) and x[0] == 'agg' and x[1] and x[1][0] == 'qptr': return x[1][1]
    return ('p', (('o', ('qptr', ('fld', k) + tuple(rest))),))
@model('QPointer::QPointer')
def _qp_ctor(I, st, ci, this, args, site, m):
    if ci.get('copy'): return None
    p = args[0] if args else ('n',)
    v = ('agg', ('qptr', p), ())
    return ret(st, v)
@model('QPointer::operator=')
def _qp_set(I, st, ci, this, args, site, m):
    if not args or this is None: return None
    if args[0][0] == 'p' and ci['params'][0].rstrip().endswith('&'): p = qp_get(I, st, args[0][1], '')
    else: p = args[0]
    I.store(st, this[1], ('agg', ('qptr', p), ()), 'QPointer')
    return ret(st, this)
def _qp_read(I, st, ci, this, args, site, m):
    return ret(st, qp_get(I, st, this[1], ci['ret']))
for _t in ('operator->', 'operator*', 'data'): MODELS['QPointer::' + _t] = _qp_read
@model('QPointer::isNull')
def _qp_null(I, st, ci, this, args, site, m):
    return retb(st, I.ptreq(st, qp_get(I, st, this[1], ''), ('n',)))
@model('QPointer::clear')
def _qp_clear(I, st, ci, this, args, site, m):
    I.store(st, this[1], ('agg', ('qptr', ('n',)), ()), 'QPointer'); return ret(st, ('void',))
for _q in ('QScopedPointer', 'std::unique_ptr'):
    MODELS[_q + '::' + _q.split('::')[-1]] = _qp_ctor
    for _t in ('operator->', 'operator*', 'data', 'get'): MODELS[_q + '::' + _t] = _qp_read
    MODELS[_q + '::isNull'] = _qp_null
    def _qp_take(I, st, ci, this, args, site, m):
        p = qp_get(I, st, this[1], ci['ret'])
        I.store(st, this[1], ('agg', ('qptr', ('n',)), ()), 'QPointer'); return ret(st, p)
    MODELS[_q + '::take'] = MODELS[_q + '::release'] = _qp_take
def wrap_qp(name, negate):
    old = MODELS.get(name)
    def f(I, st, ci, this, args, site, m):
        ps = ci['params']
        if len(args) == 2 and any('QPointer<' in p for p in ps):
            v = [qp_get(I, st, a[1], '') if 'QPointer<' in p and a[0] == 'p' else a for p, a in zip(ps, args)]
            c = I.ptreq(st, v[0], v[1])
            return retb(st, neg(c) if negate else c)
        return old(I, st, ci, this, args, site, m) if old else None
    MODELS[name] = f
wrap_qp('operator==', False); wrap_qp('operator!=', True)
