"""Values, terms and the solver interface of the VC generator."""
import z3, time, os, subprocess, tempfile

class Unsupported(Exception):
    """construct outside the verifier's reach: no verdict, bounded stand-in"""
class NeedCut(Exception):
    def __init__(s, key): s.key = key
class Budget(Exception):
    pass

def mask(w): return (1 << w) - 1
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

class Undef:
    def __repr__(s): return 'undef'
UNDEF = Undef()

class Obj:
    __slots__ = ('id', 'size', 'name', 'ro', 'kind', 'addr', 'es', 'align', 'x')
    n = 0
    def __init__(s, size, name, ro=False, kind='heap', es=None):
        Obj.n += 1
        s.id = Obj.n; s.size = size; s.name = name; s.ro = ro; s.kind = kind; s.addr = None; s.es = es; s.x = None
    def address(s):
        if s.addr is None: s.addr = z3.BitVec('addr!%d' % s.id, 64)
        return s.addr
    def __repr__(s): return '<%s#%d>' % (s.name, s.id)

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off): s.obj = obj; s.off = off
    def __repr__(s): return 'Ptr(%s,%s)' % (s.obj, s.off)
NULL = Ptr(None, 0)
class FnPtr:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __repr__(s): return 'fn:' + s.name
    def __eq__(s, o): return isinstance(o, FnPtr) and o.name == s.name
    def __hash__(s): return hash(s.name)
class PtrInt:
    """a pointer converted to an integer, before any other arithmetic"""
    __slots__ = ('p',)
    def __init__(s, p): s.p = p
class Agg:
    __slots__ = ('d',)
    def __init__(s, d): s.d = d

def is_int(v): return isinstance(v, int) and not isinstance(v, bool)
def bv(v, w):
    if isinstance(v, bool): return z3.BitVecVal(int(v), w)
    if is_int(v): return z3.BitVecVal(v, w)
    return v
z3.set_param('rewriter.bv_le2extract', False)
def norm(e):
    """simplify a BV term, returning a python int when it is a constant"""
    e = z3.simplify(e)
    if z3.is_bv_value(e): return e.as_long()
    return e
def nbool(e):
    if isinstance(e, bool): return e
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e
def zb(b): return z3.BoolVal(b) if isinstance(b, bool) else b
def b_and(*a):
    r = []
    for x in a:
        if x is True: continue
        if x is False: return False
        r.append(x)
    if not r: return True
    return r[0] if len(r) == 1 else z3.And(*r)
def b_or(*a):
    r = []
    for x in a:
        if x is False: continue
        if x is True: return True
        r.append(x)
    if not r: return False
    return r[0] if len(r) == 1 else z3.Or(*r)
def b_not(a):
    return (not a) if isinstance(a, bool) else z3.Not(a)
def b_imp(a, b): return b_or(b_not(a), b)

def add(a, b, w=64):
    if is_int(a) and is_int(b): return (a + b) & mask(w)
    if is_int(a) and a == 0: return b
    if is_int(b) and b == 0: return a
    return norm(bv(a, w) + bv(b, w))
def sub(a, b, w=64):
    if is_int(a) and is_int(b): return (a - b) & mask(w)
    if is_int(b) and b == 0: return a
    return norm(bv(a, w) - bv(b, w))
def mul(a, b, w=64):
    if is_int(a) and is_int(b): return (a * b) & mask(w)
    return norm(bv(a, w) * bv(b, w))
# ---- comparisons of linear terms over bounded atoms: decided or simplified as integers
BND = {}          # name of an unknown -> exclusive upper bound (its creation asserts it)
_keep = []
def ubound(t):
    """exclusive upper bound of a BV term, or None"""
    k = t.decl().kind(); n = t.num_args(); w = t.size()
    if k == z3.Z3_OP_BNUM: return t.as_long() + 1
    if n == 0 or k == z3.Z3_OP_UNINTERPRETED: b = BND.get(t.decl().name())
    elif k == z3.Z3_OP_CONCAT and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0 and n == 2: b = ubound(t.arg(1))
    elif k == z3.Z3_OP_ZERO_EXT: b = ubound(t.arg(0))
    elif k == z3.Z3_OP_BLSHR and z3.is_bv_value(t.arg(1)):
        x = ubound(t.arg(0)) or 1 << w
        b = ((x - 1) >> t.arg(1).as_long()) + 1
    elif k == z3.Z3_OP_BASHR and z3.is_bv_value(t.arg(1)):
        x = ubound(t.arg(0))
        b = ((x - 1) >> t.arg(1).as_long()) + 1 if x is not None and x <= 1 << (w - 1) else None
    elif k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long():
        x = ubound(t.arg(0)) or 1 << w
        b = (x - 1) // t.arg(1).as_long() + 1
    elif k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long(): b = t.arg(1).as_long()
    elif k == z3.Z3_OP_BAND and any(z3.is_bv_value(t.arg(i)) for i in range(n)): b = min(t.arg(i).as_long() for i in range(n) if z3.is_bv_value(t.arg(i))) + 1
    elif k == z3.Z3_OP_EXTRACT:
        hi, lo = t.params(); x = ubound(t.arg(0))
        b = min((x >> lo) + 1, 1 << (hi - lo + 1)) if x is not None and x <= 1 << (hi + 1) else None
    elif k == z3.Z3_OP_ITE:
        x, y = ubound(t.arg(1)), ubound(t.arg(2)); b = None if x is None or y is None else max(x, y)
    elif k == z3.Z3_OP_CONCAT and n == 2 and z3.is_bv_value(t.arg(1)):
        x = ubound(t.arg(0)); b = None if x is None else x << t.arg(1).size()
    else: b = None
    if b is None and w < 64: b = 1 << w
    return b
_lin = {}
def lin(t):
    """64-bit term -> (const, {atom id: (coeff, atom, bound)}) with integer meaning modulo 2^64, or None"""
    if is_int(t): return (sgn(t, 64), {})
    r = _lin.get(t.get_id())
    if r is not None: return r[1]
    r = lin_(t)
    _lin[t.get_id()] = (t, r)
    return r
def lin_(t):
    k = t.decl().kind()
    if k == z3.Z3_OP_BADD or k == z3.Z3_OP_BSUB:
        c = 0; d = {}
        for i in range(t.num_args()):
            x = lin(t.arg(i)) if not z3.is_bv_value(t.arg(i)) else (sgn(t.arg(i).as_long(), 64), {})
            if x is None: return None
            m = -1 if (k == z3.Z3_OP_BSUB and i) else 1
            c += m * x[0]
            for a, (f, at, bd) in x[1].items():
                o = d.get(a); d[a] = (m * f + (o[0] if o else 0), at, bd)
        return (c, {a: v for a, v in d.items() if v[0]})
    if k == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
        x = lin(t.arg(1))
        if x is None: return None
        m = sgn(t.arg(0).as_long(), 64)
        return (m * x[0], {a: (m * f, at, bd) for a, (f, at, bd) in x[1].items()})
    if k == z3.Z3_OP_BNUM: return (sgn(t.as_long(), 64), {})
    if k == z3.Z3_OP_CONCAT and t.num_args() == 2 and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long() == 0:
        # x << s written as Concat(Extract(63-s..0, x), 0)
        s = t.arg(1).size(); e = t.arg(0)
        if e.decl().kind() == z3.Z3_OP_EXTRACT and e.params()[1] == 0 and e.arg(0).size() == 64:
            x = lin(e.arg(0))
            if x is not None: return (x[0] << s, {a: (f << s, at, bd) for a, (f, at, bd) in x[1].items()})
    if k == z3.Z3_OP_BASHR and z3.is_bv_value(t.arg(1)):
        # floor division of a signed linear form: an atom shifted to be non-negative
        x = lin(t.arg(0)); sh = t.arg(1).as_long()
        if x is not None and sh < 32:
            lo, hi = lrange(x)
            if -LIM < lo < 0 and hi < LIM:
                ql, qh = lo >> sh, hi >> sh
                u = norm(t + z3.BitVecVal(-ql, 64))
                _ashr[u.get_id()] = (u, x, sh, -ql)
                return (ql, {u.get_id(): (1, u, qh - ql + 1)})
    b = ubound(t)
    if b is None or b > 1 << 61: return None
    return (0, {t.get_id(): (1, t, b)})
_ashr = {}
LIM = 1 << 62
def lrange(l):
    lo = hi = l[0]
    for f, at, b in l[1].values():
        if f > 0: hi += f * (b - 1)
        else: lo += f * (b - 1)
    return lo, hi
def lge0(l):
    """linear form >= 0 as integers; None when out of range"""
    from math import gcd
    c, d = l
    lo, hi = lrange(l)
    if lo < -LIM or hi > LIM: return None
    if lo >= 0: return True
    if hi < 0: return False
    g = 0
    for f, _, _ in d.values(): g = gcd(g, abs(f))
    c //= g      # floor: sum/g + floor(c/g) >= 0
    pos = z3.BitVecVal(max(c, 0), 64); neg = z3.BitVecVal(max(-c, 0), 64)
    for f, at, b in d.values():
        f //= g
        if f > 0: pos = pos + (at if f == 1 else f * at)
        else: neg = neg + (at if f == -1 else (-f) * at)
    return nbool(z3.ULE(neg, pos))
def leq0(l):
    from math import gcd
    c, d = l
    lo, hi = lrange(l)
    if lo < -LIM or hi > LIM: return None
    if lo > 0 or hi < 0: return False
    if not d: return c == 0
    g = 0
    for f, _, _ in d.values(): g = gcd(g, abs(f))
    if c % g: return False
    c //= g
    pos = z3.BitVecVal(max(c, 0), 64); neg = z3.BitVecVal(max(-c, 0), 64)
    for f, at, b in d.values():
        f //= g
        if f > 0: pos = pos + (at if f == 1 else f * at)
        else: neg = neg + (at if f == -1 else (-f) * at)
    return nbool(neg == pos)
def ldiff(x, y):
    d = dict(x[1])
    for a, (f, at, bd) in y[1].items():
        o = d.get(a); v = (o[0] if o else 0) - f
        if v: d[a] = (v, at, bd)
        else: d.pop(a, None)
    return (x[0] - y[0], d)
def lcmp(pred, a, b):
    """64-bit comparison through linear forms; None when it does not apply"""
    x, y = lin(a), lin(b)
    if x is None or y is None: return None
    for l in (x, y):
        lo, hi = lrange(l)
        if lo < -LIM or hi > LIM: return None
    d = ldiff(x, y)
    if pred == 'eq': return leq0(d)
    neg1 = lambda l: (-l[0] - 1, {k: (-f, at, bd) for k, (f, at, bd) in l[1].items()})   # -l-1 >= 0  <=>  l < 0
    lt = lge0(neg1(d))             # x < y
    if lt is None: return None
    if pred == 'slt': return lt
    if pred == 'ult':
        xn, yn = lge0(neg1(x)), lge0(neg1(y))
        if xn is None or yn is None: return None
        # both the same sign: x < y; x >= 0 > y: true; x < 0 <= y: false
        return b_or(b_and(b_not(xn), yn), b_and(lt, b_or(b_and(xn, yn), b_and(b_not(xn), b_not(yn)))))
    return None
def eq(a, b, w=64):
    if is_int(a) and is_int(b): return a == b
    if w == 64:
        r = lcmp('eq', a, b)
        if r is not None: return r
    if is_int(a): a, b = b, a
    if is_int(b):
        b &= mask(w)
        x = bit0(a)
        if x is not None: return False if b & ~1 != x[1] else x[0] if b & 1 else b_not(x[0])
        while not is_int(a) and a.decl().kind() in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT):
            x = a.arg(0); sw = x.size(); lo = b & mask(sw)
            if ((sgn(lo, sw) & mask(w)) if a.decl().kind() == z3.Z3_OP_SIGN_EXT else lo) != b: return False
            a, b, w = x, lo, sw
    elif a.decl().kind() == b.decl().kind() and a.decl().kind() in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT) and a.arg(0).size() == b.arg(0).size():
        a, b = a.arg(0), b.arg(0); w = a.size()
    return nbool(bv(a, w) == bv(b, w))
_bo = {}
def bit0(t):
    """(c, base) with t == base | (c ? 1 : 0), base even and constant; or None"""
    if is_int(t): return (bool(t & 1), t & ~1)
    r = _bo.get(t.get_id())
    if r is None: r = _bo[t.get_id()] = (t, bit0_(t))
    return r[1]
def bit0_(t):
    k = t.decl().kind(); w = t.size()
    if k == z3.Z3_OP_BNUM: v = t.as_long(); return (bool(v & 1), v & ~1)
    if k == z3.Z3_OP_ITE:
        x, y = bit0(t.arg(1)), bit0(t.arg(2))
        if x is None or y is None or x[1] != y[1]: return None
        return (nbool(z3.If(t.arg(0), zb(x[0]), zb(y[0]))), x[1])
    if k == z3.Z3_OP_BNOT:
        x = bit0(t.arg(0))
        return None if x is None else (b_not(x[0]), ~x[1] & mask(w) & ~1)
    if k in (z3.Z3_OP_BOR, z3.Z3_OP_BAND, z3.Z3_OP_BXOR):
        xs = [bit0(t.arg(i)) for i in range(t.num_args())]
        if any(x is None for x in xs): return None
        c, b = xs[0]
        for x in xs[1:]:
            if k == z3.Z3_OP_BOR: c, b = b_or(c, x[0]), b | x[1]
            elif k == z3.Z3_OP_BAND: c, b = b_and(c, x[0]), b & x[1]
            else: c, b = nbool(z3.Xor(zb(c), zb(x[0]))), b ^ x[1]
        return (c, b)
    if k == z3.Z3_OP_ZERO_EXT: return bit0(t.arg(0))
    if k == z3.Z3_OP_CONCAT and z3.is_bv_value(t.arg(0)) and t.num_args() == 2:
        x = bit0(t.arg(1)); 
        return None if x is None else (x[0], x[1] | t.arg(0).as_long() << t.arg(1).size())
    if k == z3.Z3_OP_EXTRACT and t.params()[1] == 0:
        x = bit0(t.arg(0)); 
        return None if x is None else (x[0], x[1] & mask(w))
    return None
def ult(a, b, w=64):
    if is_int(a) and is_int(b): return a < b
    if w == 64:
        r = lcmp('ult', a, b)
        if r is not None: return r
    return nbool(z3.ULT(bv(a, w), bv(b, w)))
def ule(a, b, w=64):
    if is_int(a) and is_int(b): return a <= b
    if w == 64:
        r = lcmp('ult', b, a)
        if r is not None: return b_not(r)
    return nbool(z3.ULE(bv(a, w), bv(b, w)))
def ite(c, a, b, w):
    if c is True: return a
    if c is False: return b
    if is_int(a) and is_int(b) and a == b: return a
    return norm(z3.If(c, bv(a, w), bv(b, w)))

_fresh = [0]
def fresh_count(): return _fresh[0]
def fresh(name, w=64):
    _fresh[0] += 1
    return z3.BitVec('%s!%d' % (name, _fresh[0]), w)
def freshk(st, name, bound):
    """unknown below a bound"""
    v = fresh(name, 64)
    BND[v.decl().name()] = bound
    st.pc.append(z3.ULT(v, z3.BitVecVal(bound, 64)))
    return v
def freshb(name):
    _fresh[0] += 1
    return z3.Bool('%s!%d' % (name, _fresh[0]))
def freshf(name, w):
    _fresh[0] += 1
    return z3.Function('%s!%d' % (name, _fresh[0]), z3.BitVecSort(64), z3.BitVecSort(w))

# ---------------------------------------------------------------- integer abstraction
def lin_nw(t):
    """linear form whose integer value is the unsigned value of t"""
    if z3.is_bv_value(t): t = t.as_long()
    if is_int(t): return (t, {}) if t < 1 << 63 else None
    if t.size() != 64: return None
    l = lin(t)
    if l is None: return None
    lo, hi = lrange(l)
    return l if lo >= 0 and hi < 1 << 63 else None
def is_uf1(t):
    return t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and z3.is_bv(t) and z3.is_bv(t.arg(0)) and t.arg(0).size() == 64
def shape(t):
    """('div'|'mod', x, s) for x / 2^s and x % 2^s"""
    k = t.decl().kind()
    if k in (z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR) and z3.is_bv_value(t.arg(1)): return 'div', t.arg(0), t.arg(1).as_long()
    if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(t.arg(1)):
        d = t.arg(1).as_long()
        if d and d & (d - 1) == 0: return 'div', t.arg(0), d.bit_length() - 1
    if k == z3.Z3_OP_CONCAT and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0 and t.arg(1).decl().kind() == z3.Z3_OP_EXTRACT:
        e = t.arg(1); hi, lo = e.params()
        if e.arg(0).size() == 64 and t.size() == 64:
            if hi == 63: return 'div', e.arg(0), lo
            if lo == 0: return 'mod', e.arg(0), hi + 1
    if k == z3.Z3_OP_BAND and t.num_args() == 2:
        for i in (0, 1):
            if z3.is_bv_value(t.arg(i)):
                m = t.arg(i).as_long()
                if m & (m + 1) == 0: return 'mod', t.arg(1 - i), m.bit_length()
    return None, None, 0
def nlin(t):
    """narrow term -> linear form equal to it modulo 2^width, or None"""
    k = t.decl().kind(); w = t.size()
    if z3.is_bv_value(t): return (sgn(t.as_long(), w), {})
    if k == z3.Z3_OP_UNINTERPRETED: return lin(z3.simplify(z3.ZeroExt(64 - w, t)))
    if k == z3.Z3_OP_EXTRACT and t.params()[1] == 0 and t.arg(0).size() == 64: return lin(t.arg(0))
    if k == z3.Z3_OP_BADD:
        c = 0; d = {}
        for i in range(t.num_args()):
            x = nlin(t.arg(i))
            if x is None: return None
            c += x[0]
            for a, (f, at, bd) in x[1].items():
                o = d.get(a); d[a] = (f + (o[0] if o else 0), at, bd)
        return (c, {a: v for a, v in d.items() if v[0]})
    if k == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
        x = nlin(t.arg(1)); m = sgn(t.arg(0).as_long(), w)
        return None if x is None else (m * x[0], {a: (m * f, at, bd) for a, (f, at, bd) in x[1].items()})
    return None
class Lia:
    """Sound abstraction of BV constraints to linear integer arithmetic: comparisons of linear
    forms whose integer value provably does not wrap are kept, everything else becomes an
    unconstrained Boolean.  Only its 'unsat' is used."""
    def __init__(self):
        self.cache = {}; self.ints = {}; self.nv = {}
        self.s = z3.SolverFor('QF_UFLIA'); self.stack = []; self.quot = {}; self.preds = {}
    def atom(self, t, b):
        r = self.ints.get(t.get_id())
        if r is None:
            side = []
            v = self.uf_int(t, side)
            if v is None: v = z3.Int('i%d' % len(self.ints))
            side += [v >= 0, v < b]
            if t.get_id() in _ashr:
                _, x, sh, o = _ashr[t.get_id()]
                e = self.form(x, side)
                side += [(1 << sh) * (v - o) <= e, e <= (1 << sh) * (v - o) + (1 << sh) - 1]
            if t.decl().kind() == z3.Z3_OP_ITE:
                x, y = lin_nw(t.arg(1)), lin_nw(t.arg(2))
                if x is not None and y is not None:
                    c, sd = self.conv(t.arg(0)); side += sd
                    side.append(z3.If(c, v == self.form(x, side), v == self.form(y, side)))
            if t.decl().kind() == z3.Z3_OP_CONCAT and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0 and t.arg(1).decl().kind() == z3.Z3_OP_ITE:
                x = self.nval(t.arg(1))
                if x is not None: side += x[1]; side.append(v == x[0])
            # quotient and remainder by a power of two
            for kind, x, s in [shape(t)]:
                l = lin_nw(x) if x is not None else None
                if l is not None:
                    q = self.quot.get((x.get_id(), s))
                    if q is None: q = self.quot[(x.get_id(), s)] = (x, z3.Int('q%d' % len(self.quot)))
                    e = self.form(l, side); q = q[1]
                    side += [q >= 0, (1 << s) * q <= e, e <= (1 << s) * q + (1 << s) - 1]
                    side.append(v == (q if kind == 'div' else e - (1 << s) * q))
            r = self.ints[t.get_id()] = (t, v, side)
        return r
    def form(self, l, side):
        e = z3.IntVal(l[0])
        for f, at, b in l[1].values():
            _, v, bd = self.atom(at, b); side += bd; e = e + f * v
        return e
    def nval(self, t):
        """(integer value of a narrow term, side conditions) or None"""
        if z3.is_bv_value(t): return z3.IntVal(t.as_long()), []
        r = self.nv.get(t.get_id())
        if r is None:
            w = t.size(); side = []; v = None
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                v = self.form(lin(z3.simplify(z3.ZeroExt(64 - w, t))), side)
            elif t.decl().kind() == z3.Z3_OP_ITE:
                a, b = self.nval(t.arg(1)), self.nval(t.arg(2))
                if a is not None and b is not None:
                    c, sd = self.conv(t.arg(0)); side = sd + a[1] + b[1]
                    v = z3.If(c, a[0], b[0])
            else:
                l = nlin(t)
                if l is not None:
                    e = self.form(l, side)
                    v = z3.Int('nr%d' % len(self.nv)); q = z3.Int('nq%d' % len(self.nv))
                    side += [v >= 0, v < 1 << w, v == e - (1 << w) * q]
            r = self.nv[t.get_id()] = (t, None if v is None else (v, side))
        return r[1]
    def uf_int(self, t, side):
        if t.decl().kind() == z3.Z3_OP_CONCAT and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0: t = t.arg(1)
        if t.decl().kind() == z3.Z3_OP_ZERO_EXT: t = t.arg(0)
        if not is_uf1(t): return None
        l = lin(t.arg(0))     # a function of the integer modulo 2^64: congruence holds whatever its range
        if l is None: return None
        return z3.Function('F' + t.decl().name(), z3.IntSort(), z3.IntSort())(self.form(l, side))
    def opaque(self, t):
        """Boolean that is not arithmetic: a predicate of the (linear) arguments of the functions in it"""
        apps = []; seen = set()
        def walk(x):
            if x.get_id() in seen: return
            seen.add(x.get_id())
            if is_uf1(x):
                l = lin(x.arg(0))
                if l is not None: apps.append((x, l)); return
            for c in x.children(): walk(c)
        walk(t)
        if not apps or len(apps) > 8: return z3.Bool('o%d' % t.get_id()), []
        sk = z3.substitute(t, *[(x, z3.BitVec('hole!%s!%d' % (x.decl().name(), i), x.size())) for i, (x, _) in enumerate(apps)])
        p = self.preds.get(sk.get_id())
        if p is None: p = self.preds[sk.get_id()] = (sk, z3.Function('P%d' % len(self.preds), *([z3.IntSort()] * len(apps) + [z3.BoolSort()])))
        side = []
        return p[1](*[self.form(l, side) for _, l in apps]), side
    def conv(self, t):
        """-> (LIA formula, list of side constraints)"""
        if t is True: return z3.BoolVal(True), []
        if t is False: return z3.BoolVal(False), []
        r = self.cache.get(t.get_id())
        if r is not None: return r[1]
        r = self.conv_(t)
        self.cache[t.get_id()] = (t, r)
        return r
    def conv_(self, t):
        k = t.decl().kind()
        if k == z3.Z3_OP_TRUE or k == z3.Z3_OP_FALSE: return t, []
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES) or (k == z3.Z3_OP_ITE and z3.is_bool(t)) or (k == z3.Z3_OP_EQ and z3.is_bool(t.arg(0))):
            xs = [self.conv(t.arg(i)) for i in range(t.num_args())]
            side = [c for x in xs for c in x[1]]; a = [x[0] for x in xs]
            return {z3.Z3_OP_AND: lambda: z3.And(*a), z3.Z3_OP_OR: lambda: z3.Or(*a), z3.Z3_OP_NOT: lambda: z3.Not(a[0]), z3.Z3_OP_IMPLIES: lambda: z3.Implies(a[0], a[1]),
                    z3.Z3_OP_ITE: lambda: z3.If(a[0], a[1], a[2]), z3.Z3_OP_EQ: lambda: a[0] == a[1]}[k](), side
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT) and z3.is_bv(t.arg(0)) and t.arg(0).size() == 64:
            x, y = lin(t.arg(0)), lin(t.arg(1))
            if x is not None and y is not None:
                (l1, h1), (l2, h2) = lrange(x), lrange(y)
                if l1 > -1 << 62 and l2 > -1 << 62 and h1 < 1 << 62 and h2 < 1 << 62:
                    side = []
                    a, b = self.form(x, side), self.form(y, side)
                    if (l1 < 0 or l2 < 0) and k != z3.Z3_OP_EQ:
                        # unsigned order: negative numbers (which wrapped) are above all others
                        if k in (z3.Z3_OP_UGEQ, z3.Z3_OP_UGT): a, b = b, a
                        lt = a <= b if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_UGEQ) else a < b
                        return z3.If((a < 0) == (b < 0), lt, b < 0), side
                    return {z3.Z3_OP_EQ: a == b, z3.Z3_OP_ULEQ: a <= b, z3.Z3_OP_ULT: a < b, z3.Z3_OP_UGEQ: a >= b, z3.Z3_OP_UGT: a > b}[k], side
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT) and z3.is_bv(t.arg(0)) and t.arg(0).size() < 64:
            a, b = self.nval(t.arg(0)), self.nval(t.arg(1))
            if a is not None and b is not None:
                side = a[1] + b[1]; a = a[0]; b = b[0]
                return {z3.Z3_OP_EQ: a == b, z3.Z3_OP_ULEQ: a <= b, z3.Z3_OP_ULT: a < b, z3.Z3_OP_UGEQ: a >= b, z3.Z3_OP_UGT: a > b}[k], side
        return self.opaque(t)
    def check(self, pc, extra, ms):
        k = 0
        while k < len(self.stack) and k < len(pc) and self.stack[k] is pc[k]: k += 1
        n = len(self.stack) - k
        if n:
            self.s.pop(n); del self.stack[k:]
        for c in pc[k:]:
            f, side = self.conv(c)
            self.s.push(); self.s.add(f, *side); self.stack.append(c)
        self.s.push()
        if extra is not None and extra is not True:
            f, side = self.conv(extra); self.s.add(f, *side)
        self.s.set('timeout', ms)
        r = str(self.s.check())
        self.s.pop()
        return r

# ---------------------------------------------------------------- solver
class Solver:
    """incremental z3; falls back to one-shot z3 and to cvc5 when z3 gives no answer"""
    def __init__(self):
        self.s = z3.SolverFor('QF_UFBV')
        self.s = z3.Solver()
        self.stack = []
        self.queries = 0; self.time = 0.0; self.fallback = 0; self.cvc5 = 0; self.unknown = 0
        self.quick_ms = int(os.environ.get('VP_QUICK_MS', '100')); self.slow_ms = int(os.environ.get('VP_SLOW_MS', '60000'))
        self.cache = {}
        self.last_model = None
        self.by = {}
        self.lia = Lia()
    def check(self, pc, extra=None, need_model=False, quick_only=False, lazy=False):
        """returns 'sat' | 'unsat' | 'unknown' for conj(pc) & extra"""
        if extra is False: return 'unsat'
        key = None
        if not need_model:
            key = (tuple(id(c) for c in pc), extra.get_id() if (extra is not None and extra is not True) else None)
            r = self.cache.get(key)
            if r and (r[0] != 'unknown' or lazy): return r[0]
        t0 = time.time()
        self.queries += 1
        k = 0
        while k < len(self.stack) and k < len(pc) and self.stack[k] is pc[k]: k += 1
        n = len(self.stack) - k
        if n:
            self.s.pop(n); del self.stack[k:]
        for c in pc[k:]:
            self.s.push(); self.s.add(c); self.stack.append(c)
        self.s.push()
        if extra is not None and extra is not True: self.s.add(extra)
        self.s.set('timeout', self.quick_ms)
        r = str(self.s.check())
        who = 'z3'
        self.last_model = self.s.model() if r == 'sat' else None
        self.s.pop()
        if r == 'unknown' and self.lia.check(pc, extra, 400 if lazy or quick_only else 3000) == 'unsat': r = 'unsat'; who = 'z3-lia'
        if r == 'unknown' and not lazy:
            self.fallback += 1
            cs = list(pc) + ([extra] if extra is not None and extra is not True else [])
            t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver() if False else z3.SolverFor('QF_UFBV')
            t.set('timeout', 3000 if quick_only else self.slow_ms // 2)
            t.add(*cs)
            r = str(t.check()); who = 'z3-oneshot'
            if r == 'sat': self.last_model = t.model()
            if r == 'unknown' and not need_model and not quick_only:
                r = self.run_cvc5(cs); who = 'cvc5'
        if r == 'unknown': self.unknown += 1
        self.by[who] = self.by.get(who, 0) + 1
        dt = time.time() - t0; self.time += dt
        if dt > float(os.environ.get("VP_SLOWLOG","1")) and os.environ.get('VP_SLOWLOG'): print('SLOW %.1f %s %s pc=%d %s' % (dt, r, who, len(pc), str(extra)[:300].replace('\n', ' ')), flush=True)
        if key is not None: self.cache[key] = (r, list(pc), extra)
        return r
    def run_cvc5(self, cs):
        self.cvc5 += 1
        s = z3.Solver(); s.add(*cs)
        txt = '(set-logic QF_UFBV)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt); fn = f.name
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % self.slow_ms, fn], capture_output=True, text=True, timeout=self.slow_ms / 1000 + 10)
            o = p.stdout.strip().split('\n')[0]
            return o if o in ('sat', 'unsat') else 'unknown'
        except Exception:
            return 'unknown'
        finally:
            os.unlink(fn)
