"""Exact real arithmetic over symbolic atoms.

A number is a Fraction (exact rational), a float (only +-inf / nan) or an R: a Laurent polynomial with rational
coefficients over *atoms*.  Atoms are input symbols, square roots (s >= 0, s*s = P), inverses (v*q = 1) and
absolute values are forked.  Nothing is ever rounded.
"""
from fractions import Fraction as Fr
from math import isqrt, inf, nan, sqrt as fsqrt
import numpy as np

F0, F1 = Fr(0), Fr(1)


class Atom:
    __slots__ = ('id', 'kind', 'name', 'arg', 'lo', 'hi', 'const', 'val', 'z3', 'deps', 'num')


ATOMS = []
CONST_SQRT = {}          # atom id -> prime
_keys = {}               # (kind, key) -> atom
_smps = {}               # atom id -> numpy samples


class Hooks:             # filled by solve.py
    decide = None
    nsamples = 512
    rng = None


def new_atom(kind, name, arg=None, lo=-inf, hi=inf, const=False, val=None):
    a = Atom()
    a.id = len(ATOMS)
    a.kind, a.name, a.arg, a.lo, a.hi, a.const, a.val, a.z3 = kind, name, arg, lo, hi, const, val, None
    a.deps = frozenset()
    a.num = None
    if arg is not None and isinstance(arg, R):
        d = set()
        for m in arg.t:
            for i, _ in m:
                d.add(i)
                d |= ATOMS[i].deps
        a.deps = frozenset(d)
    ATOMS.append(a)
    return a


# ---------------------------------------------------------------- monomials
_mc = {}


def mmul(a, b):
    """product of two monomials: (mono, coefficient)"""
    k = (a, b)
    r = _mc.get(k)
    if r is not None:
        return r
    out = []
    c = 1
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                p = CONST_SQRT.get(x[0])
                if p is None:
                    out.append((x[0], e))
                else:
                    q, e2 = divmod(e, 2)
                    c = c * Fr(p) ** q
                    if e2:
                        out.append((x[0], 1))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    r = (tuple(out), c)
    if len(_mc) > 400000:
        _mc.clear()
    _mc[k] = r
    return r


class R:
    __slots__ = ('t', 'nn', '_k')

    def __init__(self, t, nn=False):
        self.t = t
        self.nn = nn
        self._k = None

    # -- arithmetic
    def __add__(self, o):
        if type(o) is R:
            a, b = self.t, o.t
            if len(a) < len(b):
                a, b = b, a
            t = dict(a)
            for m, c in b.items():
                v = t.get(m)
                if v is None:
                    t[m] = c
                else:
                    v = v + c
                    if v:
                        t[m] = v
                    else:
                        del t[m]
            return norm(t, self.nn and o.nn)
        if type(o) is Fr:
            if not o:
                return self
            t = dict(self.t)
            v = t.get((), F0) + o
            if v:
                t[()] = v
            else:
                del t[()]
            return norm(t, self.nn and o >= 0)
        if type(o) is float:
            return o                   # finite + inf/nan
        return NotImplemented
    __radd__ = __add__

    def __neg__(self):
        t = {m: -c for m, c in self.t.items()}
        return norm(t) if KONST else R(t)

    def __sub__(self, o):
        if type(o) is R:
            if o is self:
                return F0
            t = dict(self.t)
            for m, c in o.t.items():
                v = t.get(m)
                if v is None:
                    t[m] = -c
                else:
                    v = v - c
                    if v:
                        t[m] = v
                    else:
                        del t[m]
            return norm(t)
        if type(o) is Fr:
            return self + (-o) if o else self
        if type(o) is float:
            return -o
        return NotImplemented

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if type(o) is Fr:
            if not o:
                return F0
            if o == 1:
                return self
            t = {m: c * o for m, c in self.t.items()}
            return norm(t, self.nn and o > 0) if KONST else R(t, self.nn and o > 0)
        if type(o) is R:
            a, b = self.t, o.t
            t = {}
            for m1, c1 in a.items():
                for m2, c2 in b.items():
                    m, k = mmul(m1, m2)
                    c = c1 * c2
                    if k != 1:
                        c = c * k
                    v = t.get(m)
                    t[m] = c if v is None else v + c
            t = {m: c for m, c in t.items() if c}
            return norm(t, o is self or (self.nn and o.nn) or self.t == o.t)
        if type(o) is float:           # finite * inf/nan
            return mulinf(self, o)
        return NotImplemented
    __rmul__ = __mul__

    def __eq__(self, o):
        return type(o) is R and self.t == o.t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError('truth value of R')


KLIM = 4                 # constants with more terms become one opaque constant


KONST = set()            # ids of opaque constants


def norm(t, nn=False):
    if not t:
        return F0
    n = len(t)
    if n == 1:
        c = t.get(())
        if c is not None:
            return c
        if KONST:
            (m, c), = t.items()
            for i, e in m:
                if i in KONST:
                    if c == 1 and e == 1 and sum(ATOMS[x].const for x, _ in m) == 1:
                        break
                    return collapse(t, nn)
    elif KONST:
        for m in t:
            for i, _ in m:
                if i in KONST:
                    return collapse(t, nn)
        if n > KLIM:
            return big(t, nn)
    elif n > KLIM:
        return big(t, nn)
    return R(t, nn)


def big(t, nn):
    for m in t:
        for i, _ in m:
            if not ATOMS[i].const:
                return R(t, nn) if len(t) <= 24 else collapse(t, nn)
    return konst(hpval(t))


# ---------------------------------------------------------------- closed constants in high precision
HP = 640                 # fractional bits of the enclosures
HPZ = 1 << (HP - 250)    # a constant within 2^-250 of zero counts as zero
_hp = {}                 # atom id -> (lo, hi) integers, scaled by 2^HP
_byval = {}              # value to 250 bits -> constant


def hp_div(a, b):
    return -((-a) // b)


def hp_mul(x, y):
    ps = (x[0] * y[0], x[0] * y[1], x[1] * y[0], x[1] * y[1])
    return min(ps) >> HP, -((-max(ps)) >> HP)


def hp_inv(x):
    if x[0] <= 0 <= x[1]:
        raise ZeroDivisionError
    n = 1 << (2 * HP)
    return n // x[1], hp_div(n, x[0])


def hp_atom(i):
    v = _hp.get(i)
    if v is None:
        a = ATOMS[i]
        if i in CONST_SQRT:
            r = isqrt(CONST_SQRT[i] << (2 * HP))
            v = (r, r + 1)
        elif a.kind == 'inv':
            v = hp_inv(hpval(a.arg.t))
        else:
            raise KeyError(a.name)
        _hp[i] = v
    return v


def hpval(t):
    """enclosure of a closed constant given by its terms"""
    lo = hi = 0
    for m, c in t.items():
        v = (1 << HP, 1 << HP)
        for i, e in m:
            x = hp_atom(i)
            if e < 0:
                x = hp_inv(x)
                e = -e
            for _ in range(e):
                v = hp_mul(v, x)
        n, d = c.numerator, c.denominator
        if n >= 0:
            lo += v[0] * n // d
            hi += hp_div(v[1] * n, d)
        else:
            lo += v[1] * n // d
            hi += hp_div(v[0] * n, d)
    return lo, hi


def konst(v):
    """the constant with the enclosure v: one atom per value"""
    lo, hi = v
    if hi - lo > HPZ >> 20:
        raise OverflowError('constant enclosure too wide')
    mid = (lo + hi) // 2
    if abs(mid) < HPZ:
        return F0
    k = mid // HPZ
    for kk in (k, k - 1, k + 1):
        r = _byval.get(kk)
        if r is not None:
            return r
    q = Fr(mid, 1 << HP)
    s = q.limit_denominator(1 << 60)
    if abs(q - s) * (1 << HP) < HPZ:
        r = s
    else:
        f = float(q)
        a = new_atom('konst', 'k%d' % len(ATOMS), None, f * (1 - 4e-16) if f > 0 else f * (1 + 4e-16), f * (1 + 4e-16) if f > 0 else f * (1 - 4e-16), True, f)
        _hp[a.id] = v
        KONST.add(a.id)
        r = atom_R(a)
        r.nn = f > 0
    _byval[k] = r
    return r


def ksign(r):
    if type(r) is not R:
        return (r > 0) - (r < 0)
    lo, hi = hpval(r.t)
    if lo > HPZ:
        return 1
    if hi < -HPZ:
        return -1
    if lo >= -HPZ and hi <= HPZ:
        return 0
    raise OverflowError('constant enclosure too wide')


def collapse(t, nn):
    """one opaque constant in place of every coefficient that has many terms or involves opaque constants"""
    g = {}
    for m, c in t.items():
        vm = tuple(x for x in m if not ATOMS[x[0]].const)
        cm = tuple(x for x in m if ATOMS[x[0]].const)
        g.setdefault(vm, {})[cm] = c
    out = {}
    for vm, x in g.items():
        if len(x) <= KLIM and not any(i in KONST for m in x for i, _ in m):
            for cm, c in x.items():
                m, f = mmul(vm, cm)
                out[m] = c * f
            continue
        if len(x) == 1:
            (cm, c), = x.items()
            if c == 1 and len(cm) == 1 and cm[0][1] == 1:
                out[mmul(vm, cm)[0]] = c
                continue
        k = konst(hpval(x))
        if type(k) is R:
            for cm, c in k.t.items():
                out[mmul(vm, cm)[0]] = c
        elif k:
            out[vm] = k
    if not out:
        return F0
    if len(out) == 1 and () in out:
        return out[()]
    return R(out, nn)


def dropzero(r):
    """without coefficients that are zero constants"""
    if type(r) is not R or not KONST or not any(i in KONST for m in r.t for i, _ in m):
        return r
    g = kgroup(r)
    bad = [vm for vm, k in g.items() if type(k) is R and ksign(k) == 0]
    if not bad:
        return r
    t = {}
    for m, c in r.t.items():
        if tuple(x for x in m if not ATOMS[x[0]].const) not in bad:
            t[m] = c
    return norm(t, r.nn)


def mulinf(a, o):
    if o != o:
        return o
    if Hooks.decide('eq', a):
        return nan
    return o if Hooks.decide('lt', -a) else -o


def show(r, lim=40):
    if not isinstance(r, R):
        return str(r)
    s = []
    for m, c in sorted(r.t.items(), key=lambda x: str(x[0]))[:lim]:
        s.append(('%s' % c) + ''.join('*%s%s' % (ATOMS[i].name, '' if e == 1 else '^%d' % e) for i, e in m))
    return ' + '.join(s) + (' ...(%d)' % len(r.t) if len(r.t) > lim else '')


def atom_R(a):
    return R({((a.id, 1),): F1}, a.lo >= 0)


def mono_R(m, c=F1):
    return norm({m: c}) if m else c


def mpow(m, n):
    r, c = (), F1
    for i, e in m:
        p = CONST_SQRT.get(i)
        if p is None:
            r2, k = mmul(r, ((i, e * n),))
        else:
            q, e2 = divmod(e * n, 2)
            c *= Fr(p) ** q
            r2, k = mmul(r, ((i, 1),)) if e2 else (r, 1)
        r, c = r2, c * k
    return r, c


def rpow(x, n):
    r = F1
    for _ in range(n):
        r = x * r
    return r


# ---------------------------------------------------------------- constants (number field Q(sqrt p, ...))
def is_const(r):
    if type(r) is not R:
        return True
    return all(ATOMS[i].const for m in r.t for i, _ in m)


def kval(r):
    """float value of a constant"""
    if type(r) is not R:
        return float(r)
    if len(r.t) > 1:
        lo, hi = hpval(r.t)
        return float(Fr((lo + hi) // 2, 1 << HP))
    for m, c in r.t.items():
        v = float(c)
        for i, e in m:
            v *= ATOMS[i].val ** e
        return v


def kgroup(r):
    """{variable monomial: constant coefficient}"""
    if type(r) is not R:
        return {(): r}
    g = {}
    anyc = False
    for m, c in r.t.items():
        for i, _ in m:
            if ATOMS[i].const:
                anyc = True
                break
    if not anyc:
        return r.t
    for m, c in r.t.items():
        vm = tuple(x for x in m if not ATOMS[x[0]].const)
        cm = tuple(x for x in m if ATOMS[x[0]].const)
        g.setdefault(vm, {})[cm] = c
    return {vm: norm(t) for vm, t in g.items()}


def kinv(k):
    """inverse of a non-zero constant"""
    if type(k) is not R:
        return 1 / k
    if len(k.t) == 1:
        (m, c), = k.t.items()
        m2, f = mpow(m, -1)
        return mono_R(m2, f / c)
    ids = {i for m in k.t for i, _ in m}
    if len(ids) > 2 or not ids <= CONST_SQRT.keys():
        return konst(hp_inv(hpval(k.t)))
    num = F1
    while type(k) is R:
        i = max(i for m in k.t for i, _ in m)
        b = {m: c for m, c in k.t.items() if m and m[-1][0] == i}
        a = {m: c for m, c in k.t.items() if m not in b}
        conj = R({**a, **{m: -c for m, c in b.items()}})
        num = num * conj
        k = k * conj
    return num * (1 / k)


def factor_square(n):
    """n = a*a*b with b squarefree (small primes only); returns a, [primes of b]"""
    a, ps = 1, []
    p = 2
    while p * p <= n and p < 2000:
        while n % (p * p) == 0:
            n //= p * p
            a *= p
        if n % p == 0:
            n //= p
            ps.append(p)
        p += 1
    if n > 1:
        r = isqrt(n)
        if r * r == n:
            a *= r
        else:
            ps.append(n)
    return a, ps


def const_sqrt(p):
    k = ('csqrt', p)
    a = _keys.get(k)
    if a is None:
        v = fsqrt(p)
        a = new_atom('sqrt', 'rt%d' % p, Fr(p), v * (1 - 1e-15), v * (1 + 1e-15), True, v)
        CONST_SQRT[a.id] = p
        _keys[k] = a
    return atom_R(a)


def ksqrt(k):
    """square root of a positive constant"""
    if type(k) is not R:
        n, d = k.numerator, k.denominator
        a, ps = factor_square(n * d)
        r = Fr(a, d)
        for p in ps:
            r = const_sqrt(p) * r
        return r
    # try (p + q*sqrt(m))^2
    ids = sorted({i for m in k.t for i, _ in m})
    if len(ids) == 1 and ids[0] in CONST_SQRT:
        mm = CONST_SQRT[ids[0]]
        a = k.t.get((), F0)
        b = k.t.get(((ids[0], 1),), F0)
        D = a * a - b * b * mm
        if D >= 0:
            rd = qsqrt(D)
            if rd is not None:
                for s in (1, -1):
                    p2 = (a + s * rd) / 2
                    if p2 > 0:
                        p = qsqrt(p2)
                        if p is not None:
                            cand = R({(): p, ((ids[0], 1),): b / (2 * p)})
                            return cand if kval(cand) > 0 else -cand
                    elif p2 == 0:
                        q = qsqrt(a / mm)
                        if q is not None:
                            return R({((ids[0], 1),): q})
    v = hpval(k.t)
    return konst((isqrt(v[0] << HP), isqrt(v[1] << HP) + 1))


def qsqrt(f):
    if f < 0:
        return None
    n, d = isqrt(f.numerator), isqrt(f.denominator)
    if n * n == f.numerator and d * d == f.denominator:
        return Fr(n, d)
    return None


# ---------------------------------------------------------------- polynomial helpers (over Q, positive exponents)
def content(t):
    """minimal exponent of every atom over all monomials (Laurent content); constants excluded"""
    it = iter(t)
    m0 = next(it)
    mn = {i: e for i, e in m0 if i not in CONST_SQRT}
    for m in it:
        d = dict(m)
        for i in list(mn):
            e = d.get(i, 0)
            if e < mn[i]:
                mn[i] = e
        for i, e in m:
            if e < 0 and i not in mn:
                mn[i] = e
    return tuple(sorted((i, e) for i, e in mn.items() if e))


def key_order(m):
    return m


def lead(t):
    """leading monomial under a fixed (lex by atom id, higher exponent first) order"""
    best = None
    bk = None
    for m in t:
        k = tuple((-i, e) for i, e in m)
        if bk is None or _cmp(m, best) > 0:
            best, bk = m, k
    return best


def _cmp(a, b):
    """lex order: smaller atom id is the more significant variable"""
    ia = ib = 0
    la, lb = len(a), len(b)
    while True:
        if ia == la:
            if ib == lb:
                return 0
            return 1 if b[ib][1] < 0 else -1
        if ib == lb:
            return -1 if a[ia][1] < 0 else 1
        x, y = a[ia], b[ib]
        if x[0] == y[0]:
            if x[1] != y[1]:
                return 1 if x[1] > y[1] else -1
            ia += 1
            ib += 1
        elif x[0] < y[0]:
            return 1 if x[1] > 0 else -1
        else:
            return -1 if y[1] > 0 else 1


def mdiv(a, b):
    """a / b if all exponents stay >= 0 (for atoms of b), else None"""
    d = dict(a)
    for i, e in b:
        x = d.get(i, 0) - e
        if x < 0:
            return None
        if x:
            d[i] = x
        else:
            d.pop(i, None)
    return tuple(sorted(d.items()))


def exact_div(f, g, limit=400):
    """f / g for R without negative exponents, or None when not exact"""
    lg = lead(g.t)
    cg = g.t[lg]
    rem = dict(f.t)
    q = {}
    n = 0
    gi = list(g.t.items())
    while rem:
        n += 1
        if n > limit:
            return None
        lm = lead(rem)
        m = mdiv(lm, lg)
        if m is None:
            return None
        c = rem[lm] / cg
        q[m] = q.get(m, F0) + c
        for gm, gc in gi:
            mm, k = mmul(m, gm)
            v = rem.get(mm, F0) - c * gc * k
            if v:
                rem[mm] = v
            else:
                rem.pop(mm, None)
        if lm in rem:
            return None
    return norm(q)


def poly_sqrt(f, limit=40):
    """G with G*G == f (rational coefficients, no negative exponents), or None"""
    if type(f) is not R:
        r = qsqrt(f)
        return r
    lm = lead(f.t)
    if any(e % 2 for _, e in lm):
        return None
    c = qsqrt(f.t[lm])
    if c is None:
        return None
    lg = tuple((i, e // 2) for i, e in lm)
    g = mono_R(lg, c)
    n = 0
    while True:
        rem = f - g * g
        if type(rem) is not R:
            if rem == 0:
                return g
            rm, rc = (), rem
        else:
            rm = lead(rem.t)
            rc = rem.t[rm]
        m = mdiv(rm, lg)
        if m is None:
            return None
        n += 1
        if n > limit:
            return None
        g = g + mono_R(m, rc / (2 * c))
        if type(g) is not R:
            return None


def monic(r):
    """r = k * r0 with r0's leading (variable) coefficient 1; returns k, r0"""
    g = kgroup(r)
    lm = lead(g)
    k = g[lm]
    if k == 1:
        return F1, r
    return k, r * (kinv(k))


def split_content(r):
    """r = mono * r' with r' having no monomial content and no negative exponents"""
    if type(r) is not R:
        return (), r
    ct = content(r.t)
    if not ct:
        return (), r
    ic = tuple((i, -e) for i, e in ct)
    f = norm({mmul(m, ic)[0]: c for m, c in r.t.items()})
    # a factor times its own inverse cancels
    out = []
    for i, e in ct:
        a = ATOMS[i]
        if a.kind == 'inv' and e > 0:
            while e and type(f) is R and len(f.t) > 1:
                q = exact_div(f, a.arg)
                if q is None:
                    break
                f = q
                e -= 1
        if e:
            out.append((i, e))
    if len(out) != len(ct) or tuple(out) != ct:
        if type(f) is R:
            f.nn = False
            m2, f = split_content(f)
            for i, e in m2:
                out.append((i, e))
            mm, k = mmul(tuple(out[:len(out) - len(m2)]), m2) if m2 else (tuple(out), F1)
            return mm, f * k if k != 1 else f
        return tuple(out), f
    return ct, f


def inv_atom(q):
    """1/q as an atom (q: R in canonical form)"""
    key = ('inv', frozenset(q.t.items()))
    a = _keys.get(key)
    if a is None:
        lo, hi = interval(q)
        if lo > 0 or hi < 0:
            l2, h2 = (1 / hi if hi not in (inf, -inf) else 0.0), (1 / lo if lo not in (inf, -inf) else 0.0)
        elif lo == 0 and q.nn:
            l2, h2 = 0.0, inf
        else:
            l2, h2 = -inf, inf
        cst = is_const(q)
        a = new_atom('inv', 'inv%d' % len(ATOMS), q, l2, h2, cst, 1 / kval(q) if cst else None)
        _keys[key] = a
    return atom_R(a)


def recip(b):
    """1/b for b != 0 (already established)"""
    if type(b) is not R:
        return 1 / b
    if is_const(b):
        return kinv(b)
    if len(b.t) == 1:
        (m, c), = b.t.items()
        m2, k = mpow(m, -1)
        return mono_R(m2, k / c)
    m, p = split_content(b)
    k, p = monic(p)
    r = kinv(k)
    if m:
        m2, c = mpow(m, -1)
        r = r * mono_R(m2, c)
    if type(p) is not R:
        return r * (1 / p)
    if len(p.t) == 1:
        return r * recip(p)
    # known square: s*s == p
    a = _keys.get(('sqrt', frozenset(p.t.items())))
    if a is not None:
        return r * mono_R(((a.id, -2),))
    kn, pn = -F1, None
    return r * inv_atom(p)


def fdiv(a, b):
    tb = type(b)
    if tb is Fr:
        if b:
            if type(a) is float:
                return a if b > 0 else -a
            return a * (1 / b)
        return div0(a)
    if tb is float:
        if type(a) is float or b != b:
            return nan
        return F0
    if type(a) is float:
        return mulinf(b, a)
    if Hooks.decide('eq', b):
        return div0(a)
    if type(a) is Fr and not a:
        return F0
    if type(a) is R and len(a.t) == len(b.t) and len(a.t) > 1 and a.t == b.t:
        return F1
    return a * recip(b)


def div0(a):
    if type(a) is float:
        return a
    if type(a) is Fr:
        return nan if a == 0 else (inf if a > 0 else -inf)
    if Hooks.decide('eq', a):
        return nan
    return inf if Hooks.decide('lt', -a) else -inf


def rsqrt(a, nn=False):
    """sqrt(a)"""
    if type(a) is Fr:
        if a < 0:
            return nan
        return ksqrt(a) if a else F0
    if type(a) is float:
        return a if a == inf else nan
    if is_const(a):
        v = kval(a)
        if v < 0:
            return nan
        return ksqrt(a)
    if not nn and not a.nn and Hooks.decide('lt', a):
        return nan
    m, f = split_content(a)
    out = F1
    odd = []
    for i, e in m:
        h, o = divmod(e, 2)
        if h:
            x = mono_R(((i, h),))
            out = out * (x if h % 2 == 0 else rabs(x))
        if o:
            odd.append((i, 1))
    if odd:
        f = f * mono_R(tuple(odd))
    k, f = monic(f)
    if type(f) is not R:
        k, f = k * f, F1
    if kval(k) < 0:
        k, f = -k, -f
    if type(f) is R:
        g = kgroup(f)
        rational = all(type(c) is not R for c in g.values())
        if rational:
            fa = {i for mm in f.t for i, _ in mm}
            for key, s in list(_keys.items()):
                if key[0] == 'sqrt' and not s.const:
                    ps = s.arg
                    if {i for mm in ps.t for i, _ in mm} <= fa:
                        while type(f) is R:
                            q = exact_div(f, ps)
                            if q is None:
                                break
                            f = q
                            out = out * atom_R(s)
            if type(f) is R:
                # F = s^2 * rest may hide behind reduced forms: try a perfect square
                gq = poly_sqrt(f)
                if gq is not None:
                    out = out * (rabs(gq) if type(gq) is R else gq)
                    f = F1
    if type(f) is not R:
        k = k * f
        f = F1
    if not (type(k) is Fr and k == 1):
        out = out * ksqrt(k)
    if type(f) is R:
        key = ('sqrt', frozenset(f.t.items()))
        s = _keys.get(key)
        if s is None:
            lo, hi = interval(f)
            lo = fsqrt(lo) * (1 - 1e-12) if lo > 0 else 0.0
            hi = fsqrt(hi) * (1 + 1e-12) if 0 <= hi < inf else inf
            s = new_atom('sqrt', 's%d' % len(ATOMS), f, lo, hi)
            _keys[key] = s
        out = out * atom_R(s)
    return out


def rabs(a):
    if type(a) is R:
        if a.nn:
            return a
        lo, hi = interval(a)
        if lo >= 0:
            return a
        if hi <= 0:
            return -a
        return -a if Hooks.decide('lt', a) else a
    return abs(a)


# ---------------------------------------------------------------- intervals
def fpow(x, e):
    try:
        return x ** e
    except OverflowError:
        return inf if x > 0 or e % 2 == 0 else -inf
    except ZeroDivisionError:
        return inf


def ipow(lo, hi, e):
    if e == 1:
        return lo, hi
    if e < 0:
        if lo > 0:
            return (fpow(hi, e) if hi != inf else 0.0), fpow(lo, e)
        if hi < 0:
            a, b = ipow(-hi, -lo, e)
            return (a, b) if e % 2 == 0 else (-b, -a)
        if lo == 0 and hi > 0:
            return (fpow(hi, e) if hi != inf else 0.0), inf
        return (0.0, inf) if e % 2 == 0 else (-inf, inf)
    if e % 2 == 0:
        a, b = abs(lo), abs(hi)
        if a > b:
            a, b = b, a
        if lo <= 0 <= hi:
            a = 0.0
        return fpow(a, e), fpow(b, e)
    return fpow(lo, e), fpow(hi, e)


def imul(a, b, c, d):
    ps = []
    for x in (a, b):
        for y in (c, d):
            p = x * y
            ps.append(0.0 if p != p else p)
    return min(ps), max(ps)


def interval(r):
    if type(r) is not R:
        v = float(r)
        return v, v
    lo = hi = 0.0
    mag = 0.0
    for m, k in kgroup(r).items():
        c = kval(k)
        a = b = c
        for i, e in m:
            at = ATOMS[i]
            x, y = ipow(at.lo, at.hi, e)
            a, b = imul(a, b, x, y)
        if type(k) is R:
            mag += sum(abs(float(cc)) for cc in k.t.values()) * 4
        lo += a
        hi += b
        if lo != lo:
            lo = -inf
        if hi != hi:
            hi = inf
        if a not in (inf, -inf):
            mag += abs(a)
        if b not in (inf, -inf):
            mag += abs(b)
    e = mag * 1e-13
    if len(r.t) == 1 and e and (lo >= 0 or hi <= 0):
        # a single product keeps its sign
        lo, hi = (max(0.0, lo - e) if lo >= 0 else lo - e), (min(0.0, hi + e) if hi <= 0 else hi + e)
    else:
        lo, hi = lo - e, hi + e
    if r.nn and lo < 0:
        lo = 0.0
    return lo, hi


# ---------------------------------------------------------------- decision normal form
def reduce_zero(r, limit=200000):
    """Clears all inverse atoms and negative exponents and reduces squares of root atoms.
    Returns a numerator N (Fraction or R) with: r == 0 iff N == 0 (given the atoms' definitions)."""
    if type(r) is not R:
        return r
    while True:
        if type(r) is not R:
            return r
        # highest atom that still needs work
        top = -1
        for m in r.t:
            for i, e in m:
                if i > top and i not in CONST_SQRT:
                    a = ATOMS[i]
                    if a.kind == 'inv' or e < 0 or (a.kind == 'sqrt' and e >= 2):
                        top = i
        if top < 0:
            return r
        a = ATOMS[top]
        es = [dict(m).get(top, 0) for m in r.t]
        if a.kind == 'inv':
            K = max(es)
            q = a.arg
            pw = {}
            acc = F0
            groups = {}
            for m, c in r.t.items():
                d = dict(m)
                e = d.pop(top, 0)
                groups.setdefault(K - e, {})[tuple(sorted(d.items()))] = c
            for n, t in groups.items():
                if n not in pw:
                    pw[n] = rpow(q, n)
                acc = norm(t) * pw[n] + acc
            r = acc
        else:
            mn = min(es)
            if mn < 0:
                if a.kind == 'sqrt' and mn % 2:
                    pass
                r = r * mono_R(((top, -mn),))
                if type(r) is not R:
                    return r
            if a.kind == 'sqrt':
                groups = {}
                for m, c in r.t.items():
                    d = dict(m)
                    e = d.pop(top, 0)
                    h, o = divmod(e, 2)
                    if o:
                        d[top] = 1
                    groups.setdefault(h, {})[tuple(sorted(d.items()))] = c
                acc = F0
                for n, t in groups.items():
                    acc = norm(t) * rpow(a.arg, n) + acc
                r = acc
        if type(r) is R and len(r.t) > limit:
            raise OverflowError('normal form too large')


# ---------------------------------------------------------------- sampling
def atom_samples(i):
    v = _smps.get(i)
    if v is not None:
        return v
    a = ATOMS[i]
    n = Hooks.nsamples
    if a.kind in ('in', 'free'):
        raise KeyError(a.name)
    if a.const:
        v = np.full(n, a.val)
    elif a.kind == 'sqrt':
        with np.errstate(all='ignore'):
            v = np.sqrt(np.maximum(ev(a.arg)[0], 0.0))
    else:
        with np.errstate(all='ignore'):
            v = 1.0 / ev(a.arg)[0]
    _smps[i] = v
    return v


def ev(r):
    """(values, magnitude of the terms) of r at all samples"""
    n = Hooks.nsamples
    if type(r) is not R:
        x = np.full(n, float(r))
        return x, np.abs(x)
    s = np.zeros(n)
    g = np.zeros(n)
    pc = {}
    with np.errstate(all='ignore'):
        for m, c in r.t.items():
            v = None
            for ie in m:
                p = pc.get(ie)
                if p is None:
                    p = atom_samples(ie[0])
                    if ie[1] != 1:
                        p = p ** ie[1]
                    pc[ie] = p
                v = p if v is None else v * p
            v = float(c) if v is None else v * float(c)
            s = s + v
            g = g + np.abs(v)
    return s, g


def drop_samples():
    """forget derived sample arrays (after new input samples were set)"""
    for i in list(_smps):
        if ATOMS[i].kind not in ('in', 'free'):
            del _smps[i]
