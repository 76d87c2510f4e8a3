"""Path condition, branch decisions and obligations; z3 is the decision procedure."""
import os
import time
import json
import hashlib
from math import inf, nan, floor, ceil
import numpy as np
import z3
from . import num as N
from .num import R, Fr, F0, F1, ATOMS, Hooks, ev, interval


class PathEnd(Exception):
    pass


class Undecided(Exception):
    pass


class St:
    facts = []            # (op, R): R op 0, op in lt le eq ne
    known = {}            # canonical key -> sign mask (1 neg, 2 zero, 4 pos)
    inputs = []           # (name, lo, hi, atom)
    ints = []             # (name, value)
    alive = None          # indices of samples satisfying the path condition
    stats = dict(queries=0, solver_s=0.0, unsat=0, sat=0, unknown=0, obl=0, obl_norm=0, obl_z3=0, obl_int=0, obl_conc=0,
                 branches=0, forks=0, br_interval=0, br_fact=0, br_sample=0, br_z3=0, assumed_feasible=0, cached_unknown=0)
    cache = None          # directory remembering unanswered queries of this run
    undecided = []
    violations = []
    reach = set()
    outs = []
    fork = None           # explorer callback: fork(n) -> choice index
    timeout = 8000        # ms per query
    br_timeout = 3000
    seed = 1
    nsol = None
    deadline = None
    elim = frozenset()
    submap = {}
    lineq = []            # (atom id, expression): equalities kept by the samples
    prov = {}             # sqrt "P without constant" key -> atom


class Cond:
    __slots__ = ('op', 'r')

    def __init__(self, op, r):
        self.op, self.r = op, r

    def __bool__(self):
        return decide(self.op, self.r)

    def __int__(self):
        return 1 if decide(self.op, self.r) else 0
    __index__ = __int__

    def neg(self):
        return neg(self.op, self.r)

    def __and__(self, o):
        return b_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (Cond, BAnd, BOr)):
            return int(self) ^ int(o)
        return self.neg() if o & 1 else self

    __rxor__ = __xor__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __repr__(self):
        return '(%s %s 0)' % (N.show(self.r, 12), self.op)


class BAnd(Cond):
    __slots__ = ('l',)

    def __init__(self, l):
        self.l = l

    def __bool__(self):
        return all(bool(x) for x in self.l)

    def __int__(self):
        return 1 if bool(self) else 0
    __index__ = __int__

    def neg(self):
        return BOr([x.neg() for x in self.l])

    def __repr__(self):
        return '(and %r)' % (self.l,)


class BOr(Cond):
    __slots__ = ('l',)

    def __init__(self, l):
        self.l = l

    def __bool__(self):
        return any(bool(x) for x in self.l)

    def __int__(self):
        return 1 if bool(self) else 0
    __index__ = __int__

    def neg(self):
        return BAnd([x.neg() for x in self.l])

    def __repr__(self):
        return '(or %r)' % (self.l,)


def b_and(a, b):
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, Cond):
            return y if x & 1 else 0
    l = (a.l if type(a) is BAnd else [a]) + (b.l if type(b) is BAnd else [b])
    return BAnd(l)


def b_or(a, b):
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, Cond):
            return 1 if x & 1 else y
    l = (a.l if type(a) is BOr else [a]) + (b.l if type(b) is BOr else [b])
    return BOr(l)


NEGOP = {'lt': 'ge', 'le': 'gt', 'eq': 'ne', 'ne': 'eq'}


def neg(op, r):
    if op == 'lt':
        return mkcond('le', -r)
    if op == 'le':
        return mkcond('lt', -r)
    return mkcond('ne' if op == 'eq' else 'eq', r)


def mkcond(op, r):
    t = type(r)
    if t is Fr:
        return {'lt': r < 0, 'le': r <= 0, 'eq': r == 0, 'ne': r != 0}[op]
    if t is float:
        if r != r:
            return op == 'ne'
        return {'lt': r < 0, 'le': r <= 0, 'eq': False, 'ne': True}[op]
    return Cond(op, r)


# ---------------------------------------------------------------- comparison of doubles (real mode)
def fcmp(pred, a, b):
    ta, tb = type(a), type(b)
    if ta is float or tb is float:
        fa = a if ta is float else (0.0 if ta is R else float(a))
        fb = b if tb is float else (0.0 if tb is R else float(b))
        un = fa != fa or fb != fb
        p = pred[1:]
        if pred == 'ord':
            return not un
        if pred == 'uno':
            return un
        if un:
            return pred[0] == 'u'
        return {'eq': fa == fb, 'gt': fa > fb, 'ge': fa >= fb, 'lt': fa < fb, 'le': fa <= fb, 'ne': fa != fb}[p]
    if pred == 'ord':
        return True
    if pred == 'uno':
        return False
    p = pred[1:]
    if p == 'lt':
        return mkcond('lt', a - b)
    if p == 'le':
        return mkcond('le', a - b)
    if p == 'gt':
        return mkcond('lt', b - a)
    if p == 'ge':
        return mkcond('le', b - a)
    if p == 'eq':
        return mkcond('eq', a - b)
    return mkcond('ne', a - b)


# ---------------------------------------------------------------- canonical sign form
def positive_atom(i):
    a = ATOMS[i]
    return a.lo > 0 or (a.kind == 'sqrt' and a.lo >= 0)


def canon(r):
    """(flip, r0): sign(r) == flip * sign(r0), r0 scaled to a canonical representative"""
    r = N.dropzero(r)
    if N.is_const(r):
        return 1, Fr(N.ksign(r))
    mn = {}
    for mm in r.t:
        for i, e in mm:
            if e < 0 and (e < mn.get(i, 0)):
                mn[i] = e
    if mn:
        mul = tuple(sorted((i, -e) for i, e in mn.items() if positive_atom(i)))
        if mul:
            r = r * N.mono_R(mul)
            if type(r) is not R:
                return 1, r
    m, f = N.split_content(r)
    flip = 1
    keep = []
    for i, e in m:
        a = ATOMS[i]
        if e < 0:
            # it was divided by: non-zero on this path
            if positive_atom(i):
                continue
            if a.hi < 0:
                if e % 2:
                    flip = -flip
                continue
            if e % 2:
                keep.append((i, 1))
        else:
            if a.lo > 0 or (a.kind == 'inv' and a.lo >= 0):
                continue
            if a.hi < 0:
                if e % 2:
                    flip = -flip
                continue
            keep.append((i, 1 if e % 2 else 2))
    if keep:
        f = f * N.mono_R(tuple(keep))
    if type(f) is not R:
        return flip, f
    # polynomial content taken out with a common inverse atom cannot be cleared by sign: leave it
    k, f = N.monic(f)
    if N.kval(k) < 0:
        flip = -flip
    if type(f) is R:
        c = f.t.get((), None)
        g = N.kgroup(f)
        c = g.get((), None)
        if c is not None and len(g) > 1:
            key = frozenset((mm, cc if type(cc) is Fr else cc) for mm, cc in g.items() if mm)
            s = sqrt_by_nc(key)
            if s is not None:
                # f = P_s + (c - c_s); P_s = s^2
                cs = N.kgroup(s.arg).get((), F0)
                d = cs - c        # f = s^2 - d
                dv = N.kval(d)
                if dv > 0:
                    f = N.atom_R(s) - N.ksqrt(d)
                elif dv == 0:
                    f = N.atom_R(s)
                else:
                    return flip, F1
    return flip, f


_nc = [0, {}]
_rk = [0]


def reknow():
    """facts stated before a square root was named get their canonical form over it"""
    for a in ATOMS[_rk[0]:]:
        if a.kind == 'sqrt' and not a.const:
            break
    else:
        _rk[0] = len(ATOMS)
        return
    _rk[0] = len(ATOMS)
    for op, r in list(St.facts):
        know(op, r)


def sqrt_by_nc(key):
    if _nc[0] != len(ATOMS):
        for a in ATOMS[_nc[0]:]:
            if a.kind == 'sqrt' and not a.const:
                _nc[1][frozenset((mm, cc) for mm, cc in N.kgroup(a.arg).items() if mm)] = a
        _nc[0] = len(ATOMS)
    return _nc[1].get(key)


ALLOW = {'lt': 1, 'le': 3, 'eq': 2, 'ne': 5}


def flipmask(m):
    return (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2)


def tighten(f, mask):
    """uses sign knowledge about a linear single-atom polynomial to narrow the atom's interval"""
    g = N.kgroup(f)
    vm = [m for m in g if m]
    if len(vm) != 1 or len(vm[0]) != 1:
        return
    i, e = vm[0][0]
    a = ATOMS[i]
    k = N.kval(g[vm[0]])
    b = -N.kval(g.get((), F0)) / k
    if k < 0:
        mask = flipmask(mask)
    if e == 1:
        sl = abs(b) * 1e-15
        if mask == 2:
            a.lo, a.hi = max(a.lo, b - sl), min(a.hi, b + sl)
        elif not mask & 4:
            a.hi = min(a.hi, b + sl)
        elif not mask & 1:
            a.lo = max(a.lo, b - sl)
        if b == 0.0:
            # strictness matters at zero
            if mask == 4 and a.lo <= 0:
                a.lo = 5e-324
            if mask == 1 and a.hi >= 0:
                a.hi = -5e-324


def know(op, r):
    flip, f = canon(r)
    if type(f) is R:
        k = frozenset(f.t.items())
        m = ALLOW[op] if flip > 0 else flipmask(ALLOW[op])
        m &= St.known.get(k, 7)
        St.known[k] = m
        tighten(f, m)
        propagate()
        return f
    return None


# ---------------------------------------------------------------- triangle inequality between square roots
class Tri:
    n = 0
    roots = []            # (atom, components)
    trip = []


def components(p):
    """forms l_k with p == sum l_k^2, one per group of connected variables; None when there is no such split"""
    g = N.kgroup(p)
    if any(type(c) is not Fr for c in g.values()):
        return None
    par = {}

    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    for m in g:
        for i, e in m:
            if e < 0:
                return None
            par.setdefault(i, i)
        for i, _ in m[1:]:
            par[find(i)] = find(m[0][0])
    comp = {}
    for m, c in g.items():
        if m:
            comp.setdefault(find(m[0][0]), {})[m] = c
    const = g.get((), F0)
    out = []
    for t in comp.values():
        quad = {m: c for m, c in t.items() if sum(e for _, e in m) == 2}
        lin = {m: c for m, c in t.items() if sum(e for _, e in m) == 1}
        if len(quad) + len(lin) != len(t) or not quad:
            return None
        L = N.poly_sqrt(R(quad))
        if L is None or type(L) is not R:
            return None
        sh = F0
        if lin:
            m0 = next(iter(L.t))
            sh = lin.get(m0, F0) / (2 * L.t[m0])
            if any(lin.get(m, F0) != 2 * sh * c for m, c in L.t.items()) or len(lin) != len(L.t):
                return None
        const -= sh * sh
        out.append(L + sh if sh else L)
    if const != 0:
        return None
    return out


def combine(c, a, b):
    """is there a sign choice with c_k = +-a_i +-b_j over all components?"""
    if not a and not b:
        return not c
    if a:
        x, rest = a[0], a[1:]
        for k, y in enumerate(b):
            b2 = b[:k] + b[k + 1:]
            for z in (x + y, x - y):
                if type(z) is not R:
                    if z == 0 and combine(c, rest, b2):
                        return True
                    continue
                for q, w in enumerate(c):
                    if w == z or w == -z:
                        if combine(c[:q] + c[q + 1:], rest, b2):
                            return True
                        break
        for q, w in enumerate(c):
            if w == x or w == -x:
                return combine(c[:q] + c[q + 1:], rest, b)
        return False
    for q, w in enumerate(c):
        if w == b[0] or w == -b[0]:
            return combine(c[:q] + c[q + 1:], [], b[1:])
    return False


def triangles():
    if Tri.n != len(ATOMS):
        for a in ATOMS[Tri.n:]:
            if a.kind != 'sqrt' or a.const or len(Tri.roots) > 40:
                continue
            f = components(a.arg)
            if f is None or len(f) > 3:
                continue
            for k, (x, fx) in enumerate(Tri.roots):
                for y, fy in Tri.roots[:k]:
                    if combine(f, fx, fy):
                        Tri.trip.append((a.id, x.id, y.id))
            Tri.roots.append((a, f))
        Tri.n = len(ATOMS)
    return Tri.trip


def propagate():
    tr = triangles()
    if not tr:
        return
    for _ in range(4):
        ch = False
        for t in tr:
            for k in range(3):
                a, b, c = ATOMS[t[k]], ATOMS[t[k - 1]], ATOMS[t[k - 2]]
                hi = (b.hi + c.hi) * (1 + 1e-14)
                lo = max(b.lo - c.hi, c.lo - b.hi) - 1e-14 * (abs(b.lo) + abs(c.lo))
                if hi < a.hi:
                    a.hi = hi
                    ch = True
                if lo > a.lo:
                    a.lo = lo
                    ch = True
        if not ch:
            return


def add_fact(op, r):
    r = sub(r)
    if type(r) is not R:
        if not mkcond(op, r):
            raise PathEnd('infeasible')
        return
    St.facts.append((op, r))
    f = know(op, r)
    if f is not None and St.known.get(frozenset(f.t.items())) == 2:
        add_equality(f)
    filter_samples([(op, r)])


def squares(f):
    """linear forms l_k when f is a sum of squares of affine forms with positive weights (degree 2), else None"""
    lin = {}
    n = 0
    q = {}
    for m, c in N.kgroup(f).items():
        if type(c) is not Fr:
            return None
        d = sum(e for _, e in m)
        if d > 2 or any(e < 0 or ATOMS[i].kind not in ('in', 'free') for i, e in m):
            return None
        ids = [i for i, e in m for _ in range(e)]
        ids += [-1] * (2 - len(ids))
        a, b = sorted(ids)
        q[(a, b)] = q.get((a, b), F0) + c
    vs = sorted(set(x for k in q for x in k))
    A = {}
    for (a, b), c in q.items():
        if a == b:
            A[a, a] = c
        else:
            A[a, b] = A[b, a] = c / 2
    forms = []
    order = [v for v in vs if v != -1] + ([-1] if -1 in vs else [])
    while order:
        p = None
        for v in order:
            if A.get((v, v), F0) != 0 and v != -1:
                p = v
                break
        if p is None:
            if any(A.get((x, y), F0) != 0 for x in order for y in order):
                return None
            break
        d = A[p, p]
        if d < 0:
            return None
        row = {w: A.get((p, w), F0) / d for w in order}
        form = F0
        for w, c in row.items():
            if c:
                form = form + (c if w == -1 else N.atom_R(ATOMS[w]) * c)
        forms.append(form)
        order.remove(p)
        for x in order:
            for y in order:
                A[x, y] = A.get((x, y), F0) - d * row[x] * row[y]
    return forms


def add_equality(f):
    """consequences of f == 0 that help the samples and the solver"""
    g = f
    if len(f.t) == 1:
        (m, c), = f.t.items()
        if len(m) == 1 and ATOMS[m[0][0]].kind == 'sqrt' and not ATOMS[m[0][0]].const:
            g = ATOMS[m[0][0]].arg
            if type(g) is not R:
                return
    fs = squares(g)
    if fs and (len(fs) > 1 or g is not f or fs[0] != f):
        for l in fs:
            if type(l) is R:
                add_fact('eq', l)
        return
    # affine equality: eliminate the youngest input in the samples
    best = None
    for m, c in f.t.items():
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind in ('in', 'free'):
            i = m[0][0]
            if not any(i in dict(m2) or any(i in ATOMS[j].deps for j, _ in m2) for m2 in f.t if m2 != m):
                if best is None or i > best[0]:
                    best = (i, c)
    if best is not None:
        i, c = best
        rest = f - N.atom_R(ATOMS[i]) * c
        eliminate(i, (-rest) * (F1 / c))
        if St.alive is not None:
            apply_eqs(St.lineq)
            refilter()


def sub(r):
    """r with the inputs eliminated by equalities of the path replaced"""
    if not St.lineq or type(r) is not R:
        return r
    el = St.elim
    if not any(i in el or ATOMS[i].deps & el for m in r.t for i, _ in m):
        return r
    out = F0
    for m, c in r.t.items():
        x = c
        keep = []
        for i, e in m:
            if i in el or ATOMS[i].deps & el:
                v = sub_atom(i)
                if e < 0:
                    if type(v) is not R and v == 0:
                        raise PathEnd('infeasible')
                    v = N.recip(v)
                    e = -e
                x = x * (N.rpow(v, e) if e > 1 else v)
            else:
                keep.append((i, e))
        out = out + (x * N.mono_R(tuple(keep)) if keep else x)
    return out


def sub_atom(i):
    v = St.submap.get(i)
    if v is None:
        a = ATOMS[i]
        if a.kind == 'sqrt':
            v = N.rsqrt(sub(a.arg), True)      # its sign was decided when the root was taken
        elif a.kind == 'inv':
            v = sub(a.arg)
            if type(v) is not R and v == 0:
                raise PathEnd('infeasible')
            v = N.recip(v)
        else:
            return N.atom_R(a)
        St.submap[i] = v
    return v


def eliminate(i, e):
    """records input i = e (e free of eliminated inputs) and rewrites what is known"""
    St.elim = frozenset(St.elim | {i})
    old = St.lineq
    St.lineq = old + [(i, e)]
    St.submap = {i: e}
    St.lineq = [(j, sub(x)) for j, x in old] + [(i, e)]
    St.submap = {j: x for j, x in St.lineq}
    new = []
    defs = []
    St.known = {}
    for op, r in St.facts:
        r2 = sub(r)
        if type(r2) is not R:
            if not mkcond(op, r2):
                raise PathEnd('infeasible')
            continue
        new.append((op, r2))
        know(op, r2)
    for j, x in St.lineq:
        defs.append(('eq', N.atom_R(ATOMS[j]) - x))
    St.facts = new + defs


def apply_eqs(eqs):
    for i, e in eqs:
        v = ev(e)[0]
        a = ATOMS[i]
        old = N._smps.get(i)
        v = np.where(np.isfinite(v), v, old if old is not None else 0.0)
        N._smps[i] = v
        N.drop_samples()


def refilter():
    n = Hooks.nsamples
    ok = np.ones(n, bool)
    for i, _ in St.lineq:
        a = ATOMS[i]
        if a.kind == 'in':
            ok &= (N._smps[i] >= a.lo - 1e-12) & (N._smps[i] <= a.hi + 1e-12)
    St.alive = np.nonzero(ok)[0]
    filter_samples(St.facts)


def sample_signs(r):
    """sign of r at the alive samples: -1, 0 (ambiguous), 1"""
    if St.alive is None or len(St.alive) == 0:
        return None
    v, g = ev(r)
    v = v[St.alive]
    g = g[St.alive]
    s = np.zeros(len(v), dtype=int)
    tol = 1e-9 * g + 1e-300
    s[v > tol] = 1
    s[v < -tol] = -1
    s[~np.isfinite(v)] = 2
    return s


def exact_zero(r):
    """samples that are roots beyond doubt: a sum of inputs that vanishes"""
    if all(len(m) <= 1 and all(ATOMS[i].kind in ('in', 'free') and e == 1 for i, e in m) for m in r.t):
        return ev(r)[0][St.alive] == 0
    return np.zeros(len(St.alive), dtype=bool)


def filter_samples(fs):
    if St.alive is None:
        return
    for op, r in fs:
        if len(St.alive) == 0:
            return
        if type(r) is not R:
            continue
        s = sample_signs(r)
        ok = {'lt': s == -1, 'le': s == -1, 'eq': s == 0, 'ne': (s == 1) | (s == -1)}[op]
        St.alive = St.alive[ok]


def init_samples():
    St.alive = np.arange(Hooks.nsamples)


def new_input(name, lo, hi):
    a = N.new_atom('in', name, None, lo, hi)
    rng = np.random.default_rng((St.seed * 7919 + len(ATOMS)) & 0x7fffffff)
    n = Hooks.nsamples
    l, h = (lo if lo > -inf else -4.0), (hi if hi < inf else 4.0)
    if l <= 0 and lo == -inf and hi == inf:
        pass
    v = l + (h - l) * rng.random(n)
    # some structured values
    k = n // 8
    q = np.round(v[:k] * 4) / 4
    q = np.minimum(np.maximum(q, l), h)
    v[:k] = q
    N._smps[a.id] = v
    St.inputs.append((name, lo, hi, a))
    return N.atom_R(a)


def free_atom(name):
    a = N.new_atom('free', name, None, -inf, inf)
    rng = np.random.default_rng((St.seed * 104729 + len(ATOMS)) & 0x7fffffff)
    N._smps[a.id] = rng.normal(size=Hooks.nsamples) * 3
    return N.atom_R(a)


def mutate(src, keep, seed, wide=-0.3):
    """new sample population: samples `keep` first, then random perturbations of the samples `src`"""
    n = Hooks.nsamples
    rng = np.random.default_rng(seed & 0x7fffffff)
    src = np.concatenate([keep, src[rng.integers(0, len(src), n - len(keep))]]) if len(keep) else src[rng.integers(0, len(src), n)]
    scale = 10.0 ** rng.uniform(-4, wide, n)
    pin = rng.uniform(0.2, 0.9)
    for a in ATOMS:
        if a.kind not in ('in', 'free'):
            continue
        w = N._smps[a.id][src]
        lo, hi = (a.lo, a.hi) if a.kind == 'in' else (-inf, inf)
        span = (hi - lo) if hi - lo < inf else 4.0
        d = rng.normal(size=n) * scale * span
        d[rng.random(n) < pin] = 0
        d[:len(keep)] = 0
        N._smps[a.id] = np.minimum(np.maximum(w + d, lo), hi)
    N.drop_samples()
    apply_eqs(St.lineq)
    refilter()


def enrich(need=12):
    """more samples inside the current path condition, by perturbing survivors"""
    if St.alive is None or len(St.alive) == 0 or len(St.alive) >= need:
        return
    if not any(a.kind in ('in', 'free') for a in ATOMS):
        return
    for k in range(3):
        base = St.alive
        mutate(base, base, St.seed + 31 * len(St.facts) + k)
        if len(St.alive) >= need:
            break
        if len(St.alive) == 0:
            break


def seek(op, r, gens=14):
    """looks for samples of the current path where 'r op 0' holds, by an evolutionary walk"""
    if op == 'eq' or St.alive is None or len(St.alive) == 0:
        return False
    for g in range(gens):
        v, mag = ev(r)
        v, mag = v[St.alive], mag[St.alive]
        h = v / (mag + 1e-300)
        h[~np.isfinite(h)] = inf
        if op == 'ne':
            return bool((np.abs(h) > 1e-9).any())
        if (h < -1e-9).any():
            return True
        if len(h) == 0:
            return False
        o = np.argsort(h)
        keep = np.concatenate([St.alive[:128], St.alive[o[:16]]])
        mutate(St.alive[o[:16]], keep, St.seed + 977 * len(St.facts) + g)
        if len(St.alive) == 0:
            return False
    return False


def add_model_sample(vals):
    """put a model (input atom id -> float) at sample index 0 and refilter"""
    n = Hooks.nsamples
    keep = St.alive[:n - 1]
    for a in ATOMS:
        if a.kind in ('in', 'free'):
            v = N._smps[a.id].copy()
            if len(keep):
                v[1:1 + len(keep)] = v[keep]
            x = vals.get(a.id, None)
            v[0] = x if x is not None else v[0]
            N._smps[a.id] = v
    N.drop_samples()
    St.alive = np.arange(len(keep) + 1)
    apply_eqs(St.lineq)
    filter_samples(St.facts)


# ---------------------------------------------------------------- z3
def zfrac(c):
    return z3.RatVal(c.numerator, c.denominator)


def zatom(i):
    a = ATOMS[i]
    if a.z3 is None:
        a.z3 = z3.Real(a.name + '_%d' % i)
    return a.z3


def zR(r, allow_neg=False):
    """z3 term of an R without negative exponents"""
    if type(r) is not R:
        return zfrac(r)
    terms = []
    for m, c in r.t.items():
        fs = []
        for i, e in m:
            v = zatom(i)
            for _ in range(e):
                fs.append(v)
        if c != 1 or not fs:
            fs.insert(0, zfrac(c))
        terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
    return terms[0] if len(terms) == 1 else z3.Sum(*terms)


def clear(op, r):
    """(op, r') equivalent constraint without negative exponents (atoms divided by are non-zero on the path)"""
    if type(r) is not R:
        return op, r
    mn = {}
    for m in r.t:
        for i, e in m:
            if e < 0:
                mn[i] = min(mn.get(i, 0), e)
    if not mn:
        return op, r
    mul = []
    neg_ = 1
    for i, e in mn.items():
        e = -e
        a = ATOMS[i]
        if not positive_atom(i):
            if a.hi < 0:
                if e % 2:
                    neg_ = -neg_
            elif e % 2 and op in ('lt', 'le'):
                e += 1
        mul.append((i, e))
    r = r * N.mono_R(tuple(sorted(mul)))
    if neg_ < 0:
        r = -r
    return op, r


def zfact(op, r):
    op, r = clear(op, r)
    t = zR(r)
    if op == 'lt':
        return t < 0
    if op == 'le':
        return t <= 0
    if op == 'eq':
        return t == 0
    return t != 0


def support(r):
    s = set()
    if type(r) is R:
        for m in r.t:
            for i, _ in m:
                s.add(i)
                s |= ATOMS[i].deps
    return s


def zdefs(ids):
    out = []
    for i in sorted(ids):
        a = ATOMS[i]
        v = zatom(i)
        if a.kind == 'in':
            if a.lo > -inf:
                out.append(v >= zfrac(Fr(a.lo)) if a.lo != 5e-324 else v > 0)
            if a.hi < inf:
                out.append(v <= zfrac(Fr(a.hi)) if a.hi != -5e-324 else v < 0)
        elif a.kind == 'konst':
            lo, hi = N._hp[i]
            sh = N.HP - 120
            out.append(v >= zfrac(Fr(lo >> sh, 1 << 120)))
            out.append(v <= zfrac(Fr((hi >> sh) + 1, 1 << 120)))
        elif a.kind == 'sqrt':
            o, p = clear('eq', N.atom_R(a) * N.atom_R(a) - a.arg if not a.const else F0)
            if a.const:
                if type(a.arg) is R:
                    out.append(v * v == zR(a.arg))
                else:
                    out.append(v * v == zfrac(a.arg))
            else:
                out.append(zR(p) == 0)
            out.append(v > 0 if a.lo > 0 else v >= 0)
        elif a.kind == 'inv':
            o, p = clear('eq', N.atom_R(a) * a.arg - F1)
            out.append(zR(p) == 0)
            if a.lo >= 0:
                out.append(v > 0)
            if a.hi <= 0:
                out.append(v < 0)
    return out


def relevant(conj):
    """facts connected to the query through shared atoms"""
    ids = set()
    for _, r in conj:
        ids |= support(r)
    rest = [(op, r, support(r)) for op, r in St.facts]
    sel = []
    ch = True
    while ch:
        ch = False
        nr = []
        for f in rest:
            if f[2] & ids and not all(ATOMS[i].const for i in f[2] & ids):
                sel.append(f)
                if not f[2] <= ids:
                    ids |= f[2]
                ch = True
            else:
                nr.append(f)
        rest = nr
    return sel, ids


def root_only(r):
    return all(ATOMS[i].const or ATOMS[i].kind == 'sqrt' for m in r.t for i, _ in m)


def canon_fact(op, r):
    """(op, r) rewritten over square-root symbols when possible"""
    op, r = clear(op, sub(r))
    if type(r) is not R:
        return None
    flip, f = canon(r)
    if type(f) is not R or not root_only(f):
        return None
    if op in ('eq', 'ne'):
        return op, f
    return op, (f if flip > 0 else -f)


def abstract_unsat(conj):
    """refutation over square-root symbols alone: positions are dropped, triangle inequalities kept"""
    cs = [canon_fact(op, r) for op, r in conj]
    cs = [c for c in cs if c]
    if not cs:
        return False
    fs = [canon_fact(op, r) for op, r in St.facts]
    fs = [f for f in fs if f and all(sum(abs(e) for i, e in m if not ATOMS[i].const) <= 2 for m in f[1].t)]
    ids = set()
    for op, r in cs + fs:
        ids |= {i for m in r.t for i, _ in m}
    tr = [t for t in triangles() if len(set(t) & ids) >= 2]
    for t in tr:
        ids |= set(t)
    for i in list(ids):
        if ATOMS[i].const:
            ids |= ATOMS[i].deps
    s = z3.SolverFor('QF_NRA')
    s.set('timeout', 300)
    for op, r in cs + fs:
        s.add(zfact(op, r))
    for i in ids:
        a = ATOMS[i]
        v = zatom(i)
        if a.const:
            for d in zdefs([i]):
                s.add(d)
        else:
            s.add(v >= zfrac(Fr(max(0.0, a.lo))))
            if a.hi < inf:
                s.add(v <= zfrac(Fr(a.hi)))
    for a, b, c in tr:
        a, b, c = zatom(a), zatom(b), zatom(c)
        s.add(a <= b + c, b <= a + c, c <= a + b)
    t0 = time.time()
    c = s.check()
    St.stats['queries'] += 1
    St.stats['solver_s'] += time.time() - t0
    if os.environ.get('VP_TRACE'):
        print('[a %s %.2fs]' % (c, time.time() - t0), flush=True)
    if c == z3.unsat:
        St.stats['unsat'] += 1
        return True
    St.stats['unknown' if c == z3.unknown else 'sat'] += 1
    return False


def query(conj, timeout, extra=None, again=True):
    """is path & conj satisfiable?  ('unsat', None) / ('sat', model dict) / ('unknown', None)"""
    conj = [(op, r) for op, r in conj]
    lits = []
    for op, r in conj:
        if type(r) is not R:
            if not mkcond(op, r):
                return 'unsat', None
    if again and abstract_unsat(conj):
        return 'unsat', None
    sel, ids = relevant(conj)
    # 1. without the path facts except directly related ones (cheap, sound for unsat), 2. everything
    own = set()
    for _, r in conj:
        own |= support(r)
    small = [(op, r) for op, r, s in sel if s <= own]
    full = [(op, r) for op, r, s in sel]
    stages = [(small, own)] if len(small) == len(full) else [(small, own), (full, ids)]
    res = 'unknown'
    for k, (fs, idset) in enumerate(stages):
        last = k == len(stages) - 1
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', int(timeout if last else max(500, timeout // 3)))
        s.set('random_seed', St.seed)
        for op, r in fs:
            s.add(zfact(op, r))
        for op, r in conj:
            s.add(zfact(op, r))
        for d in zdefs(idset):
            s.add(d)
        for t in triangles():
            if set(t) <= set(idset):
                a, b, c = map(zatom, t)
                s.add(a <= b + c, b <= a + c, c <= a + b)
        if extra and last:
            for e in extra:
                s.add(e)
        key = None
        if St.cache:
            key = os.path.join(St.cache, hashlib.sha1(s.sexpr().encode()).hexdigest()[:24])
            try:
                tmo = int(open(key).read())
                if tmo >= (timeout if last else max(500, timeout // 3)):
                    St.stats['cached_unknown'] += 1
                    continue
            except (OSError, ValueError):
                pass
        t0 = time.time()
        c = s.check()
        dt = time.time() - t0
        St.stats['queries'] += 1
        St.stats['solver_s'] += dt
        if c == z3.unknown and key:
            try:
                with open(key, 'w') as fh:
                    fh.write('%d' % (timeout if last else max(500, timeout // 3)))
            except OSError:
                pass
        if os.environ.get('VP_TRACE'):
            print('[q %s %.2fs facts=%d conj=%s%s]' % (c, dt, len(fs), [Cond(*x) for x in conj], (' FACTS %s' % [Cond(*x) for x in fs]) if str(c) == 'unknown' else ''), flush=True)
        if c == z3.unsat:
            St.stats['unsat'] += 1
            return 'unsat', None
        if c == z3.sat and last:
            St.stats['sat'] += 1
            return 'sat', model_vals(s.model(), idset)
        if c == z3.sat and not last:
            # a model of the subset may satisfy everything
            pass
    St.stats['unknown'] += 1
    return 'unknown', None


def model_vals(m, ids):
    d = {}
    for i in ids:
        a = ATOMS[i]
        if a.kind in ('in', 'free'):
            v = m.eval(zatom(i), model_completion=True)
            if z3.is_rational_value(v):
                d[i] = float(Fr(v.numerator_as_long(), v.denominator_as_long()))
            elif z3.is_algebraic_value(v):
                ap = v.approx(20)
                d[i] = float(Fr(ap.numerator_as_long(), ap.denominator_as_long()))
            else:
                d[i] = 0.0
    return d


def decide(op, r):
    """decides the branch 'r op 0'; forks the path when both outcomes are feasible"""
    if type(r) is not R:
        return mkcond(op, r)
    S = St.stats
    S['branches'] += 1
    r = sub(r)
    if type(r) is not R:
        return mkcond(op, r)
    reknow()
    flip, f = canon(r)
    allow = ALLOW[op] if flip > 0 else flipmask(ALLOW[op])
    if type(f) is not R:
        return bool(mkcond_mask(f, allow))
    key = frozenset(f.t.items())
    kn = St.known.get(key, 7)
    if kn & ~allow == 0:
        S['br_fact'] += 1
        return True
    if kn & allow == 0:
        S['br_fact'] += 1
        return False
    lo, hi = interval(f)
    kn2 = kn
    if lo > 0:
        kn2 &= 4
    elif lo == 0:
        kn2 &= 6
    if hi < 0:
        kn2 &= 1
    elif hi == 0:
        kn2 &= 3
    if kn2 and kn2 & ~allow == 0:
        S['br_interval'] += 1
        return True
    if kn2 and kn2 & allow == 0:
        S['br_interval'] += 1
        return False
    if op in ('eq', 'ne'):
        # a polynomial that is identically zero?
        try:
            z = N.dropzero(N.reduce_zero(r))
        except OverflowError:
            z = r
        if type(z) is not R and z == 0:
            return op == 'eq'
    if St.deadline and time.time() > St.deadline:
        raise Undecided('deadline')
    enrich()
    s = sample_signs(f)
    can_t = can_f = tm = fm = None
    if s is not None and len(s):
        nz = (s == 1) | (s == -1)
        z = exact_zero(f) if allow in (2, 5) else s
        t = {1: s == -1, 3: s == -1, 4: s == 1, 6: s == 1, 2: z, 5: nz}[allow]
        fl = {1: s == 1, 3: s == 1, 4: s == -1, 6: s == -1, 2: nz, 5: z}[allow]
        if t.any():
            can_t = True
        if fl.any():
            can_f = True
    if can_t and can_f:
        S['br_sample'] += 1
    else:
        S['br_z3'] += 1
        if can_t is None:
            can_t, tm = feasible(op, r)
        if can_f is None:
            can_f, fm = (True, None) if can_t is False else feasible(*negpair(op, r))
        if not can_t and not can_f:
            raise PathEnd('infeasible')
    if can_t and can_f:
        S['forks'] += 1
        if St.fork(2) == 0:
            add_fact(op, r)
            if tm is not None:
                add_model_sample(tm)
            return True
        add_fact(*negpair(op, r))
        if fm is not None:
            add_model_sample(fm)
        return False
    if can_t:
        add_fact(op, r)
        return True
    add_fact(*negpair(op, r))
    return False


def feasible(op, r):
    """(possible?, model): unsat is certain, an unanswered query counts as possible"""
    if abstract_unsat([(op, r)]):
        return False, None
    if seek(op, r, 5):
        return True, None
    cf = canon_fact(op, r)
    if cf and len({i for m in cf[1].t for i, _ in m if not ATOMS[i].const}) == 1:
        # a bound on a single distance that the distances alone allow
        q, m = query([(op, r)], 60, again=False)
        if q == 'unknown':
            St.stats['assumed_feasible'] += 1
            return True, None
    else:
        q, m = query([(op, r)], 150, again=False)
    if q == 'unknown':
        if seek(op, r, 12):
            return True, None
        q, m = query([(op, r)], min(400, St.br_timeout), again=False)
    if q == 'unsat':
        return False, None
    if q == 'unknown':
        St.stats['assumed_feasible'] += 1
        return True, None
    return True, m


def negpair(op, r):
    if op == 'lt':
        return 'le', -r
    if op == 'le':
        return 'lt', -r
    return ('ne', r) if op == 'eq' else ('eq', r)


def mkcond_mask(f, allow):
    if f < 0:
        return allow & 1
    if f == 0:
        return allow & 2
    return allow & 4


Hooks.decide = decide


def assume(c):
    if not isinstance(c, Cond):
        if not c & 1:
            raise PathEnd('assume')
        return
    if type(c) is BAnd:
        for x in c.l:
            assume(x)
        return
    if type(c) is BOr:
        if not bool(c):
            raise PathEnd('assume')
        return
    op, r = c.op, sub(c.r)
    if type(r) is not R:
        if not mkcond(op, r):
            raise PathEnd('assume')
        return
    flip, f = canon(r)
    allow = ALLOW[op] if flip > 0 else flipmask(ALLOW[op])
    if type(f) is not R:
        if not mkcond_mask(f, allow):
            raise PathEnd('assume')
        return
    enrich()
    s = sample_signs(r)
    if s is not None and len(s):
        t = {'lt': s == -1, 'le': s == -1, 'eq': s == 0, 'ne': (s == 1) | (s == -1)}[op]
        if t.any():
            add_fact(op, r)
            return
    q, m = query([(op, r)], St.timeout)
    if q == 'unsat':
        raise PathEnd('assume')
    add_fact(op, r)
    if q == 'sat' and m is not None:
        add_model_sample(m)


def rfloor(r):
    """floor of a number; forks over the integer cells of a symbolic one"""
    if type(r) is Fr:
        return Fr(floor(r))
    if type(r) is float:
        return r
    lo, hi = interval(r)
    if lo == -inf or hi == inf:
        raise Undecided('floor of an unbounded value')
    a, b = floor(lo + 0.0), floor(hi)
    while a < b:
        mid = (a + b + 1) // 2
        if decide('le', Fr(mid) - r):
            a = mid
        else:
            b = mid - 1
    return Fr(a)


def rceil(r):
    if type(r) is Fr:
        return Fr(ceil(r))
    if type(r) is float:
        return r
    return -rfloor(-r)


# ---------------------------------------------------------------- obligations
def violation(label, conj, model=None, kind='check', info=''):
    """records a candidate violation with input values"""
    St.violations.append(dict(label=label, kind=kind, info=info, inputs=model, ints=list(St.ints)))


def sample_model(idx):
    return {name: float(N._smps[a.id][idx]) for name, lo, hi, a in St.inputs}


def named(vals):
    base = None
    if St.alive is not None and len(St.alive):
        base = int(St.alive[0])
    out = {}
    for name, lo, hi, a in St.inputs:
        if a.id in vals:
            out[name] = vals[a.id]
        elif base is not None:
            out[name] = float(N._smps[a.id][base])
        else:
            out[name] = 0.0 if lo <= 0 <= hi else (lo if lo > 0 else hi)
    return out


def path_models(k=3):
    """input vectors satisfying the path condition"""
    enrich(k)
    out = []
    if St.alive is not None and len(St.alive):
        for i in St.alive[:k]:
            out.append(sample_model(int(i)))
    if not out:
        q, m = query([], St.timeout) if St.facts else ('sat', {})
        if St.facts:
            # query everything
            s = z3.SolverFor('QF_NRA')
            s.set('timeout', St.timeout)
            ids = set()
            for op, r in St.facts:
                s.add(zfact(op, r))
                ids |= support(r)
            for d in zdefs(ids):
                s.add(d)
            t0 = time.time()
            c = s.check()
            St.stats['queries'] += 1
            St.stats['solver_s'] += time.time() - t0
            if c == z3.unsat:
                return None
            if c == z3.sat:
                out.append(named(model_vals(s.model(), ids)))
        else:
            out.append(named({}))
    return out


def fault(label, info):
    """a memory/exception fault: a violation when the path is feasible"""
    ms = path_models(3)
    if ms is None:
        raise PathEnd('infeasible')
    St.stats['obl'] += 1
    if not ms:
        St.undecided.append('fault %s (%s) on a path of unknown feasibility' % (label, info))
    else:
        for m in ms:
            violation(label, None, m, 'fault', info)
    raise PathEnd('fault')


def dnf_neg(c):
    """negation of c as a list of conjunctions of (op, R); True/False when concrete"""
    if not isinstance(c, Cond):
        return [] if c & 1 else [[]]
    if type(c) is BAnd:
        out = []
        for x in c.l:
            out += dnf_neg(x)
        return out
    if type(c) is BOr:
        out = [[]]
        for x in c.l:
            nx = dnf_neg(x)
            out = [a + b for a in out for b in nx]
        return out
    return [[negpair(c.op, c.r)]]


def check(c, label):
    S = St.stats
    St.reach.add(label)
    S['obl'] += 1
    if not isinstance(c, Cond):
        if c & 1:
            S['obl_conc'] += 1
            return True
        ms = path_models(3)
        if ms is None:
            raise PathEnd('infeasible')
        if not ms:
            St.undecided.append('%s fails on a path of unknown feasibility' % label)
        for m in ms:
            violation(label, None, m)
        return False
    ok = True
    for conj in dnf_neg(c):
        ok = prove_unsat(conj, label) and ok
    return ok


def same_term(a, b, label):
    S = St.stats
    S['obl'] += 1
    _, a2 = clear('eq', a)
    _, b2 = clear('eq', b)
    s = z3.Solver()
    s.set('timeout', 2000)
    s.add(zR(a2) != zR(b2))
    t0 = time.time()
    c = s.check()
    S['queries'] += 1
    S['solver_s'] += time.time() - t0
    if c == z3.unsat:
        S['unsat'] += 1
        S['obl_z3'] += 1
    else:
        S['unknown'] += 1
        S['obl_norm'] += 1


def impossible(conj):
    """cheap sound refutation of a conjunction"""
    for op, r in conj:
        if type(r) is not R:
            if not mkcond(op, r):
                return 'conc'
            continue
        flip, f = canon(r)
        allow = ALLOW[op] if flip > 0 else flipmask(ALLOW[op])
        if type(f) is not R:
            if not mkcond_mask(f, allow):
                return 'norm'
            continue
        kn = St.known.get(frozenset(f.t.items()), 7)
        lo, hi = interval(f)
        if lo > 0:
            kn &= 4
        elif lo == 0:
            kn &= 6
        if hi < 0:
            kn &= 1
        elif hi == 0:
            kn &= 3
        if kn & allow == 0:
            return 'int'
        try:
            z = N.dropzero(N.reduce_zero(r))
        except OverflowError:
            continue
        if type(z) is not R and z == 0 and op in ('ne', 'lt'):
            return 'norm'
    return None


def prove_unsat(conj, label):
    S = St.stats
    conj = [(op, sub(r)) for op, r in conj]
    im = impossible(conj)
    if im:
        if im == 'norm':
            # numeric cross-check of the normal form at the samples
            for op, r in conj:
                if type(r) is R and St.alive is not None and len(St.alive):
                    v, g = ev(r)
                    v, g = v[St.alive], g[St.alive]
                    ok = np.isfinite(v)
                    if ok.any() and (np.abs(v[ok]) > 1e-5 * g[ok] + 1e-12).all() and op == 'ne':
                        raise AssertionError('normal form disagrees with samples: ' + label)
        S[{'conc': 'obl_conc', 'norm': 'obl_norm', 'int': 'obl_int'}[im]] += 1
        q, _ = 'unsat', None
        return True
    # sampling may already show a violation: prefer models with a large margin
    enrich(32)
    if St.alive is not None and len(St.alive):
        good = np.ones(len(St.alive), bool)
        score = np.full(len(St.alive), inf)
        for op, r in conj:
            if type(r) is not R:
                continue
            s = sample_signs(r)
            good &= {'lt': s == -1, 'le': s == -1, 'eq': s == 0, 'ne': (s == 1) | (s == -1)}[op]
            v, g = ev(r)
            score = np.minimum(score, np.abs(v[St.alive]) / (g[St.alive] + 1e-300))
        idx = np.nonzero(good)[0]
        if len(idx):
            idx = idx[np.argsort(-score[idx])][:4]
            for i in idx:
                violation(label, conj, sample_model(int(St.alive[i])), info='margin %.3g' % score[i])
            return False
    q, m = query(conj, St.timeout)
    if q == 'unsat':
        S['obl_z3'] += 1
        return True
    if q == 'sat':
        violation(label, conj, named(m), info='solver model')
        # look for better-conditioned models nearby
        for extra in margin_constraints(conj):
            q2, m2 = query(conj, St.timeout // 2, extra)
            if q2 == 'sat':
                violation(label, conj, named(m2), info='solver model with margin')
                break
        return False
    St.undecided.append('%s: solver gave no answer' % label)
    return False


def margin_constraints(conj):
    for eps in (Fr(1, 10), Fr(1, 1000)):
        ex = []
        for op, r in conj:
            o, r2 = clear(op, r)
            t = zR(r2)
            if op == 'lt':
                ex.append(t < zfrac(-eps))
            elif op == 'ne':
                ex.append(z3.Or(t > zfrac(eps), t < zfrac(-eps)))
        yield ex
