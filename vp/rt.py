"""Run-time of the symbolic machine: memory access, exceptions, library models, OpenMP model, harness API."""
import os
import sys
import time
from math import inf, nan, floor, ceil, trunc
from . import llvmc as L
from . import mem, num, solve
from .codegen import CG, Unsupported
from .mem import Fault, Uninit, alloc, load, store, memset, memcpy, where, objs, M64, M32, cstr, new_cstr, d2bits, bits2d, f2fr
from .num import R, Fr, F0, F1
from .solve import St, Cond, PathEnd, Undecided

sys.setrecursionlimit(20000)
ns = {}


class CxxExc(Exception):
    def __init__(self, ptr, ti):
        self.ptr, self.ti = ptr, ti


class VpExit(Exception):
    pass


cfg = dict(mode='real', threads=1, max_instr=None)
ev_uninit = []


# ---------------------------------------------------------------- memory access
def ldd(p):
    o = objs.get(p >> 32)
    if o is not None:
        t = o.c.get(p & M32)
        if t is not None and t[0] == 8:
            v = t[1]
            if type(v) is not int and type(v) is not Uninit:
                return v
    v = load(p, 8)
    if type(v) is int:
        return bits2d(v)
    if type(v) is Uninit:
        a = solve.free_atom('uninit')
        ev_uninit.append(where(p))
        store(p, a, 8)
        return a
    return v


def ldf(p):
    v = load(p, 4)
    return mem.bits2f(v) if type(v) is int else v


def stf(p, v):
    store(p, v, 4)


def ldi(p, n):
    o = objs.get(p >> 32)
    if o is not None:
        t = o.c.get(p & M32)
        if t is not None and t[0] == n:
            v = t[1]
            if type(v) is Fr or type(v) is float:
                return d2bits(v)
            return v
    v = load(p, n)
    if type(v) is Fr or type(v) is float:
        return d2bits(v)
    return v


def ldbig(p, n):
    v = 0
    for k in range(0, n, 8):
        m = min(8, n - k)
        x = ldi(p + k, m) if m in (1, 2, 4, 8) else int.from_bytes(mem.rdbytes(p + k, m), 'little')
        v |= x << (8 * k)
    return v


def stbig(p, v, n):
    for k in range(n):
        store(p + k, (v >> (8 * k)) & 255, 1)


def st(p, v, n):
    store(p, v, n)


# logged variants (race analysis)
class Race:
    on = False
    reads = None
    writes = None
    created = None
    regions = 0
    pairs = 0
    conflicts = []
    atomics = None
    queries = 0


def ldd_l(p):
    Race.reads.append((p, 8))
    return ldd(p)


def ldi_l(p, n):
    Race.reads.append((p, n))
    return ldi(p, n)


def st_l(p, v, n):
    Race.writes.append((p, n))
    store(p, v, n)


def memcpy_(d, s, n):
    if Race.on:
        Race.reads.append((s, n))
        Race.writes.append((d, n))
    memcpy(d, s, int(n))


def memset_(p, b, n):
    if Race.on:
        Race.writes.append((p, n))
    memset(p, b, n)


def race_log(on):
    Race.on = on
    ns['ldd'] = ldd_l if on else ldd
    ns['ldi'] = ldi_l if on else ldi
    ns['st'] = st_l if on else st


def atomicrmw(op, p, v, n):
    if Race.on:
        Race.atomics.append((p, n))
    if op in ('fadd', 'fsub'):
        o = ldd(p)
        store(p, o + v if op == 'fadd' else o - v, n)
        return o
    o = ldi(p, n)
    w = 8 * n
    m = (1 << w) - 1
    r = {'xchg': lambda: v, 'add': lambda: (o + v) & m, 'sub': lambda: (o - v) & m, 'and': lambda: o & v,
         'or': lambda: o | v, 'xor': lambda: o ^ v, 'umax': lambda: max(o, v), 'umin': lambda: min(o, v),
         'max': lambda: smax(o, v, w), 'min': lambda: smin(o, v, w)}[op]()
    store(p, r, n)
    return o


def cmpxchg(p, c, v, n):
    if Race.on:
        Race.atomics.append((p, n))
    o = load(p, n)
    if type(o) is Uninit:
        raise Fault('uninitialised cmpxchg')
    if type(o) is not int or type(c) is not int:
        store(p, v, n)
        return (o, 1)
    if o == c:
        store(p, v, n)
        return (o, 1)
    return (o, 0)


def alloca(fr, n, name):
    p = alloc(n, 'stack ' + name, 'stack')
    fr.append(p)
    return p


def pop_frame(fr):
    for p in fr:
        objs.pop(p >> 32, None)


# ---------------------------------------------------------------- integer helpers
def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def iudiv(a, b, w):
    if b == 0:
        raise Fault('integer division by zero')
    return a // b


def iurem(a, b, w):
    if b == 0:
        raise Fault('integer division by zero')
    return a % b


def isdiv(a, b, w):
    a, b = sx(a, w), sx(b, w)
    if b == 0:
        raise Fault('integer division by zero')
    q = abs(a) // abs(b)
    return (q if (a < 0) == (b < 0) else -q) & ((1 << w) - 1)


def isrem(a, b, w):
    a, b = sx(a, w), sx(b, w)
    if b == 0:
        raise Fault('integer division by zero')
    r = abs(a) % abs(b)
    return (-r if a < 0 else r) & ((1 << w) - 1)


def smax(a, b, w):
    return a if sx(a, w) >= sx(b, w) else b


def smin(a, b, w):
    return a if sx(a, w) <= sx(b, w) else b


def iabs(a, w):
    return abs(sx(a, w)) & ((1 << w) - 1)


def ovf(op, a, b, w):
    m = (1 << w) - 1
    if op[0] == 'u':
        r = {'uadd': a + b, 'usub': a - b, 'umul': a * b}[op]
        return (r & m, int(r < 0 or r > m))
    a, b = sx(a, w), sx(b, w)
    r = {'sadd': a + b, 'ssub': a - b, 'smul': a * b}[op]
    return (r & m, int(r < -(1 << (w - 1)) or r >= 1 << (w - 1)))


def cttz(v, w):
    return w if v == 0 else (v & -v).bit_length() - 1


def fshl(a, b, s, w):
    s %= w
    return (((a << w | b) << s) >> w) & ((1 << w) - 1)


def fshr(a, b, s, w):
    s %= w
    return ((a << w | b) >> s) & ((1 << w) - 1)


def zext1(v):
    return v if type(v) is int else int(v)


def totrunc(v, m):
    if type(v) is int:
        return v & m
    if isinstance(v, Cond):
        return int(v) & m
    return v & m


def insval(agg, v, idx):
    l = list(agg)
    l[idx[0]] = v if len(idx) == 1 else insval(l[idx[0]], v, idx[1:])
    return tuple(l)


def shuffle(a, b, m):
    ab = a + b
    return tuple(ab[k] if k >= 0 else 0 for k in m)


def vec1(f, a):
    return tuple(f(x) for x in a)


def vec2(f, a, b):
    return tuple(f(x, y) for x, y in zip(a, b))


# ---------------------------------------------------------------- floating point (exact reals)
def mkdouble(d):
    return f2fr(d)


def fadd(a, b):
    return a + b


def fsub(a, b):
    return a - b


def fmul(a, b):
    return a * b


def fneg_(a):
    return -a


def ffabs(a):
    return num.rabs(a)


def fsqrt(a):
    return num.rsqrt(a)


def ffloor(a):
    return solve.rfloor(a)


def fceil(a):
    return solve.rceil(a)


def fround(k, a):
    if type(a) is float:
        return a
    half = Fr(1, 2)
    if k in ('rint', 'nearbyint', 'roundeven'):
        f = solve.rfloor(a)
        d = a - f
        if solve.fcmp('olt', d, half):
            return f
        if solve.fcmp('ogt', d, half):
            return f + 1
        return f if f % 2 == 0 else f + 1
    neg = solve.fcmp('olt', a, Fr(0))
    if k == 'trunc':
        return solve.rceil(a) if neg else solve.rfloor(a)
    return solve.rceil(a - half) if neg else solve.rfloor(a + half)


def frem(a, b):
    if type(a) is float or type(b) is float or solve.fcmp('oeq', b, Fr(0)):
        raise Undecided('remainder of special values')
    return a - b * fround('trunc', a / b)


def fmaxnum(a, b):
    return b if solve.fcmp('olt', a, b) else a


def fminnum(a, b):
    return b if solve.fcmp('olt', b, a) else a


def fpow(a, b):
    if type(b) is Fr and b.denominator == 1 and 0 <= b <= 16:
        return num.rpow(a, int(b)) if b else F1
    if type(b) is Fr and b == Fr(1, 2):
        return num.rsqrt(a)
    if type(b) is Fr and b.denominator == 1 and b < 0:
        return num.fdiv(F1, num.rpow(a, int(-b)))
    raise Undecided('pow')


def fcopysign(a, b):
    m = num.rabs(a)
    return -m if solve.fcmp('olt', b, F0) else m


def fpclass(a, k):
    if type(a) is float:
        return int(bool((a != a and k & 3) or (a == inf and k & 512) or (a == -inf and k & 4)))
    if k & ~(3 | 512 | 4) == 0:
        return 0
    raise Undecided('fpclass')


def fptoi(v, w, signed):
    if type(v) is R:
        v = -solve.rfloor(-v) if solve.decide('lt', v) else solve.rfloor(v)
    if type(v) is float:
        return 1 << (w - 1)
    i = trunc(v)
    if signed and not -(1 << (w - 1)) <= i < (1 << (w - 1)):
        return 1 << (w - 1)
    return i & ((1 << w) - 1)


def itofp(v, w, signed):
    v = int(v)
    return Fr(sx(v, w) if signed else v)


# ---------------------------------------------------------------- exceptions
TI_BASES = {   # external type infos of libstdc++
    '_ZTISt9exception': [], '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error'], '_ZTISt12domain_error': ['_ZTISt11logic_error'],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt8bad_cast': ['_ZTISt9exception'],
    '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'], '_ZTISt11range_error': ['_ZTISt13runtime_error'],
    '_ZTISt14overflow_error': ['_ZTISt13runtime_error'], '_ZTISt8ios_base7failure': ['_ZTISt13runtime_error'],
}
name_of = {}          # address -> global name


def ext_ti(n):
    a = cg.addr.get(n)
    if a is None:
        a = alloc(16, n, 'global')
        cg.addr[n] = a
        name_of[a] = n
    return a


def ti_bases(ti):
    n = name_of.get(ti, '')
    if n in TI_BASES and (n not in cg.mod.globals or L.IsDeclaration(cg.mod.globals[n])):
        return [ext_ti(b) for b in TI_BASES[n]]
    vt = load(ti, 8)
    vn = name_of.get(vt - 16, '') if type(vt) is int else ''
    if 'si_class_type_info' in vn:
        return [load(ti + 16, 8)]
    if 'vmi_class_type_info' in vn:
        k = load(ti + 20, 4)
        return [load(ti + 24 + 16 * q, 8) for q in range(k)]
    return []


def ti_derives(ti, base):
    if ti == base or (name_of.get(ti) and name_of.get(ti) == name_of.get(base)):
        return True
    return any(ti_derives(b, base) for b in ti_bases(ti))


_tids = {}


def typeid_for(ti):
    return _tids.setdefault(ti, len(_tids) + 1)


def landing(ex, clauses, cleanup):
    for c in clauses:
        if c is None:
            continue
        if c == 0 or ti_derives(ex.ti, c):
            return (ex_header(ex), 0xfffffff0 if c == 0 else typeid_for(c))
    if cleanup:
        return (ex_header(ex), 0)
    raise ex


_inflight = {}
_caught = []


def ex_header(ex):
    _inflight[ex.ptr] = ex
    return ex.ptr


def resume(v):
    raise _inflight[v[0]]


def x_cxa_throw(p, ti, d):
    raise CxxExc(p, ti)


def x_begin_catch(p):
    _caught.append(p)
    return p


def x_end_catch():
    if _caught:
        _caught.pop()


def x_rethrow():
    if not _caught:
        raise Fault('terminate', 'rethrow without exception')
    raise _inflight[_caught[-1]]


def throw_std(ti, msg):
    p = alloc(16, 'exception')
    std_exc_init(p, ti.replace('_ZTI', '_ZTV'), msg)
    raise CxxExc(p, ext_ti(ti) if ti not in cg.mod.globals else cg.sym_addr(cg.mod.globals[ti]))


def ext_vtable(n):
    a = cg.addr.get(n)
    if a is None:
        g = cg.mod.globals.get(n)
        if g is not None:
            return cg.sym_addr(g)
        a = alloc(64, n, 'global')
        cg.addr[n] = a
        name_of[a] = n
        fill_ext_vtable(a, n)
    return a


def fill_ext_vtable(a, n):
    store(a, 0, 8)
    store(a + 8, 0, 8)
    for k, f in enumerate(['vp_exc_dtor', 'vp_exc_dtor', 'vp_exc_what']):
        store(a + 16 + 8 * k, py_fn(f), 8)


_pyfns = {}


def py_fn(n):
    a = _pyfns.get(n)
    if a is None:
        a = mem.reserve()
        _pyfns[n] = a
        cg.fn_by_addr[a] = n
    return a


def std_exc_init(p, vt, msg):
    store(p, ext_vtable(vt) + 16, 8)
    if mem.objs[p >> 32].size - (p & M32) >= 16:
        store(p + 8, new_cstr(msg, 'message'), 8)


def exc_what(p):
    try:
        v = load(p + 8, 8)
        if type(v) is int and (v >> 32) in objs:
            return v
    except Fault:
        pass
    return new_cstr('std::exception')


def std_string(p):
    d, n = load(p, 8), load(p + 8, 8)
    return mem.rdbytes(d, n).decode('utf-8', 'replace')


def unreachable():
    raise Fault('unreachable', 'undefined behaviour reached')


def trap():
    raise Fault('trap')


def unsupported(n):
    raise Unsupported(n)


def icall(p, args):
    n = cg.fn_by_addr.get(p)
    if n is None:
        raise Fault('call through invalid pointer', where(p))
    return ns[fn_ref(cg, n)](*args)


# ---------------------------------------------------------------- OpenMP
class Omp:
    tid = 0
    T = 1
    level = 0
    disp = {}


def x_fork_call(loc, argc, fn, *args):
    T = cfg['threads']
    n = cg.fn_by_addr[fn]
    f = ns[fn_ref(cg, n)]
    if Omp.level > 0:
        T = 1
    Omp.level += 1
    oldT, oldtid = Omp.T, Omp.tid
    Omp.T = T
    Omp.disp = {}
    logs = []
    try:
        for t in range(T):
            Omp.tid = t
            g = alloc(4, 'gtid')
            store(g, t, 4)
            if T > 1 and cfg.get('races'):
                first = mem._next[0]
                Race.reads, Race.writes, Race.atomics = [], [], []
                race_log(True)
                try:
                    f(g, g, *args)
                finally:
                    race_log(False)
                logs.append((first, mem._next[0], Race.reads, Race.writes, Race.atomics))
            else:
                f(g, g, *args)
            objs.pop(g >> 32, None)
    except CxxExc:
        raise Fault('terminate', 'exception leaves a parallel region')
    finally:
        Omp.T, Omp.tid = oldT, oldtid
        Omp.level -= 1
    if logs:
        race_check(n, logs)


def x_for_static_init(w, signed):
    def f(loc, gtid, sched, plast, plo, pup, pst, incr, chunk):
        n = w // 8
        lo, up = ldi(plo, n), ldi(pup, n)
        if signed:
            lo, up = sx(lo, w), sx(up, w)
        incr = sx(incr, w)
        T, t = Omp.T, Omp.tid
        if (incr > 0 and up < lo) or (incr < 0 and up > lo):
            store(plast, 0, 4)
            return
        trip = (up - lo) // incr + 1 if incr > 0 else (lo - up) // (-incr) + 1
        m = (1 << w) - 1
        if sched & 0xffff in (33,):       # static, chunked
            ch = max(1, sx(chunk, w))
            span = ch * incr
            store(pst, (span * T) & m, n)
            l = lo + span * t
            store(plo, l & m, n)
            store(pup, (l + span - incr) & m, n)
            store(plast, int(t == ((trip - 1) // ch) % T), 4)
            return
        q, e = divmod(trip, T)
        cnt = q + (1 if t < e else 0)
        start = t * q + min(t, e)
        l = lo + start * incr
        u = l + (cnt - 1) * incr
        store(pst, (trip * incr) & m, n)
        if cnt == 0:
            # empty range: lower beyond upper
            l, u = up + incr, up
        store(plo, l & m, n)
        store(pup, u & m, n)
        store(plast, int(cnt > 0 and u == lo + (trip - 1) * incr), 4)
    return f


def x_dispatch_init(w, signed):
    def f(loc, gtid, sched, lo, up, stp, chunk):
        if signed:
            lo, up = sx(lo, w), sx(up, w)
        Omp.disp[Omp.tid] = [lo, up, sx(stp, w), Omp.tid, w]
    return f


def x_dispatch_next(w, signed):
    def f(loc, gtid, plast, plo, pup, pst):
        lo, up, stp, k, _ = Omp.disp[Omp.tid]
        trip = (up - lo) // stp + 1 if (stp > 0 and up >= lo) or (stp < 0 and up <= lo) else 0
        if k >= trip:
            return 0
        m = (1 << w) - 1
        v = (lo + k * stp) & m
        store(plo, v, w // 8)
        store(pup, v, w // 8)
        store(pst, stp & m, w // 8)
        store(plast, int(k == trip - 1), 4)
        Omp.disp[Omp.tid][3] = k + Omp.T
        return 1
    return f


def x_barrier(*a):
    if Omp.T > 1:
        raise Undecided('explicit barrier inside a parallel region')


def race_check(fn, logs):
    """all pairs of threads of one region: writes of one against reads and writes of the other"""
    import z3
    Race.regions += 1

    def ivs(l, lo, hi):
        s = set()
        for p, n in l:
            if lo <= (p >> 32) < hi:
                continue               # created by this thread
            s.add((p, int(n)))
        return s
    sets = []
    for lo, hi, r, w, a in logs:
        sets.append((ivs(r, lo, hi), ivs(w, lo, hi), ivs(a, lo, hi)))
    T = len(sets)
    # one solver query per region: is there an address in W_i and (R_j or W_j), i != j ?
    x = z3.Int('addr')

    def inset(s):
        m = []
        for p, n in sorted(s):         # adjacent ranges are merged
            if m and p <= m[-1][1]:
                m[-1][1] = max(m[-1][1], p + n)
            else:
                m.append([p, p + n])
        return z3.Or([z3.And(x >= p, x < e) for p, e in m]) if m else z3.BoolVal(False)
    dis = []
    for i in range(T):
        for j in range(T):
            if i == j:
                continue
            Race.pairs += 1
            wi = sets[i][1]
            oth = sets[j][0] | sets[j][1] if i < j else sets[j][0]
            # atomic accesses conflict only with plain ones
            if wi and (oth or sets[j][2]):
                dis.append((i, j, z3.And(inset(wi), inset(oth | sets[j][2]))))
            ai = sets[i][2]
            if ai and sets[j][0] | sets[j][1]:
                dis.append((i, j, z3.And(inset(ai), inset(sets[j][0] | sets[j][1]))))
    St.stats['obl'] += 1
    if not dis:
        St.stats['obl_conc'] += 1
        return
    s = z3.Solver()
    s.set('timeout', St.timeout)
    s.add(z3.Or([d for _, _, d in dis]))
    t0 = time.time()
    c = s.check()
    St.stats['queries'] += 1
    St.stats['solver_s'] += time.time() - t0
    if c == z3.unsat:
        St.stats['unsat'] += 1
        St.stats['obl_z3'] += 1
        return
    if c != z3.sat:
        St.undecided.append('race query in ' + fn)
        return
    a = s.model()[x].as_long()
    info = 'conflicting accesses of two iterations in %s to %s' % (demangle(fn), where(a))
    for m in solve.path_models(2) or []:
        solve.violation('race', None, m, 'race', info)


def demangle(n):
    try:
        import subprocess
        return subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip()[:160] or n
    except OSError:
        return n


# ---------------------------------------------------------------- library models
def x_memcmp(a, b, n):
    for k in range(n):
        x, y = mem.rdbyte(a + k), mem.rdbyte(b + k)
        if x != y:
            return 1 if x > y else 0xffffffff
    return 0


def x_strlen(p):
    k = 0
    while mem.rdbyte(p + k):
        k += 1
    return k


def x_memchr(p, c, n):
    for k in range(n):
        if mem.rdbyte(p + k) == (c & 255):
            return p + k
    return 0


def x_strcmp(a, b):
    k = 0
    while True:
        x, y = mem.rdbyte(a + k), mem.rdbyte(b + k)
        if x != y:
            return 1 if x > y else 0xffffffff
        if x == 0:
            return 0
        k += 1


def x_new(n, *a):
    n = int(n)
    if n > 1 << 31:
        throw_std('_ZTISt9bad_alloc', 'bad_alloc')
    return alloc(n, 'heap')


def x_free(p, *a):
    if p:
        o = objs.get(p >> 32)
        if o is None or p & M32 or o.kind != 'heap':
            raise Fault('invalid free', where(p))
        mem.free(p)


def x_calloc(a, b):
    p = alloc(a * b, 'heap')
    memset(p, 0, a * b)
    return p


def x_realloc(p, n):
    q = alloc(n, 'heap')
    if p:
        memcpy(q, p, min(n, objs[p >> 32].size))
        mem.free(p)
    return q


def x_aligned_alloc(al, n):
    return alloc(n, 'heap')


def x_posix_memalign(pp, al, n):
    store(pp, alloc(n, 'heap'), 8)
    return 0


def x_assert_fail(e, f, l, fn):
    raise Fault('assertion', '%s (%s:%d)' % (cstr(e), os.path.basename(cstr(f)), l))


def x_guard_acquire(p):
    return 0 if load(p, 1) == 1 else 1


def x_guard_release(p):
    store(p, 1, 1)


def x_terminate(*a):
    raise Fault('terminate', 'std::terminate')


def x_abort(*a):
    raise Fault('abort')


def x_exit(c):
    raise VpExit(c)


def exc_ctor_c(vt):
    def f(p, s):
        std_exc_init(p, vt, cstr(s))
    return f


def exc_ctor_s(vt):
    def f(p, s):
        std_exc_init(p, vt, std_string(s))
    return f


def exc_copy(vt):
    def f(p, q):
        store(p, ext_vtable(vt) + 16, 8)
        v = load(q + 8, 8)
        if type(v) is int:
            store(p + 8, v, 8)
    return f


# harness API ------------------------------------------------------------------
_syms = {}


def vp_real(pn, lo, hi):
    n = cstr(pn)
    return sym_real(n, lo, hi)


def sym_real(n, lo, hi):
    v = _syms.get(n)
    if v is None:
        v = solve.new_input(n, float(lo), float(hi)) if cfg['mode'] == 'real' else cfg['new_input'](n, float(lo), float(hi))
        _syms[n] = v
    return v


def vp_reali(pn, i, lo, hi):
    return sym_real('%s%d' % (cstr(pn), sx(i, 32)), lo, hi)


def vp_int(pn, lo, hi):
    n = cstr(pn)
    return sym_int(n, sx(lo, 32), sx(hi, 32))


def vp_inti(pn, i, lo, hi):
    return sym_int('%s%d' % (cstr(pn), sx(i, 32)), sx(lo, 32), sx(hi, 32))


def sym_int(n, lo, hi):
    for k, v in St.ints:
        if k == n:
            return v & 0xffffffff
    if hi < lo:
        raise PathEnd('empty range')
    r = lo + (St.fork(hi - lo + 1) if hi > lo else 0)
    St.ints.append((n, r))
    return r & 0xffffffff


def vp_rat(a, b):
    return Fr(sx(a, 64), sx(b, 64))


def vp_assume(c):
    solve.assume(c)


def vp_check(c, pl):
    solve.check(c, cstr(pl))


def label(pl):
    return cstr(pl)


def vp_eq(a, b, pl):
    l = cstr(pl)
    c = solve.fcmp('oeq', a, b)
    if c is True and (type(a) is R or type(b) is R):
        # both sides have the same normal form; the solver confirms
        St.reach.add(l)
        solve.same_term(a, b, l)
        return
    solve.check(c, l)


def vp_le(a, b, pl):
    solve.check(solve.fcmp('ole', a, b), cstr(pl))


def vp_lt(a, b, pl):
    solve.check(solve.fcmp('olt', a, b), cstr(pl))


def vp_same(a, b, pl):
    """equal, or both NaN, or the same infinity"""
    if type(a) is float and type(b) is float and (a == b or (a != a and b != b)):
        solve.check(1, cstr(pl))
        return
    vp_eq(a, b, pl)


def vp_out(pl, v):
    St.outs.append((cstr(pl), v))


def vp_outi(pl, v):
    St.outs.append((cstr(pl), sx(int(v), 64)))


def vp_reach(pl):
    St.reach.add('reach:' + cstr(pl))


def vp_isfinite(a):
    return int(not (type(a) is float))


def vp_end():
    raise PathEnd('end')


def vp_sqrt(a):
    return num.rsqrt(a)


def vp_threads(n):
    cfg['threads'] = n


def vp_races(n):
    cfg['races'] = bool(n)


def vp_put(pl):
    St.trace.append(cstr(pl))


St.trace = []

EXT = {
    'vp_real': vp_real, 'vp_reali': vp_reali, 'vp_int': vp_int, 'vp_inti': vp_inti, 'vp_rat': vp_rat,
    'vp_assume': vp_assume, 'vp_check': vp_check, 'vp_eq': vp_eq, 'vp_le': vp_le, 'vp_lt': vp_lt, 'vp_same': vp_same,
    'vp_out': vp_out, 'vp_outi': vp_outi, 'vp_reach': vp_reach, 'vp_isfinite': vp_isfinite, 'vp_end': vp_end,
    'vp_sqrt': vp_sqrt, 'vp_num': lambda a: a, 'vp_threads': vp_threads, 'vp_races': vp_races,
    '_Znwm': x_new, '_Znam': x_new, '_ZnwmSt11align_val_t': x_new, '_ZnamSt11align_val_t': x_new, 'malloc': x_new,
    '_ZnwmRKSt9nothrow_t': x_new, '_ZnamRKSt9nothrow_t': x_new,
    '_ZdlPv': x_free, '_ZdlPvm': x_free, '_ZdaPv': x_free, '_ZdaPvm': x_free, 'free': x_free,
    '_ZdlPvSt11align_val_t': x_free, '_ZdlPvmSt11align_val_t': x_free, '_ZdlPvRKSt9nothrow_t': x_free,
    '_ZdaPvRKSt9nothrow_t': x_free, 'calloc': x_calloc, 'realloc': x_realloc, 'aligned_alloc': x_aligned_alloc,
    'posix_memalign': x_posix_memalign,
    'memcmp': x_memcmp, 'bcmp': x_memcmp, 'strlen': x_strlen, 'memchr': x_memchr, 'strcmp': x_strcmp,
    'memcpy': lambda d, s, n: (memcpy_(d, s, n), d)[1], 'memmove': lambda d, s, n: (memcpy_(d, s, n), d)[1],
    'memset': lambda p, b, n: (memset_(p, b, n), p)[1],
    'sqrt': fsqrt, 'floor': ffloor, 'ceil': fceil, 'fabs': ffabs, 'fmax': fmaxnum, 'fmin': fminnum, 'pow': fpow,
    'fmod': frem, 'round': lambda a: fround('round', a), 'trunc': lambda a: fround('trunc', a), 'rint': lambda a: fround('rint', a),
    'nearbyint': lambda a: fround('rint', a), 'lround': lambda a: int(fround('round', a)) & ((1 << 64) - 1),
    'llround': lambda a: int(fround('round', a)) & ((1 << 64) - 1),
    'hypot': lambda a, b: num.rsqrt(a * a + b * b),
    '__assert_fail': x_assert_fail, '__cxa_guard_acquire': x_guard_acquire, '__cxa_guard_release': x_guard_release,
    '__cxa_guard_abort': lambda p: None, '__cxa_atexit': lambda *a: 0, '__cxa_thread_atexit': lambda *a: 0,
    '__cxa_allocate_exception': lambda n: alloc(max(n, 16), 'exception'), '__cxa_free_exception': lambda p: None,
    '__cxa_throw': x_cxa_throw, '__cxa_begin_catch': x_begin_catch, '__cxa_end_catch': x_end_catch,
    '__cxa_rethrow': x_rethrow, '__cxa_get_exception_ptr': lambda p: p, '_ZSt9terminatev': x_terminate,
    '__clang_call_terminate': x_terminate, '__cxa_pure_virtual': x_abort, 'abort': x_abort, 'exit': x_exit,
    '__cxa_bad_cast': x_abort, '__cxa_throw_bad_array_new_length': x_abort,
    '_Unwind_Resume': lambda p: resume((p, 0)),
    'vp_exc_dtor': lambda p: None, 'vp_exc_what': exc_what,
    '_ZNKSt13runtime_error4whatEv': exc_what, '_ZNKSt11logic_error4whatEv': exc_what, '_ZNKSt9exception4whatEv': exc_what,
    '__kmpc_fork_call': x_fork_call, '__kmpc_global_thread_num': lambda l: Omp.tid,
    '__kmpc_for_static_init_4': x_for_static_init(32, True), '__kmpc_for_static_init_4u': x_for_static_init(32, False),
    '__kmpc_for_static_init_8': x_for_static_init(64, True), '__kmpc_for_static_init_8u': x_for_static_init(64, False),
    '__kmpc_for_static_fini': lambda *a: None, '__kmpc_push_num_threads': lambda *a: None,
    '__kmpc_serialized_parallel': lambda *a: None, '__kmpc_end_serialized_parallel': lambda *a: None,
    '__kmpc_barrier': x_barrier, '__kmpc_flush': lambda *a: None,
    '__kmpc_critical': lambda *a: None, '__kmpc_end_critical': lambda *a: None,
    '__kmpc_reduce': lambda *a: 1, '__kmpc_reduce_nowait': lambda *a: 1,
    '__kmpc_end_reduce': lambda *a: None, '__kmpc_end_reduce_nowait': lambda *a: None,
    '__kmpc_master': lambda *a: int(Omp.tid == 0), '__kmpc_end_master': lambda *a: None,
    '__kmpc_single': lambda *a: int(Omp.tid == 0), '__kmpc_end_single': lambda *a: None,
    'omp_get_thread_num': lambda: Omp.tid, 'omp_get_num_threads': lambda: Omp.T,
    'omp_get_max_threads': lambda: cfg['threads'], 'omp_in_parallel': lambda: int(Omp.level > 0),
    '_ZNSt8ios_base4InitC1Ev': lambda p: None, '_ZNSt8ios_base4InitD1Ev': lambda p: None,
    'getenv': lambda p: 0,
}
for _w, _s, _n in ((32, True, '4'), (32, False, '4u'), (64, True, '8'), (64, False, '8u')):
    EXT['__kmpc_dispatch_init_' + _n] = x_dispatch_init(_w, _s)
    EXT['__kmpc_dispatch_next_' + _n] = x_dispatch_next(_w, _s)
    EXT['__kmpc_dispatch_fini_' + _n] = lambda *a: None
for _c, _v in (('St13runtime_error', '_ZTVSt13runtime_error'), ('St11logic_error', '_ZTVSt11logic_error'),
               ('St12length_error', '_ZTVSt12length_error'), ('St12out_of_range', '_ZTVSt12out_of_range'),
               ('St16invalid_argument', '_ZTVSt16invalid_argument'), ('St12domain_error', '_ZTVSt12domain_error'),
               ('St11range_error', '_ZTVSt11range_error')):
    for _k in '12':
        EXT['_ZN%sC%sEPKc' % (_c, _k)] = exc_ctor_c(_v)
        EXT['_ZN%sC%sERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE' % (_c, _k)] = exc_ctor_s(_v)
        EXT['_ZN%sC%sERKS_' % (_c, _k)] = exc_copy(_v)
        EXT['_ZN%sC%sEOS_' % (_c, _k)] = exc_copy(_v)
        EXT['_ZN%sD%sEv' % (_c, _k)] = lambda p: None
    EXT['_ZN%sD0Ev' % _c] = lambda p: None
for _k in '012':
    EXT['_ZNSt9exceptionD%sEv' % _k] = lambda p: None
for _n, _t in (('length_error', '_ZTISt12length_error'), ('logic_error', '_ZTISt11logic_error'),
               ('out_of_range', '_ZTISt12out_of_range'), ('invalid_argument', '_ZTISt16invalid_argument'),
               ('domain_error', '_ZTISt12domain_error'), ('runtime_error', '_ZTISt13runtime_error'),
               ('range_error', '_ZTISt11range_error')):
    EXT['_ZSt%d__throw_%sPKc' % (len('__throw_' + _n), _n)] = (lambda t: lambda s: throw_std(t, cstr(s)))(_t)
EXT['_ZSt24__throw_out_of_range_fmtPKcz'] = lambda s, *a: throw_std('_ZTISt12out_of_range', cstr(s))
EXT['_ZSt17__throw_bad_allocv'] = lambda: throw_std('_ZTISt9bad_alloc', 'bad_alloc')
EXT['_ZSt28__throw_bad_array_new_lengthv'] = lambda: throw_std('_ZTISt20bad_array_new_length', 'bad_array_new_length')
EXT['_ZSt16__throw_bad_castv'] = lambda: throw_std('_ZTISt8bad_cast', 'bad_cast')


# ---------------------------------------------------------------- text and numbers
# A number in a text is written as \x01 index \x02 where the index names a value: texts stay concrete, values symbolic.
_toks = []
_errno = None


def vp_tok(v):
    _toks.append(v)
    return len(_toks) - 1


def vp_untok(i):
    return _toks[sx(i, 32)]


def x_errno():
    global _errno
    if _errno is None:
        _errno = alloc(4, 'errno', 'global')
        store(_errno, 0, 4)
    return _errno


def text_at(p):
    """the bytes of a C string, with the number of blanks in front"""
    b = bytearray()
    while True:
        c = mem.rdbyte(p + len(b))
        if c == 0:
            break
        b.append(c)
    t = b.decode('latin-1')
    return t, len(t) - len(t.lstrip(' \t\n\v\f\r'))


def x_strtod(p, pend):
    import re
    t, k = text_at(p)
    m = re.match('\x01([0-9]+)\x02', t[k:])
    if m:
        v = _toks[int(m.group(1))]
    else:
        m = re.match(r'[+-]?(?:(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?)', t[k:])
        if m:
            v = mkdouble(float(m.group(0)))
        else:
            m = re.match(r'(?i)[+-]?(?:inf(?:inity)?|nan)', t[k:])
            v = mkdouble(float(m.group(0)) if m else 0.0)
    if pend:
        store(pend, p + k + m.end() if m else p, 8)
    return v


def x_strtol(w, signed):
    def f(p, pend, base):
        import re
        t, k = text_at(p)
        if base not in (10, 0):
            raise Unsupported('strtol base %d' % base)
        m = re.match(r'[+-]?[0-9]+', t[k:])
        v = int(m.group(0)) if m else 0
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (-((1 << w) - 1), (1 << w) - 1)
        if not lo <= v <= hi:
            v = hi if v > 0 or not signed else lo
            store(x_errno(), 34, 4)
        if pend:
            store(pend, p + k + m.end() if m else p, 8)
        return v & ((1 << w) - 1)
    return f


def x_hash_bytes(p, n, seed):
    h = seed ^ (n * 0xc6a4a7935bd1e995 & M64)
    for k in range(n):
        h = ((h ^ mem.rdbyte(p + k)) * 0x100000001b3) & M64
    return h


def x_next_bkt(self, n):
    """libstdc++: the smallest suitable bucket count; the maximal load factor is the first member"""
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 37, 47, 59, 79, 103, 137, 179, 233, 307, 409, 541, 719, 953, 1259, 1667, 2221):
        if q >= n:
            store(self + 8, q, 8)
            return q
    raise Unsupported('bucket count')


def x_need_rehash(self, bkt, elt, ins):
    nxt = load(self + 8, 8)
    if elt + ins > nxt:
        need = max(elt + ins, 11 if nxt == 0 else 0)
        if need >= bkt:
            return (1, x_next_bkt(self, max(need + 1, bkt * 2)))
        store(self + 8, bkt, 8)
    return (0, 0)


def x_localtime(p):
    a = alloc(56, 'tm', 'global')
    for k in range(7):
        store(a + 8 * k, 0, 8)
    return a


EXT.update({
    'vp_tok': vp_tok, 'vp_untok': vp_untok, '__errno_location': x_errno, 'strtod': x_strtod, 'strtof': x_strtod,
    'strtol': x_strtol(64, True), 'strtoll': x_strtol(64, True), 'strtoul': x_strtol(64, False), 'strtoull': x_strtol(64, False),
    '__isoc23_strtol': x_strtol(64, True), '__isoc23_strtoll': x_strtol(64, True),
    '__isoc23_strtoul': x_strtol(64, False), '__isoc23_strtoull': x_strtol(64, False),
    '_ZSt11_Hash_bytesPKvmm': x_hash_bytes, '_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm': x_next_bkt,
    '_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm': x_need_rehash,
    '_ZNSt6chrono3_V212system_clock3nowEv': lambda: 0, '_ZNSt6chrono3_V212steady_clock3nowEv': lambda: 0,
    'time': lambda p: 0, 'localtime': x_localtime,
})


# ---------------------------------------------------------------- program loading
cg = None
_stub_n = {}
called = {}


def fn_ref(c, name):
    """python name under which a function is callable"""
    k = _stub_n.get(name)
    if k is not None:
        return k
    k = 'f%d' % len(_stub_n)
    _stub_n[name] = k

    def stub(*a):
        f = resolve(name)
        ns[k] = f
        return f(*a)
    ns[k] = stub
    return k


def resolve(name):
    if name in EXT:
        return EXT[name]
    f = cg.mod.funcs.get(name)
    if f is None and name in cg.mod.aliases:
        t = L.AliasGetAliasee(cg.mod.aliases[name])
        return ns[fn_ref(cg, L.name(t))]
    if f is not None and not L.IsDeclaration(f):
        called[name] = called.get(name, 0) + 1
        return cg.function(name)

    def missing(*a):
        raise Unsupported('external function ' + name)
    return missing


_pending = []


def make_global(c, n, v):
    t = c.mod.ty(L.GlobalGetValueType(v))
    if L.IsDeclaration(v):
        a = alloc(max(t.size, 64), n, 'global')
        c.addr[n] = a
        name_of[a] = n
        if n.startswith('_ZTVSt'):
            fill_ext_vtable(a, n)
        return a
    a = alloc(t.size, n, 'global')
    c.addr[n] = a
    name_of[a] = n
    _pending.append((a, v))
    return a


def flush_globals():
    while _pending:
        a, v = _pending.pop()
        init = L.GetInitializer(v)
        o = objs[a >> 32]
        o.base = bytearray(o.size)
        put_const(a, init, cg.mod.tyof(init))
        if L.IsGlobalConstant(v):
            o.ro = True


def put_const(p, v, t):
    if t.k in ('array', 'struct', 'vector'):
        if L.IsNull(v):
            return
        if L.IsUndef(v) or L.IsPoison(v):
            return
        if t.k == 'array' and t.el.k == 'int' and t.el.w == 8:
            o = objs[p >> 32]
            off = p & M32
            for i in range(t.n):
                o.base[off + i] = L.ConstIntGetZExtValue(L.GetAggregateElement(v, i)) & 255
            return
        for i in range(t.n):
            e = L.GetAggregateElement(v, i)
            put_const(p + (t.offs[i] if t.k == 'struct' else i * t.el.size), e, t.els[i] if t.k == 'struct' else t.el)
        return
    c = cg.const_val(v)
    if t.k == 'int' and t.w not in (8, 16, 32, 64):
        stbig(p, c, t.ssize)
        return
    store(p, c, t.ssize)


def load_program(path):
    global cg
    mod = L.Module(path)
    for k, v in list(globals().items()):
        if callable(v) and not k.startswith('__'):
            ns[k] = v
    ns['fcmp'] = solve.fcmp
    ns['fdiv'] = num.fdiv
    ns['mkdouble'] = mkdouble
    ns['bits2d'] = bits2d
    ns['d2bits'] = d2bits
    ns['reserve'] = mem.reserve
    ns['make_global'] = make_global
    cg = CG(mod, ns)
    for n, g in mod.globals.items():
        if not n.startswith('llvm.'):
            cg.sym_addr(g)
    flush_globals()
    return cg


def run_ctors():
    g = cg.mod.globals.get('llvm.global_ctors')
    if not g:
        return
    init = L.GetInitializer(g)
    t = cg.mod.tyof(init)
    l = []
    for i in range(t.n):
        e = L.GetAggregateElement(init, i)
        l.append((L.ConstIntGetZExtValue(L.GetAggregateElement(e, 0)), L.name(L.GetAggregateElement(e, 1))))
    for pr, n in sorted(l, key=lambda x: x[0]):
        ns[fn_ref(cg, n)]()
        flush_globals()


def call(name, *args):
    return ns[fn_ref(cg, name)](*args)
