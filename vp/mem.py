"""Object memory of the symbolic machine.  Addresses are (object id << 32) + offset."""
import struct
from fractions import Fraction as Fr
from math import inf, nan

M32 = 0xffffffff
M64 = 0xffffffffffffffff


class Uninit:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'uninit%d' % self.n


class SByte:
    """byte k of a symbolic number stored in n bytes"""
    __slots__ = ('v', 'k', 'n')

    def __init__(self, v, k, n):
        self.v, self.k, self.n = v, k, n

    def __repr__(self):
        return 'byte %d of a symbolic value' % self.k


class Fault(Exception):
    def __init__(self, kind, info=''):
        self.kind, self.info = kind, info

    def __str__(self):
        return '%s: %s' % (self.kind, self.info)


class Obj:
    __slots__ = ('size', 'c', 'base', 'mask', 'name', 'kind', 'ro', 'owner')

    def __init__(self, size, name='', kind='heap'):
        self.size = size
        self.c = {}
        self.base = None
        self.mask = None      # with base: bytes that are initialised (None = all)
        self.name = name
        self.kind = kind
        self.ro = False
        self.owner = -1


objs = {}
_next = [16]
FREED = {}


def alloc(size, name='', kind='heap'):
    i = _next[0]
    _next[0] = i + 1
    objs[i] = Obj(size, name, kind)
    return i << 32


def reserve():
    i = _next[0]
    _next[0] = i + 1
    return i << 32


def free(p, kind=None):
    if p == 0:
        return
    o = objs.get(p >> 32)
    if o is None or p & M32:
        raise Fault('bad-free', 'free of %#x' % p)
    FREED[p >> 32] = o.name
    del objs[p >> 32]


def free_quiet(p):
    objs.pop(p >> 32, None)


def f2fr(f):
    return Fr(f) if f == f and f not in (inf, -inf) else f


def bits2d(v):
    if type(v) is not int:
        return v
    return f2fr(struct.unpack('<d', struct.pack('<Q', v))[0])


def bits2f(v):
    return f2fr(struct.unpack('<f', struct.pack('<I', v))[0])


def d2bits(v):
    """concrete double -> bits; symbolic stays a token"""
    if type(v) is Fr:
        f = float(v)
        if Fr(f) == v:
            return struct.unpack('<Q', struct.pack('<d', f))[0]
        return v
    if type(v) is float:
        return struct.unpack('<Q', struct.pack('<d', v))[0]
    return v


def where(p):
    o = objs.get(p >> 32)
    if o is None:
        n = FREED.get(p >> 32)
        if n is not None:
            return 'freed object %s+%d' % (n, p & M32)
        if p >> 32 == 0:
            return 'null+%d' % p
        n = objs.get((p >> 32) + 1)
        return 'invalid address %#x%s' % (p, ' (just before %s)' % n.name if n else '')
    return '%s[%d bytes]+%d' % (o.name, o.size, p & M32)


def getobj(p, n, w):
    o = objs.get(p >> 32)
    if o is None or (p & M32) + n > o.size:
        raise Fault('invalid %s of %d bytes' % ('write' if w else 'read', n), where(p))
    if w and o.ro:
        raise Fault('write to constant', where(p))
    return o


def explode(o, off, sz, v):
    """turn the cell at off into byte cells"""
    c = o.c
    del c[off]
    if type(v) is not int:
        b = d2bits(v)
        if type(b) is not int:
            if isinstance(v, Uninit):
                for k in range(sz):
                    c[off + k] = (1, v)
                return
            for k in range(sz):
                c[off + k] = (1, SByte(v, k, sz))
            return
        v = b
    for k in range(sz):
        c[off + k] = (1, (v >> (8 * k)) & 255)


def clear_range(o, off, n):
    """remove or split all cells overlapping [off, off+n)"""
    c = o.c
    if not c:
        return
    if n > 64 and n > len(c):
        ks = [k for k in c if off - 8 < k < off + n]
    else:
        ks = range(off - 7, off + n)
    for k in list(ks):
        t = c.get(k)
        if t is None:
            continue
        e = k + t[0]
        if e <= off:
            continue
        if k >= off and e <= off + n:
            del c[k]
        else:
            explode(o, k, t[0], t[1])
            for j in range(max(k, off), min(e, off + n)):
                c.pop(j, None)


def store(p, v, n):
    o = objs.get(p >> 32)
    off = p & M32
    if o is None or off + n > o.size:
        raise Fault('invalid write of %d bytes' % n, where(p))
    c = o.c
    t = c.get(off)
    if t is not None and t[0] == n:
        if o.ro:
            raise Fault('write to constant', where(p))
        c[off] = (n, v)
        return
    if o.ro:
        raise Fault('write to constant', where(p))
    if c:
        clear_range(o, off, n)
    c[off] = (n, v)


def load(p, n):
    """raw value: int or a number object or Uninit"""
    o = objs.get(p >> 32)
    off = p & M32
    if o is not None:
        t = o.c.get(off)
        if t is not None and t[0] == n:
            return t[1]
    return load_slow(p, n)


def load_slow(p, n):
    o = getobj(p, n, False)
    off = p & M32
    c = o.c
    out = 0
    k = 0
    un = None
    t = c.get(off)
    if t is not None and t[0] == 1 and type(t[1]) is SByte:
        b = t[1]
        if n == 1:
            return b
        if b.n == n and b.k == 0:
            for q in range(1, n):
                t = c.get(off + q)
                if t is None or t[0] != 1 or type(t[1]) is not SByte or t[1].v is not b.v or t[1].k != q:
                    break
            else:
                return b.v
        raise Fault('unsupported', 'partial access to a symbolic value at %s+%d' % (o.name, off))
    while k < n:
        t = c.get(off + k)
        if t is not None:
            sz, v = t
            if k + sz > n:
                explode(o, off + k, sz, v)
                if n == 1:
                    return load(p, n)
                continue
            if type(v) is not int:
                if isinstance(v, Uninit):
                    un = v
                    v = 0
                else:
                    b = d2bits(v)
                    if type(b) is not int:
                        if n == 1 and sz > 1:
                            explode(o, off, sz, v)
                            return load(p, n)
                        raise Fault('unsupported', 'partial access to a symbolic value at %s+%d' % (o.name, off))
                    v = b
            out |= v << (8 * k)
            k += sz
            continue
        # a cell that starts earlier and covers this byte?
        for q in range(1, 8):
            t = c.get(off + k - q)
            if t is not None:
                if t[0] > q:
                    explode(o, off + k - q, t[0], t[1])
                break
        t = c.get(off + k)
        if t is not None:
            if n == 1:
                return load(p, n)
            continue
        if o.base is None or (o.mask is not None and not o.mask[off + k]):
            un = un or Uninit(0)
        else:
            out |= o.base[off + k] << (8 * k)
        k += 1
    if un is not None:
        return Uninit(n)
    return out


def memset(p, b, n):
    if n == 0:
        return
    o = getobj(p, n, True)
    off = p & M32
    clear_range(o, off, n)
    if o.base is None:
        o.base = bytearray(o.size)
        o.mask = bytearray(o.size)
    o.base[off:off + n] = bytes([b & 255]) * n
    if o.mask is not None:
        o.mask[off:off + n] = b'\1' * n


def memcpy(d, s, n):
    if n == 0:
        return
    so = getobj(s, n, False)
    do = getobj(d, n, True)
    sf, df = s & M32, d & M32
    sc = so.c
    # cells completely inside, split those crossing the borders
    if sc:
        for edge in (sf, sf + n):
            for q in range(1, 8):
                t = sc.get(edge - q)
                if t is not None:
                    if t[0] > q:
                        explode(so, edge - q, t[0], t[1])
                    break
    if len(sc) < n:
        cells = [(k - sf, t) for k, t in sc.items() if sf <= k < sf + n]
    else:
        cells = [(k - sf, sc[k]) for k in range(sf, sf + n) if k in sc]
    if so.base is not None:
        bb = bytes(so.base[sf:sf + n])
        mm = bytes(so.mask[sf:sf + n]) if so.mask is not None else b'\1' * n
    else:
        bb = mm = None
    clear_range(do, df, n)
    if bb is not None:
        if do.base is None:
            do.base = bytearray(do.size)
            do.mask = bytearray(do.size)
        do.base[df:df + n] = bb
        if do.mask is not None:
            do.mask[df:df + n] = mm
    elif do.base is not None:
        if do.mask is None:
            do.mask = bytearray(b'\1' * do.size)
        do.mask[df:df + n] = b'\0' * n
    dc = do.c
    for k, t in cells:
        dc[df + k] = t


def rdbytes(p, n):
    return bytes(rdbyte(p + k) for k in range(n))


def rdbyte(p):
    v = load(p, 1)
    if type(v) is not int:
        raise Fault('uninitialised byte read', where(p))
    return v


def cstr(p):
    out = bytearray()
    while True:
        b = rdbyte(p)
        if b == 0:
            return out.decode('utf-8', 'replace')
        out.append(b)
        p += 1
        if len(out) > 100000:
            raise Fault('unterminated string', where(p))


def wrbytes(p, bs):
    for k, b in enumerate(bs):
        store(p + k, b, 1)


def new_cstr(s, name='str'):
    bs = s.encode() + b'\0'
    p = alloc(len(bs), name)
    o = objs[p >> 32]
    o.base = bytearray(bs)
    return p
