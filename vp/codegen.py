"""Translates LLVM functions to Python functions operating on the symbolic machine (vp.rt)."""
from . import llvmc as L
from .llvmc import OP, ICMP, FCMP
import struct

IND = '  '


class Unsupported(Exception):
    pass


class CG:
    def __init__(self, mod, ns):
        self.mod = mod
        self.ns = ns                 # namespace shared by all generated functions
        self.consts = {}             # python constants: name -> value
        self.addr = {}               # global/function name -> address
        self.fn_by_addr = {}
        self.translated = {}
        self.insts = {}

    # ---------------------------------------------------------------- constants
    def const_val(self, v):
        """python value of a constant (numbers, addresses, tuples for aggregates)"""
        t = self.mod.tyof(v)
        vk = L.GetValueKind(v)
        if L.IsAConstantInt(v):
            if t.w <= 64:
                return L.ConstIntGetZExtValue(v) & ((1 << t.w) - 1)
            s = L.show(v).split()[-1]
            return int(s) & ((1 << t.w) - 1)
        if L.IsAConstantFP(v):
            import ctypes
            li = ctypes.c_int()
            d = L.ConstRealGetDouble(v, ctypes.byref(li))
            return self.ns['mkdouble'](d)
        if L.IsAFunction(v) or L.IsAGlobalVariable(v) or L.IsAGlobalAlias(v):
            return self.sym_addr(v)
        if L.IsPoison(v) or L.IsUndef(v):
            return self.undef_val(t)
        if L.IsNull(v):
            return self.zero_val(t)
        if t.k in ('array', 'vector', 'struct'):
            return tuple(self.const_val(L.GetAggregateElement(v, i)) for i in range(t.n))
        # constant expression
        op = OP.get(L.GetConstOpcode(v))
        if op == 'getelementptr':
            base = self.const_val(L.GetOperand(v, 0))
            return (base + self.const_gep(v)) & 0xffffffffffffffff
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            return self.const_val(L.GetOperand(v, 0))
        if op in ('sub', 'add'):
            a, b = self.const_val(L.GetOperand(v, 0)), self.const_val(L.GetOperand(v, 1))
            return (a - b if op == 'sub' else a + b) & ((1 << t.w) - 1)
        if op == 'trunc':
            return self.const_val(L.GetOperand(v, 0)) & ((1 << t.w) - 1)
        raise Unsupported('constant ' + L.show(v)[:200])

    def undef_val(self, t):
        if t.k in ('array', 'vector'):
            return tuple(self.undef_val(t.el) for _ in range(t.n))
        if t.k == 'struct':
            return tuple(self.undef_val(e) for e in t.els)
        return self.zero_val(t)

    def zero_val(self, t):
        if t.k in ('int', 'ptr'):
            return 0
        if t.k in ('double', 'float', 'x86fp80'):
            return self.ns['mkdouble'](0.0)
        if t.k in ('array', 'vector'):
            z = self.zero_val(t.el)
            return (z,) * t.n
        if t.k == 'struct':
            return tuple(self.zero_val(e) for e in t.els)
        raise Unsupported('zero of ' + t.k)

    def const_gep(self, v):
        t = self.mod.ty(L.GetGEPSourceElementType(v))
        n = L.GetNumOperands(v)
        off = 0
        for i in range(1, n):
            ix = L.GetOperand(v, i)
            it = self.mod.tyof(ix)
            x = self.const_val(ix)
            if x >> (it.w - 1):
                x -= 1 << it.w
            if i == 1:
                off += x * t.size
            elif t.k == 'struct':
                off += t.offs[x]
                t = t.els[x]
            else:
                t = t.el
                off += x * t.size
        return off

    def sym_addr(self, v):
        n = L.name(v)
        a = self.addr.get(n)
        if a is None:
            if L.IsAGlobalAlias(v):
                a = self.const_val(L.AliasGetAliasee(v))
                self.addr[n] = a
            elif L.IsAFunction(v):
                a = self.ns['reserve']()
                self.addr[n] = a
                self.fn_by_addr[a] = n
            else:
                a = self.ns['make_global'](self, n, v)
        return a

    # ---------------------------------------------------------------- operand expressions
    def ref(self, v):
        if L.IsConstant(v):
            vk = L.GetValueKind(v)
            c = self.const_val(v)
            if type(c) is int:
                return str(c)
            k = ('K', repr(c), type(c).__name__)
            n = self.consts.get(k)
            if n is None:
                n = 'K%d' % len(self.consts)
                self.consts[k] = n
                self.ns[n] = c
            return n
        return self.names[v]

    # ---------------------------------------------------------------- functions
    def function(self, name):
        f = self.mod.funcs[name]
        src = self.translate(f, name)
        d = self.ns
        code = compile(src, '<%s>' % name, 'exec')
        exec(code, d)
        return d['f_tmp']

    def translate(self, f, fname):
        M = self.mod
        self.names = {}
        blocks = []
        b = L.GetFirstBasicBlock(f)
        while b:
            blocks.append(b)
            b = L.GetNextBasicBlock(b)
        bid = {b: i for i, b in enumerate(blocks)}
        params = []
        for i in range(L.CountParams(f)):
            p = L.GetParam(f, i)
            n = 'a%d' % i
            self.names[p] = n
            params.append(n)
        insts = {}
        k = 0
        preds = {b: 0 for b in blocks}
        has_alloca = False
        for b in blocks:
            li = []
            i = L.GetFirstInstruction(b)
            while i:
                li.append(i)
                t = M.tyof(i)
                if t.k != 'void':
                    self.names[i] = 'v%d' % k
                    k += 1
                if L.GetInstructionOpcode(i) == 26:
                    has_alloca = True
                i = L.GetNextInstruction(i)
            insts[b] = li
            term = li[-1]
            for s in range(L.GetNumSuccessors(term)):
                preds[L.GetSuccessor(term, s)] += 1
        preds[blocks[0]] += 1
        self.bid, self.ib, self.preds = bid, insts, preds
        self.has_alloca = has_alloca
        self.unwind_pads = set()
        # blocks that need a dispatch entry: several predecessors, or the entry
        self.entries = set(b for b in blocks if preds[b] != 1 or b == blocks[0])
        self.done_entries = []
        pend = [blocks[0]]
        bodies = {}
        self.pending = pend
        seen = set()
        while pend:
            b = pend.pop()
            if b in seen:
                continue
            seen.add(b)
            out = []
            self.emit_block(b, out, 0)
            bodies[b] = out
        order = sorted(bodies, key=lambda x: bid[x])
        src = ['def f_tmp(%s):' % ', '.join(params + (['*va'] if False else []))]
        if has_alloca:
            src.append(IND + 'fr=[]')
        if len(order) == 1 and not self.loops_to(order[0], bodies[order[0]]):
            for l in bodies[order[0]]:
                src.append(IND + l)
        else:
            src.append(IND + 'b=%d' % bid[blocks[0]])
            src.append(IND + 'while True:')
            self.tree(order, bodies, bid, src, 2)
        return '\n'.join(src) + '\n'

    def loops_to(self, b, body):
        return any('b=' in l and l.strip().startswith('b=') for l in body)

    def tree(self, order, bodies, bid, src, d):
        if len(order) == 1:
            for l in bodies[order[0]]:
                src.append(IND * d + l)
            return
        m = len(order) // 2
        src.append(IND * d + 'if b<%d:' % bid[order[m]])
        self.tree(order[:m], bodies, bid, src, d + 1)
        src.append(IND * d + 'else:')
        self.tree(order[m:], bodies, bid, src, d + 1)

    def edge(self, frm, to, out, d):
        """phi assignments and transfer of control"""
        lhs, rhs = [], []
        for i in self.ib[to]:
            if L.GetInstructionOpcode(i) != 44:
                break
            for q in range(L.CountIncoming(i)):
                if L.GetIncomingBlock(i, q) == frm:
                    r = self.ref(L.GetIncomingValue(i, q))
                    n = self.names[i]
                    if n != r:
                        lhs.append(n)
                        rhs.append(r)
                    break
        if lhs:
            out.append(IND * d + '%s=%s' % (','.join(lhs), ','.join(rhs)))
        if to not in self.entries and d < 12:
            self.emit_block(to, out, d)
        else:
            self.entries.add(to)
            self.pending.append(to)
            out.append(IND * d + 'b=%d' % self.bid[to])
            out.append(IND * d + 'continue')

    def emit_block(self, b, out, d):
        for i in self.ib[b]:
            op = OP.get(L.GetInstructionOpcode(i))
            if op == 'phi':
                continue
            self.inst(i, op, b, out, d)

    def inst(self, i, op, b, out, d):
        M = self.mod
        w = lambda s: out.append(IND * d + s)
        o = lambda k: self.ref(L.GetOperand(i, k))
        n = self.names.get(i)
        if op == 'ret':
            if self.has_alloca:
                if L.GetNumOperands(i):
                    r = o(0)
                    w('pop_frame(fr)')
                    w('return ' + r)
                else:
                    w('pop_frame(fr)')
                    w('return')
            else:
                w('return ' + (o(0) if L.GetNumOperands(i) else 'None'))
            return
        if op == 'br':
            if L.IsConditional(i):
                c = self.ref(L.GetCondition(i))
                t, f = L.GetSuccessor(i, 0), L.GetSuccessor(i, 1)
                w('if %s:' % c)
                self.edge(b, t, out, d + 1)
                w('else:')
                self.edge(b, f, out, d + 1)
            else:
                self.edge(b, L.GetSuccessor(i, 0), out, d)
            return
        if op == 'switch':
            v = o(0)
            nop = L.GetNumOperands(i)
            dflt = L.GetSwitchDefaultDest(i)
            first = True
            k = 2
            w('sw=%s' % v)
            while k < nop:
                c = self.const_val(L.GetOperand(i, k))
                s = L.GetSuccessor(i, k // 2)
                w(('if' if first else 'elif') + ' sw==%d:' % c)
                self.edge_sw(b, s, out, d + 1)
                first = False
                k += 2
            if first:
                self.edge(b, dflt, out, d)
            else:
                w('else:')
                self.edge_sw(b, dflt, out, d + 1)
            return
        if op == 'unreachable':
            w('unreachable()')
            w('return None')
            return
        if op in ('call', 'invoke'):
            self.call(i, op, b, out, d)
            return
        if op == 'landingpad':
            nc = L.GetNumClauses(i)
            cl = []
            for k in range(nc):
                c = L.GetClause(i, k)
                if M.tyof(c).k == 'array':
                    cl.append('None')      # filter
                else:
                    cl.append(self.ref(c))
            w('%s=landing(ex,(%s),%d)' % (n, ''.join(x + ',' for x in cl), L.IsCleanup(i)))
            return
        if op == 'resume':
            w('resume(%s)' % o(0))
            w('return None')
            return
        w('%s%s' % (n + '=' if n else '', self.expr(i, op, o)))

    def edge_sw(self, frm, to, out, d):
        # several switch cases may share a destination: never inline shared ones
        self.edge(frm, to, out, d)

    def mask(self, t):
        return (1 << t.w) - 1

    def expr(self, i, op, o):
        M = self.mod
        t = M.tyof(i)
        if t.k == 'vector' and op in ('fadd', 'fsub', 'fmul', 'fdiv', 'add', 'sub', 'mul', 'fneg', 'and', 'or', 'xor'):
            if op == 'fneg':
                return 'vec1(lambda x:-x,%s)' % o(0)
            fn = {'fadd': 'x+y', 'fsub': 'x-y', 'fmul': 'fmul(x,y)', 'fdiv': 'fdiv(x,y)',
                  'add': '(x+y)&%d' % ((1 << t.el.w) - 1), 'sub': '(x-y)&%d' % ((1 << t.el.w) - 1),
                  'mul': '(x*y)&%d' % ((1 << t.el.w) - 1), 'and': 'x&y', 'or': 'x|y', 'xor': 'x^y'}[op]
            return 'vec2(lambda x,y:%s,%s,%s)' % (fn, o(0), o(1))
        if op in ('add', 'sub', 'mul'):
            return '(%s%s%s)&%d' % (o(0), {'add': '+', 'sub': '-', 'mul': '*'}[op], o(1), self.mask(t))
        if op in ('and', 'or', 'xor'):
            return '%s%s%s' % (o(0), {'and': '&', 'or': '|', 'xor': '^'}[op], o(1))
        if op == 'shl':
            return '(%s<<%s)&%d' % (o(0), o(1), self.mask(t))
        if op == 'lshr':
            return '%s>>%s' % (o(0), o(1))
        if op == 'ashr':
            return '(sx(%s,%d)>>%s)&%d' % (o(0), t.w, o(1), self.mask(t))
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            return 'i%s(%s,%s,%d)' % (op, o(0), o(1), t.w)
        if op == 'fadd':
            return 'fadd(%s,%s)' % (o(0), o(1))
        if op == 'fsub':
            return 'fsub(%s,%s)' % (o(0), o(1))
        if op == 'fmul':
            return 'fmul(%s,%s)' % (o(0), o(1))
        if op == 'fdiv':
            return 'fdiv(%s,%s)' % (o(0), o(1))
        if op == 'frem':
            return 'frem(%s,%s)' % (o(0), o(1))
        if op == 'fneg':
            return '-%s' % o(0)
        if op == 'icmp':
            p = ICMP[L.GetICmpPredicate(i)]
            t0 = M.tyof(L.GetOperand(i, 0))
            a, b = o(0), o(1)
            if t0.k == 'vector':
                raise Unsupported('vector icmp')
            if p in ('eq', 'ne'):
                return '%s%s%s' % (a, '==' if p == 'eq' else '!=', b)
            if p[0] == 'u':
                return '%s%s%s' % (a, {'ugt': '>', 'uge': '>=', 'ult': '<', 'ule': '<='}[p], b)
            s = 1 << ((t0.w if t0.k == 'int' else 64) - 1)
            a = str(int(a) ^ s) if a.isdigit() else '(%s^%d)' % (a, s)
            b = str(int(b) ^ s) if b.isdigit() else '(%s^%d)' % (b, s)
            return '%s%s%s' % (a, {'sgt': '>', 'sge': '>=', 'slt': '<', 'sle': '<='}[p], b)
        if op == 'fcmp':
            p = FCMP[L.GetFCmpPredicate(i)]
            if p in ('true', 'false'):
                return str(int(p == 'true'))
            return 'fcmp(%r,%s,%s)' % (p, o(0), o(1))
        if op == 'alloca':
            at = M.ty(L.GetAllocatedType(i))
            c = o(0)
            return 'alloca(fr,%d*%s,%r)' % (at.size, c, L.name(i))
        if op == 'load':
            return self.load_expr(t, o(0))
        if op == 'store':
            return self.store_expr(M.tyof(L.GetOperand(i, 0)), o(0), o(1))
        if op == 'getelementptr':
            return self.gep_expr(i, o)
        if op == 'trunc':
            if t.w == 1:
                return 'int(%s)&1' % o(0)
            return 'totrunc(%s,%d)' % (o(0), self.mask(t))
        if op == 'zext':
            st = M.tyof(L.GetOperand(i, 0))
            return ('zext1(%s)' if st.w == 1 else '%s') % o(0)
        if op == 'sext':
            st = M.tyof(L.GetOperand(i, 0))
            return 'sx(int(%s),%d)&%d' % (o(0), st.w, self.mask(t))
        if op in ('fptosi', 'fptoui'):
            return 'fptoi(%s,%d,%d)' % (o(0), t.w, op == 'fptosi')
        if op in ('sitofp', 'uitofp'):
            st = M.tyof(L.GetOperand(i, 0))
            return 'itofp(%s,%d,%d)' % (o(0), st.w, op == 'sitofp')
        if op in ('fptrunc', 'fpext', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            if op == 'ptrtoint' and t.w < 64:
                return '%s&%d' % (o(0), self.mask(t))
            return o(0)
        if op == 'bitcast':
            st = M.tyof(L.GetOperand(i, 0))
            if st.k == 'double' and t.k == 'int':
                return 'd2bits(%s)' % o(0)
            if st.k == 'int' and t.k == 'double':
                return 'bits2d(%s)' % o(0)
            if st.k == t.k and st.size == t.size and st.k != 'vector':
                return o(0)
            raise Unsupported('bitcast ' + L.show(i))
        if op == 'select':
            ct = M.tyof(L.GetOperand(i, 0))
            if ct.k == 'vector':
                raise Unsupported('vector select')
            return '%s if %s else %s' % (o(1), o(0), o(2))
        if op == 'extractvalue':
            idx = L.GetIndices(i)
            return o(0) + ''.join('[%d]' % idx[k] for k in range(L.GetNumIndices(i)))
        if op == 'insertvalue':
            idx = L.GetIndices(i)
            return 'insval(%s,%s,(%s))' % (o(0), o(1), ''.join('%d,' % idx[k] for k in range(L.GetNumIndices(i))))
        if op == 'extractelement':
            return '%s[%s]' % (o(0), o(1))
        if op == 'insertelement':
            return 'insval(%s,%s,(%s,))' % (o(0), o(1), o(2))
        if op == 'shufflevector':
            m = [L.GetMaskValue(i, k) for k in range(L.GetNumMaskElements(i))]
            return 'shuffle(%s,%s,%r)' % (o(0), o(1), tuple(m))
        if op == 'atomicrmw':
            t0 = M.tyof(i)
            opn = {0: 'xchg', 1: 'add', 2: 'sub', 3: 'and', 5: 'or', 6: 'xor', 7: 'max', 8: 'min', 9: 'umax',
                   10: 'umin', 11: 'fadd', 12: 'fsub'}[L.GetAtomicRMWBinOp(i)]
            return 'atomicrmw(%r,%s,%s,%d)' % (opn, o(0), o(1), t0.size)
        if op == 'cmpxchg':
            t0 = M.tyof(L.GetOperand(i, 1))
            return 'cmpxchg(%s,%s,%s,%d)' % (o(0), o(1), o(2), t0.size)
        if op == 'fence':
            return 'None'
        raise Unsupported(op + ': ' + L.show(i)[:200])

    def load_expr(self, t, p):
        if t.k == 'double':
            return 'ldd(%s)' % p
        if t.k == 'float':
            return 'ldf(%s)' % p
        if t.k == 'int':
            if t.w == 1:
                return 'ldi(%s,1)&1' % p
            if t.w in (8, 16, 32, 64):
                return 'ldi(%s,%d)' % (p, t.w // 8)
            return 'ldbig(%s,%d)' % (p, t.ssize)
        if t.k == 'ptr':
            return 'ldi(%s,8)' % p
        if t.k in ('vector', 'array'):
            return '(%s)' % ''.join(self.load_expr(t.el, '%s+%d' % (p, k * t.el.size)) + ',' for k in range(t.n))
        if t.k == 'struct':
            return '(%s)' % ''.join(self.load_expr(e, '%s+%d' % (p, t.offs[k])) + ',' for k, e in enumerate(t.els))
        if t.k == 'x86fp80':
            return 'ldx(%s)' % p
        raise Unsupported('load ' + t.k)

    def store_expr(self, t, v, p):
        if t.k == 'double':
            return 'st(%s,%s,8)' % (p, v)
        if t.k == 'float':
            return 'stf(%s,%s)' % (p, v)
        if t.k == 'int':
            if t.w == 1:
                return 'st(%s,zext1(%s),1)' % (p, v)
            if t.w in (8, 16, 32, 64):
                return 'st(%s,%s,%d)' % (p, v, t.w // 8)
            return 'stbig(%s,%s,%d)' % (p, v, t.ssize)
        if t.k == 'ptr':
            return 'st(%s,%s,8)' % (p, v)
        if t.k in ('vector', 'array'):
            return ';'.join(self.store_expr(t.el, '%s[%d]' % (v, k), '%s+%d' % (p, k * t.el.size)) for k in range(t.n))
        if t.k == 'struct':
            return ';'.join(self.store_expr(e, '%s[%d]' % (v, k), '%s+%d' % (p, t.offs[k]))
                            for k, e in enumerate(t.els)) or 'None'
        if t.k == 'x86fp80':
            return 'stx(%s,%s)' % (p, v)
        raise Unsupported('store ' + t.k)

    def gep_expr(self, i, o):
        M = self.mod
        t = M.ty(L.GetGEPSourceElementType(i))
        n = L.GetNumOperands(i)
        off = 0
        parts = []
        for k in range(1, n):
            ix = L.GetOperand(i, k)
            it = M.tyof(ix)
            if k == 1:
                sz = t.size
            elif t.k == 'struct':
                x = self.const_val(ix)
                off += t.offs[x]
                t = t.els[x]
                continue
            else:
                t = t.el
                sz = t.size
            if L.IsAConstantInt(ix):
                x = self.const_val(ix)
                if x >> (it.w - 1):
                    x -= 1 << it.w
                off += x * sz
            else:
                r = self.ref(ix)
                if it.w < 64:
                    r = 'sx(%s,%d)' % (r, it.w)
                parts.append('%s*%d' % (r, sz) if sz != 1 else r)
        base = o(0)
        if off:
            parts.append(str(off))
        if not parts:
            return base
        return '(%s+%s)&18446744073709551615' % (base, '+'.join(parts))

    def call(self, i, op, b, out, d):
        M = self.mod
        w = lambda s, dd=0: out.append(IND * (d + dd) + s)
        cv = L.GetCalledValue(i)
        na = L.GetNumArgOperands(i)
        n = self.names.get(i)
        args = []
        for k in range(na):
            a = L.GetOperand(i, k)
            if M.tyof(a).k == 'metadata':
                args.append('None')
            else:
                args.append(self.ref(a))
        if L.IsAFunction(cv):
            fn = L.name(cv)
            if fn.startswith('llvm.'):
                e = self.intrinsic(i, fn, args)
                if e is not None:
                    w('%s%s' % (n + '=' if n else '', e))
                if op == 'invoke':
                    self.edge(b, L.GetNormalDest(i), out, d)
                return
            e = '%s(%s)' % (self.ns['fn_ref'](self, fn), ','.join(args))
        elif L.GetValueKind(cv) == 25 or 'asm' in L.show(cv)[:60]:
            raise Unsupported('inline asm')
        else:
            e = 'icall(%s,(%s))' % (self.ref(cv), ''.join(a + ',' for a in args))
        if op == 'call':
            w('%s%s' % (n + '=' if n else '', e))
            return
        w('try:')
        w('%s%s' % (n + '=' if n else '', e), 1)
        w('except CxxExc as e_:')
        w('ex=e_', 1)
        ud = L.GetUnwindDest(i)
        # the landing pad may have several predecessors: transfer outside the except clause
        w('u_=1', 1)
        w('else:')
        w('u_=0', 1)
        w('if u_:')
        self.edge(b, ud, out, d + 1)
        w('else:')
        self.edge(b, L.GetNormalDest(i), out, d + 1)

    def intrinsic(self, i, fn, a):
        M = self.mod
        t = M.tyof(i)
        if fn.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.prefetch',
                          'llvm.invariant', 'llvm.donothing', 'llvm.var.annotation')):
            return None
        if fn.startswith(('llvm.memcpy', 'llvm.memmove')):
            return 'memcpy_(%s,%s,%s)' % tuple(a[:3])
        if fn.startswith('llvm.memset'):
            return 'memset_(%s,%s,%s)' % tuple(a[:3])
        if fn.startswith(('llvm.fmuladd', 'llvm.fma.')):
            return 'fadd(fmul(%s,%s),%s)' % tuple(a)
        if fn.startswith('llvm.sqrt'):
            return 'fsqrt(%s)' % a[0]
        if fn.startswith('llvm.fabs'):
            return 'ffabs(%s)' % a[0]
        if fn.startswith('llvm.floor'):
            return 'ffloor(%s)' % a[0]
        if fn.startswith('llvm.ceil'):
            return 'fceil(%s)' % a[0]
        if fn.startswith(('llvm.trunc.', 'llvm.rint', 'llvm.nearbyint', 'llvm.round', 'llvm.roundeven')):
            return 'fround(%r,%s)' % (fn.split('.')[1], a[0])
        if fn.startswith(('llvm.maxnum', 'llvm.minnum')):
            return 'f%s(%s,%s)' % (fn[5:11], a[0], a[1])
        if fn.startswith('llvm.pow'):
            return 'fpow(%s,%s)' % (a[0], a[1])
        if fn.startswith('llvm.eh.typeid.for'):
            return 'typeid_for(%s)' % a[0]
        if fn.startswith('llvm.expect'):
            return a[0]
        if fn.startswith('llvm.objectsize'):
            return str((1 << t.w) - 1)
        if fn.startswith('llvm.is.constant'):
            return '0'
        if fn.startswith(('llvm.umax', 'llvm.umin')):
            return '%s(%s,%s)' % (fn[6:9], a[0], a[1])
        if fn.startswith(('llvm.smax', 'llvm.smin')):
            return 's%s(%s,%s,%d)' % (fn[6:9], a[0], a[1], t.w)
        if fn.startswith('llvm.abs'):
            return 'iabs(%s,%d)' % (a[0], t.w)
        if fn.startswith('llvm.usub.sat'):
            return 'max(%s-%s,0)' % (a[0], a[1])
        if '.with.overflow' in fn:
            return 'ovf(%r,%s,%s,%d)' % (fn.split('.')[1], a[0], a[1], t.els[0].w)
        if fn.startswith('llvm.trap'):
            return 'trap()'
        if fn.startswith(('llvm.stacksave',)):
            return '0'
        if fn.startswith(('llvm.stackrestore',)):
            return None
        if fn.startswith('llvm.bswap'):
            return 'int.from_bytes(%s.to_bytes(%d,"little"),"big")' % (a[0], t.size)
        if fn.startswith('llvm.ctlz'):
            return '%d-%s.bit_length()' % (t.w, a[0])
        if fn.startswith('llvm.cttz'):
            return 'cttz(%s,%d)' % (a[0], t.w)
        if fn.startswith('llvm.ctpop'):
            return '%s.bit_count()' % a[0]
        if fn.startswith(('llvm.fshl', 'llvm.fshr')):
            return '%s(%s,%s,%s,%d)' % (fn[5:9], a[0], a[1], a[2], t.w)
        if fn.startswith('llvm.copysign'):
            return 'fcopysign(%s,%s)' % (a[0], a[1])
        if fn.startswith('llvm.is.fpclass'):
            return 'fpclass(%s,%s)' % (a[0], a[1])
        if fn.startswith('llvm.threadlocal.address'):
            return a[0]
        if fn.startswith('llvm.va_'):
            return 'unsupported("varargs")'
        return 'unsupported(%r)' % fn
