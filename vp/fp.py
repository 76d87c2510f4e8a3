"""Bit-precise checking of straight-line scalar code: LLVM IR of the functions vpq_<label>(double...) -> int is turned into an
SMT term over IEEE doubles and bit vectors; the solvers are asked for arguments that make the function return nonzero."""
import os
import re
import struct
import subprocess
import time
import ctypes as C
from . import llvmc as L

FC = {'oeq': '(fp.eq {0} {1})', 'ogt': '(fp.gt {0} {1})', 'oge': '(fp.geq {0} {1})', 'olt': '(fp.lt {0} {1})', 'ole': '(fp.leq {0} {1})',
      'one': '(or (fp.lt {0} {1}) (fp.gt {0} {1}))', 'ord': '(not (or (fp.isNaN {0}) (fp.isNaN {1})))',
      'uno': '(or (fp.isNaN {0}) (fp.isNaN {1}))', 'ueq': '(not (or (fp.lt {0} {1}) (fp.gt {0} {1})))', 'ugt': '(not (fp.leq {0} {1}))',
      'uge': '(not (fp.lt {0} {1}))', 'ult': '(not (fp.geq {0} {1}))', 'ule': '(not (fp.gt {0} {1}))', 'une': '(not (fp.eq {0} {1}))',
      'true': 'true', 'false': 'false'}
IC = {'eq': '(= {0} {1})', 'ne': '(distinct {0} {1})', 'ugt': '(bvugt {0} {1})', 'uge': '(bvuge {0} {1})', 'ult': '(bvult {0} {1})',
      'ule': '(bvule {0} {1})', 'sgt': '(bvsgt {0} {1})', 'sge': '(bvsge {0} {1})', 'slt': '(bvslt {0} {1})', 'sle': '(bvsle {0} {1})'}
BV = {'add': 'bvadd', 'sub': 'bvsub', 'mul': 'bvmul', 'and': 'bvand', 'or': 'bvor', 'xor': 'bvxor', 'shl': 'bvshl', 'lshr': 'bvlshr', 'ashr': 'bvashr'}
FB = {'fadd': 'fp.add RNE', 'fsub': 'fp.sub RNE', 'fmul': 'fp.mul RNE', 'fdiv': 'fp.div RNE'}
CLASS = [(0x3, '(fp.isNaN {0})'), (0x4, '(and (fp.isInfinite {0}) (fp.isNegative {0}))'), (0x8, '(and (fp.isNormal {0}) (fp.isNegative {0}))'),
         (0x10, '(and (fp.isSubnormal {0}) (fp.isNegative {0}))'), (0x20, '(and (fp.isZero {0}) (fp.isNegative {0}))'),
         (0x40, '(and (fp.isZero {0}) (fp.isPositive {0}))'), (0x80, '(and (fp.isSubnormal {0}) (fp.isPositive {0}))'),
         (0x100, '(and (fp.isNormal {0}) (fp.isPositive {0}))'), (0x200, '(and (fp.isInfinite {0}) (fp.isPositive {0}))')]


class Unsupported(Exception):
    pass


def dbl(x):
    return '((_ to_fp 11 53) #x%016x)' % struct.unpack('<Q', struct.pack('<d', x))[0]


class Fn:
    def __init__(self, mod, f):
        self.mod, self.f, self.lines, self.v, self.n = mod, f, [], {}, 0

    def sort(self, t):
        if t.k == 'double':
            return 'Float64'
        if t.k == 'int':
            return 'Bool' if t.w == 1 else '(_ BitVec %d)' % t.w
        raise Unsupported('type ' + L.showty(t.ref))

    def const(self, v):
        t = self.mod.tyof(v)
        if L.IsUndef(v) or L.IsPoison(v):
            raise Unsupported('undef')
        if t.k == 'double' and L.IsAConstantFP(v):
            lost = C.c_int()
            return dbl(L.ConstRealGetDouble(v, C.byref(lost)))
        if t.k == 'int' and L.IsAConstantInt(v):
            x = L.ConstIntGetZExtValue(v)
            return ('true' if x & 1 else 'false') if t.w == 1 else '(_ bv%d %d)' % (x, t.w)
        raise Unsupported('constant ' + L.show(v))

    def val(self, v):
        if v in self.v:
            return self.v[v]
        if L.IsConstant(v):
            return self.const(v)
        raise Unsupported('loop or unknown value ' + L.show(v))

    def bind(self, v, term):
        self.n += 1
        nm = 'v%d' % self.n
        self.lines.append('(define-fun %s () %s %s)' % (nm, self.sort(self.mod.tyof(v)), term))
        self.v[v] = nm

    def cond(self, term):
        self.n += 1
        nm = 'c%d' % self.n
        self.lines.append('(define-fun %s () Bool %s)' % (nm, term))
        return nm

    def translate(self):
        mod = self.mod
        args = []
        for i in range(L.CountParams(self.f)):
            p = L.GetParam(self.f, i)
            if mod.tyof(p).k != 'double':
                raise Unsupported('argument type')
            self.v[p] = 'x%d' % i
            args.append('x%d' % i)
            self.lines.append('(declare-const x%d Float64)' % i)
        blocks, succ = [], {}
        b = L.GetFirstBasicBlock(self.f)
        while b:
            blocks.append(b)
            t = L.GetBasicBlockTerminator(b)
            succ[b] = [L.GetSuccessor(t, i) for i in range(L.GetNumSuccessors(t))]
            b = L.GetNextBasicBlock(b)
        order, seen = [], {}

        def visit(b):
            seen[b] = 1
            for s in succ[b]:
                if s not in seen:
                    visit(s)
                elif seen[s] == 1:
                    raise Unsupported('loop')
            seen[b] = 2
            order.append(b)
        visit(blocks[0])
        order.reverse()
        edge = {}     # (from, to) -> condition
        rets = []
        for b in order:
            inc = [edge[k] for k in edge if k[1] == b]
            here = 'true' if b == blocks[0] else self.cond('(or false %s)' % ' '.join(inc))
            i = L.GetFirstInstruction(b)
            while i:
                self.inst(i, b, here, edge, rets)
                i = L.GetNextInstruction(i)
        if not rets:
            raise Unsupported('no return')
        self.lines.append('(assert (or %s))' % ' '.join('(and %s %s)' % (h, r) for h, r in rets) if len(rets) > 1 else '(assert (and true %s))' % rets[0][1])
        return args

    def addedge(self, a, b, c):
        c = self.cond(c)
        edge = self.edge
        edge[(a, b)] = '(or %s %s)' % (edge[(a, b)], c) if (a, b) in edge else c

    def inst(self, i, b, here, edge, rets):
        self.edge = edge
        op = L.OP.get(L.GetInstructionOpcode(i), '?')
        o = lambda k: self.val(L.GetOperand(i, k))
        ty = self.mod.tyof(i)
        if op == 'ret':
            rv = L.GetOperand(i, 0)
            rets.append((here, '(distinct %s (_ bv0 %d))' % (self.val(rv), self.mod.tyof(rv).w)))
        elif op == 'br':
            if L.IsConditional(i):
                c = self.val(L.GetCondition(i))
                self.addedge(b, L.GetSuccessor(i, 0), '(and %s %s)' % (here, c))
                self.addedge(b, L.GetSuccessor(i, 1), '(and %s (not %s))' % (here, c))
            else:
                self.addedge(b, L.GetSuccessor(i, 0), here)
        elif op == 'phi':
            n = L.CountIncoming(i)
            term = None
            for k in range(n):
                p = L.GetIncomingBlock(i, k)
                if (p, b) not in edge:
                    continue
                x = self.val(L.GetIncomingValue(i, k))
                term = x if term is None else '(ite %s %s %s)' % (edge[(p, b)], x, term)
            self.bind(i, term)
        elif op == 'fcmp':
            self.bind(i, FC[L.FCMP[L.GetFCmpPredicate(i)]].format(o(0), o(1)))
        elif op == 'icmp':
            if self.mod.tyof(L.GetOperand(i, 0)).k != 'int':
                raise Unsupported('comparison of addresses')
            p = L.ICMP[L.GetICmpPredicate(i)]
            if self.mod.tyof(L.GetOperand(i, 0)).w == 1 and p not in ('eq', 'ne'):
                raise Unsupported('ordering of truth values')
            self.bind(i, IC[p].format(o(0), o(1)))
        elif op in FB and ty.k == 'double':
            self.bind(i, '(%s %s %s)' % (FB[op], o(0), o(1)))
        elif op == 'fneg':
            self.bind(i, '(fp.neg %s)' % o(0))
        elif op == 'select':
            self.bind(i, '(ite %s %s %s)' % (o(0), o(1), o(2)))
        elif op == 'freeze':
            self.bind(i, o(0))
        elif op in BV and ty.k == 'int':
            if ty.w == 1:
                if op not in ('and', 'or', 'xor'):
                    raise Unsupported(op + ' of truth values')
                self.bind(i, '(%s %s %s)' % (op, o(0), o(1)))
            else:
                self.bind(i, '(%s %s %s)' % (BV[op], o(0), o(1)))
        elif op in ('zext', 'sext'):
            src = self.mod.tyof(L.GetOperand(i, 0))
            if src.w == 1:
                one = '(_ bv%d %d)' % (1 if op == 'zext' else (1 << ty.w) - 1, ty.w)
                self.bind(i, '(ite %s %s (_ bv0 %d))' % (o(0), one, ty.w))
            else:
                self.bind(i, '((_ %s %d) %s)' % ('zero_extend' if op == 'zext' else 'sign_extend', ty.w - src.w, o(0)))
        elif op == 'trunc':
            self.bind(i, '((_ extract %d 0) %s)' % (ty.w - 1, o(0)) if ty.w > 1 else '(= ((_ extract 0 0) %s) #b1)' % o(0))
        elif op in ('sitofp', 'uitofp') and ty.k == 'double':
            src = self.mod.tyof(L.GetOperand(i, 0))
            if src.w == 1:
                self.bind(i, '(ite %s %s %s)' % (o(0), dbl(1.0 if op == 'uitofp' else -1.0), dbl(0.0)))
            else:
                self.bind(i, '((_ %s 11 53) RNE %s)' % ('to_fp' if op == 'sitofp' else 'to_fp_unsigned', o(0)))
        elif op == 'call':
            nm = L.name(L.GetCalledValue(i))
            if nm.startswith('llvm.fabs'):
                self.bind(i, '(fp.abs %s)' % o(0))
            elif nm.startswith('llvm.sqrt') or nm == 'sqrt':
                self.bind(i, '(fp.sqrt RNE %s)' % o(0))
            elif nm.startswith('llvm.floor') or nm == 'floor':
                self.bind(i, '(fp.roundToIntegral RTN %s)' % o(0))
            elif nm.startswith('llvm.ceil') or nm == 'ceil':
                self.bind(i, '(fp.roundToIntegral RTP %s)' % o(0))
            elif nm.startswith('llvm.fmuladd') or nm.startswith('llvm.fma'):
                self.bind(i, '(fp.fma RNE %s %s %s)' % (o(0), o(1), o(2)))
            elif nm.startswith(('llvm.maxnum', 'llvm.minnum')):
                a, c = o(0), o(1)
                self.bind(i, '(ite (fp.isNaN %s) %s (ite (fp.isNaN %s) %s (ite (%s %s %s) %s %s)))' % (
                    a, c, c, a, 'fp.geq' if 'max' in nm else 'fp.leq', a, c, a, c))
            elif nm.startswith('llvm.is.fpclass'):
                mask = L.ConstIntGetZExtValue(L.GetOperand(i, 1))
                self.bind(i, '(or false %s)' % ' '.join(s.format(o(0)) for m, s in CLASS if mask & m))
            elif nm.startswith(('llvm.assume', 'llvm.dbg', 'llvm.lifetime', 'llvm.experimental.noalias')):
                pass
            else:
                raise Unsupported('call of ' + (nm or 'a pointer'))
        else:
            raise Unsupported(L.show(i).strip()[:120])


def parse_fp(s):
    m = re.match(r'\(fp #b([01]) #(b[01]+|x[0-9a-f]+) #(b[01]+|x[0-9a-f]+)\)', s)
    if m:
        def bits(t, n):
            return int(t[1:], 2 if t[0] == 'b' else 16)
        q = (int(m[1]) << 63) | (bits(m[2], 11) << 52) | bits(m[3], 52)
        return struct.unpack('<d', struct.pack('<Q', q))[0]
    if 'NaN' in s:
        return float('nan')
    if '-oo' in s:
        return float('-inf')
    if '+oo' in s:
        return float('inf')
    if '-zero' in s:
        return -0.0
    if '+zero' in s:
        return 0.0
    raise ValueError(s)


def solve(text, args, secs, base):
    """portfolio of solvers; returns verdict, values, seconds"""
    f = base + '.smt2'
    with open(f, 'w') as fh:
        fh.write('(set-option :produce-models true)\n(set-logic QF_FPBV)\n%s\n(check-sat)\n%s\n' % (
            text, ''.join('(get-value (%s))\n' % a for a in args)))
    t0 = time.time()
    procs = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
             for c in (['cvc5', '--fp-exp', f], ['z3', f])]
    out = ('unknown', {})
    live = list(procs)
    try:
        while live and time.time() - t0 < secs and out[0] == 'unknown':
            for p in list(live):
                if p.poll() is None:
                    continue
                live.remove(p)
                s = p.stdout.read()
                if s.startswith('unsat'):
                    out = ('unsat', {})
                    break
                if s.startswith('sat'):
                    vals = {}
                    for a in args:
                        m = re.search(r'\(\(%s (.*?)\)\)\s*$' % a, s, re.M)
                        vals[a] = parse_fp(m[1] + (')' if m[1].startswith('(fp') and not m[1].endswith(')') else ''))
                    out = ('sat', vals)
                    break
            time.sleep(0.02)
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
    return out[0], out[1], time.time() - t0


def explore(path, base, secs):
    """one record per function vpq_*"""
    mod = L.Module(path)
    recs = []
    for nm, f in sorted(mod.funcs.items()):
        if not nm.startswith('vpq_') or L.IsDeclaration(f):
            continue
        label = nm[4:].replace('_', ' ')
        rec = dict(end='done', detail='', stats={}, undecided=[], violations=[], reach=[label], ints=[], depth=0, fn=nm)
        try:
            fn = Fn(mod, f)
            args = fn.translate()
            verdict, vals, dt = solve('\n'.join(fn.lines), args, secs, base + '.' + nm)
            rec['stats'] = dict(obl=1, obl_z3=1, queries=1, solver_s=dt, **{verdict: 1})
            if verdict == 'sat':
                rec['violations'].append(dict(label=label, kind='check', info='bit-precise counterexample', inputs=vals, ints=[['f.' + nm, 1]]))
            elif verdict == 'unknown':
                rec['undecided'].append('%s: no answer in %.0f s' % (label, dt))
        except Unsupported as e:
            rec['end'], rec['detail'] = 'error', '%s: outside the bit-precise encoding: %s' % (label, e)
        recs.append(rec)
    return recs, [n for n in mod.funcs if n.startswith('vpq_')]
