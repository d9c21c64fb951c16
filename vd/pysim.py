"""Compiled concrete evaluator of a Design (same AST, straight-line Python).  Used to learn
candidate invariants and to search for failing runs; never decides a property."""
import sys
from migen import *
from migen.fhdl.structure import _Operator, _Slice, _Part, _ArrayProxy
from migen.fhdl.bitcontainer import value_bits_sign

from .design import Unsupported, _targets

sys.set_int_max_str_digits(0)   # long registers are literals of the compiled evaluator


def _shr(a, b):
    return a >> (b if b >= 0 else 1 << 20)


def _shl(a, b):
    return a << b if b >= 0 else 0


class Gen:
    def __init__(self, d):
        self.d = d
        self.sigs = list(d.rigid) + list(d.inputs) + list(d.regs) + list(d.comb_order)
        self.ix = {s: i for i, s in enumerate(self.sigs)}
        self.lines = []
        self.tmp = 0

    def ref(self, s):
        return "v%d" % self.ix[s]

    def ex(self, n):
        if isinstance(n, Signal):
            return self.ref(n)
        if isinstance(n, Constant):
            return "(%d)" % n.value
        if isinstance(n, _Operator):
            o = n.op
            a = self.ex(n.operands[0])
            if o == "~":
                return "(~%s)" % a
            if o == "-" and len(n.operands) == 1:
                return "(-%s)" % a
            b = self.ex(n.operands[1])
            if o == "m":
                return "(%s if %s else %s)" % (b, a, self.ex(n.operands[2]))
            if o in (">>>", "<<<") and value_bits_sign(n.operands[1])[1]:
                return "(%s(%s, %s))" % ("_shr" if o == ">>>" else "_shl", a, b)
            o = {">>>": ">>", "<<<": "<<"}.get(o, o)
            if o in ("<", "<=", "==", "!=", ">", ">="):
                return "(1 if %s %s %s else 0)" % (a, o, b)
            return "(%s %s %s)" % (a, o, b)
        if isinstance(n, _Slice):
            return "((%s >> %d) & %d)" % (self.ex(n.value), n.start, (1 << (n.stop - n.start)) - 1)
        if isinstance(n, _Part):
            return "((%s >> %s) & %d)" % (self.ex(n.value), self.ex(n.offset), (1 << n.width) - 1)
        if isinstance(n, Cat):
            off, parts = 0, []
            for e in n.l:
                w = len(e)
                parts.append("((%s & %d) << %d)" % (self.ex(e), (1 << w) - 1, off))
                off += w
            return "(" + (" | ".join(parts) or "0") + ")"
        if isinstance(n, Replicate):
            w = len(n.v)
            k = sum(1 << (i*w) for i in range(n.n))
            return "((%s & %d) * %d)" % (self.ex(n.v), (1 << w) - 1, k)
        if isinstance(n, _ArrayProxy):
            return "(%s,)[min(%d, %s)]" % (", ".join(self.ex(c) for c in n.choices),
                                           len(n.choices) - 1, self.ex(n.key))
        if isinstance(n, ClockSignal):
            return self.ref(self.d.cds[n.cd].clk)
        if isinstance(n, ResetSignal):
            r = self.d.cds[n.cd].rst
            return "0" if r is None else self.ref(r)
        raise Unsupported("expr %r" % n)

    def emit(self, ind, txt):
        self.lines.append("    "*ind + txt)

    def trunc(self, var, expr, nbits, signed, ind):
        m = (1 << nbits) - 1
        if signed:
            h = 1 << (nbits - 1)
            self.emit(ind, "%s = (((%s) & %d) ^ %d) - %d" % (var, expr, m, h, h))
        else:
            self.emit(ind, "%s = (%s) & %d" % (var, expr, m))

    def body(self, pst, s, var, ind):
        if not pst:
            self.emit(ind, "pass")
        for st in pst:
            if isinstance(st, tuple):
                if st[0] == "if":
                    self.emit(ind, "if %s & %d:" % (self.ex(st[1]), (1 << len(st[1])) - 1))
                    self.body(st[2], s, var, ind + 1)
                    if st[3]:
                        self.emit(ind, "else:")
                        self.body(st[3], s, var, ind + 1)
                else:
                    w, sg = value_bits_sign(st[1])
                    self.tmp += 1
                    t = "t%d" % self.tmp
                    self.trunc(t, self.ex(st[1]), w, sg, ind)
                    kw = "if"
                    dflt = None
                    for k, v in st[2]:
                        if isinstance(k, str):
                            dflt = v
                            continue
                        self.emit(ind, "%s %s == %d:" % (kw, t, k.value))
                        self.body(v, s, var, ind + 1)
                        kw = "elif"
                    if dflt:
                        if kw == "if":
                            self.body(dflt, s, var, ind)
                        else:
                            self.emit(ind, "else:")
                            self.body(dflt, s, var, ind + 1)
            else:
                self.assign(st.l, self.ex(st.r), s, var, ind)

    def lval(self, n, s, var):
        if isinstance(n, Signal):
            return "(%s & %d)" % (var, (1 << n.nbits) - 1) if n is s else "0"
        if isinstance(n, Cat):
            off, ps = 0, []
            for e in n.l:
                ps.append("(%s << %d)" % (self.lval(e, s, var), off))
                off += len(e)
            return "(" + " | ".join(ps) + ")"
        if isinstance(n, _Slice):
            return "((%s >> %d) & %d)" % (self.lval(n.value, s, var), n.start, (1 << (n.stop - n.start)) - 1)
        raise Unsupported("lvalue %r" % n)

    def assign(self, l, val, s, var, ind):
        if isinstance(l, Signal):
            if l is s:
                self.trunc(var, val, l.nbits, l.signed, ind)
            return
        if isinstance(l, Cat):
            off = 0
            self.tmp += 1
            t = "t%d" % self.tmp
            self.emit(ind, "%s = %s" % (t, val))
            for e in l.l:
                w = len(e)
                if w and s in _targets(e):
                    self.assign(e, "((%s >> %d) & %d)" % (t, off, (1 << w) - 1), s, var, ind)
                off += w
            return
        if isinstance(l, _Slice):
            if isinstance(l.value, _ArrayProxy):
                return self.arr(l.value.key, [_Slice(c, l.start, l.stop) for c in l.value.choices], val, s, var, ind)
            w = l.stop - l.start
            m = ((1 << w) - 1) << l.start
            self.assign(l.value, "((%s & ~%d) | ((%s << %d) & %d))" % (self.lval(l.value, s, var), m, val, l.start, m), s, var, ind)
            return
        if isinstance(l, _ArrayProxy):
            return self.arr(l.key, list(l.choices), val, s, var, ind)
        if isinstance(l, _Part):
            o = self.ex(l.offset)
            m = (1 << l.width) - 1
            self.assign(l.value, "((%s & ~(%d << %s)) | (((%s) & %d) << %s))" % (
                self.lval(l.value, s, var), m, o, val, m, o), s, var, ind)
            return
        raise Unsupported("lvalue %r" % l)

    def arr(self, key, choices, val, s, var, ind):
        self.tmp += 1
        t = "t%d" % self.tmp
        self.emit(ind, "%s = min(%d, %s)" % (t, len(choices) - 1, self.ex(key)))
        for i, c in enumerate(choices):
            if s in _targets(c):
                self.emit(ind, "if %s == %d:" % (t, i))
                self.assign(c, val, s, var, ind + 1)


class Sim:
    def __init__(self, d):
        self.d = d
        g = self.g = Gen(d)
        self.ix = g.ix
        n_src = len(d.rigid) + len(d.inputs) + len(d.regs)
        self.n_src = n_src
        # comb
        g.emit(0, "def comb(V):")
        g.emit(1, "(" + ", ".join("v%d" % i for i in range(n_src)) + ("," if n_src == 1 else "") + ") = V" if n_src else "pass")
        for s in d.comb_order:
            g.emit(1, "v%d = %d" % (g.ix[s], s.reset.value))
            g.body(d.comb[s], s, "v%d" % g.ix[s], 1)
        g.emit(1, "return [" + ", ".join("v%d" % i for i in range(len(g.sigs))) + "]")
        # sync: one function, tick mask per domain
        g.emit(0, "def step(V, T):")
        n = len(g.sigs)
        g.emit(1, "(" + ", ".join("v%d" % i for i in range(n)) + ("," if n == 1 else "") + ") = V" if n else "pass")
        for r in d.regs:
            g.emit(1, "n%d = v%d" % (g.ix[r], g.ix[r]))
        for ci, cd in enumerate(d.domains):
            g.emit(1, "if T & %d:" % (1 << ci))
            g.emit(2, "pass")
            for r in d.regs:
                if d.sync[r][0] == cd:
                    g.body(d.sync[r][1], r, "n%d" % g.ix[r], 2)
        g.emit(1, "return [" + ", ".join("n%d" % g.ix[r] for r in d.regs) + "]")
        ns = dict(_shr=_shr, _shl=_shl)
        exec(compile("\n".join(g.lines), "<pysim>", "exec"), ns)
        self.comb, self.step = ns["comb"], ns["step"]
        self.reset = [r.reset.value for r in d.regs]
        self.nr, self.ni = len(d.rigid), len(d.inputs)
