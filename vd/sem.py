"""FHDL semantics as z3 bit-vector terms (the integer semantics of migen.sim.core.Evaluator:
every intermediate value is exact, only assignments truncate)."""
import z3
from migen import *
from migen.fhdl.structure import _Operator, _Slice, _Part, _ArrayProxy, _Assign
from migen.fhdl.bitcontainer import value_bits_sign

from .design import Unsupported, _targets


def bv(v, w):
    return z3.BitVecVal(v, w)


def ext(t, s, w):
    """resize a (term, signed) to w bits, preserving value when w is large enough"""
    n = t.size()
    if n == w:
        return t
    if n > w:
        return z3.Extract(w - 1, 0, t)
    return z3.SignExt(w - n, t) if s else z3.ZeroExt(w - n, t)


def sbits(w, s):
    return w if s else w + 1


def join(a, b):
    """common (width, signed) able to hold both"""
    (wa, sa), (wb, sb) = a, b
    if sa == sb:
        return max(wa, wb), sa
    return max(sbits(wa, sa), sbits(wb, sb)), True


ONE, ZERO = z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)


def b2bv(c):
    return z3.If(c, ONE, ZERO)


class Frame:
    """One instant: state/inputs given, combinational values computed on demand."""
    def __init__(self, design, values, ticks=None):
        self.d = design
        self.v = values          # Signal -> z3 term
        self.ticks = ticks or {}
        self._clkmap = None

    # -- signals
    def sig(self, s):
        t = self.v.get(s)
        if t is None:
            if s in self.d.comb:
                # comb_order guarantees no unbounded recursion in practice
                t = self.run(self.d.comb[s], bv(s.reset.value, s.nbits), s)
                t = z3.simplify(t)
                self.v[s] = t
            else:
                raise KeyError("no value for %s" % self.d.name(s))
        return t

    def eval_all(self):
        for s in self.d.comb_order:
            self.sig(s)
        return self

    # -- expressions: (term, signed)
    def ev(self, n):
        if isinstance(n, Signal):
            return self.sig(n), n.signed
        if isinstance(n, Constant):
            w = max(n.nbits, 1)
            v = n.value
            # exact
            if v >= 0:
                return bv(v, max(v.bit_length(), 1)), False
            return bv(v, max((-v - 1).bit_length() + 1, 1)), True
        if isinstance(n, _Operator):
            return self.op(n)
        if isinstance(n, _Slice):
            w = n.stop - n.start
            if w <= 0:
                return bv(0, 1), False
            t, s = self.ev(n.value)
            if t.size() < n.stop:
                t = ext(t, s, n.stop)
            return z3.Extract(n.stop - 1, n.start, t), False
        if isinstance(n, _Part):
            t, s = self.ev(n.value)
            o, so = self.ev(n.offset)
            if so:
                raise Unsupported("signed part offset")
            w = max(t.size(), o.size(), n.width) + 1
            r = ext(t, s, w) >> ext(o, False, w) if s else z3.LShR(ext(t, s, w), ext(o, False, w))
            return z3.Extract(n.width - 1, 0, r), False
        if isinstance(n, Cat):
            parts = []
            for e in n.l:
                w = len(e)
                if w == 0:
                    continue
                t, s = self.ev(e)
                parts.append(ext(t, s, w))
            if not parts:
                return bv(0, 1), False
            if len(parts) == 1:
                return parts[0], False
            return z3.Concat(*reversed(parts)), False
        if isinstance(n, Replicate):
            w = len(n.v)
            if n.n == 0 or w == 0:
                return bv(0, 1), False
            t, s = self.ev(n.v)
            t = ext(t, s, w)
            return (z3.Concat(*([t]*n.n)) if n.n > 1 else t), False
        if isinstance(n, _ArrayProxy):
            k, ks = self.ev(n.key)
            cs = [self.ev(c) for c in n.choices]
            w, s = cs[0][0].size(), cs[0][1]
            for t, ss in cs[1:]:
                w, s = join((w, s), (t.size(), ss))
            cs = [ext(t, ss, w) for t, ss in cs]
            return self.select(k, ks, cs), s
        if isinstance(n, ClockSignal):
            return self.sig(self.d.cds[n.cd].clk), False
        if isinstance(n, ResetSignal):
            r = self.d.cds[n.cd].rst
            if r is None:
                return bv(0, 1), False
            return self.sig(r), False
        raise Unsupported("expr %r" % n)

    def select(self, k, ks, cs):
        if ks:
            raise Unsupported("signed array index")
        n = len(cs)
        if z3.is_bv_value(k):
            return cs[min(k.as_long(), n - 1)]
        # clamp to last: build from the top
        w = k.size()
        limit = 1 << w
        r = cs[min(n, limit) - 1]
        for i in range(min(n, limit) - 2, -1, -1):
            r = z3.If(k == bv(i, w), cs[i], r)
        return r

    def cond(self, n):
        t, s = self.ev(n)
        w = len(n)
        t = ext(t, s, w) if t.size() > w else t
        return t != bv(0, t.size())

    def op(self, n):
        op, ops = n.op, n.operands
        a, sa = self.ev(ops[0])
        wa = a.size()
        if op == "~":
            if not sa:
                a = z3.ZeroExt(1, a)
            return ~a, True
        if op == "-" and len(ops) == 1:
            w = wa + 1 if sa else wa + 1
            return -ext(a, sa, w), True
        if op == "m":
            b, sb = self.ev(ops[1])
            c, sc = self.ev(ops[2])
            w, s = join((b.size(), sb), (c.size(), sc))
            return z3.If(a != bv(0, wa), ext(b, sb, w), ext(c, sc, w)), s
        b, sb = self.ev(ops[1])
        wb = b.size()
        if op == "+":
            w, s = join((wa, sa), (wb, sb))
            return ext(a, sa, w + 1) + ext(b, sb, w + 1), s
        if op == "-":
            w, s = join((wa, sa), (wb, sb))
            w = w + 1
            return ext(a, sa, w) - ext(b, sb, w), True
        if op == "*":
            s = sa or sb
            w = sbits(wa, sa) + sbits(wb, sb) if s else wa + wb
            return ext(a, sa, w) * ext(b, sb, w), s
        if op in ("&", "|", "^"):
            w, s = join((wa, sa), (wb, sb))
            a, b = ext(a, sa, w), ext(b, sb, w)
            return {"&": a & b, "|": a | b, "^": a ^ b}[op], s
        if op in ("==", "!=", "<", "<=", ">", ">="):
            w, s = join((wa, sa), (wb, sb))
            a, b = ext(a, sa, w), ext(b, sb, w)
            if op == "==":
                c = a == b
            elif op == "!=":
                c = a != b
            elif s:
                c = {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
            else:
                c = {"<": z3.ULT(a, b), "<=": z3.ULE(a, b), ">": z3.UGT(a, b), ">=": z3.UGE(a, b)}[op]
            return b2bv(c), False
        if op == ">>>":
            # a negative amount is a huge one (Verilog: amounts are unsigned); Migen's simulator
            # refuses to evaluate it
            w = max(wa, wb) + 1
            aa, bb = ext(a, sa, w), ext(b, False, w)
            r = (aa >> bb) if sa else z3.LShR(aa, bb)
            return ext(r, sa, wa), sa
        if op == "<<<":
            if z3.is_bv_value(b):
                extra = b.as_long()
            else:
                extra = (1 << wb) - 1
            if extra > 1024:
                raise Unsupported("huge shift")
            w = max(wa + extra, wb)
            return ext(a, sa, w) << ext(b, False, w), sa
        raise Unsupported("op " + op)

    # -- statements, projected on signal s
    def run(self, pst, cur, s):
        for st in pst:
            if isinstance(st, tuple):
                if st[0] == "if":
                    c = self.cond(st[1])
                    c = z3.simplify(c)
                    if z3.is_true(c):
                        cur = self.run(st[2], cur, s)
                    elif z3.is_false(c):
                        cur = self.run(st[3], cur, s)
                    else:
                        cur = z3.If(c, self.run(st[2], cur, s), self.run(st[3], cur, s))
                else:
                    t, ts = self.ev(st[1])
                    w = len(st[1])
                    t = ext(t, ts, w)
                    _, signed = value_bits_sign(st[1])
                    branches = st[2]
                    dflt = cur
                    keyed = []
                    for k, v in branches:
                        if isinstance(k, str):
                            dflt = self.run(v, cur, s)
                        else:
                            kv = k.value
                            lo, hi = (-(1 << (w-1)), (1 << (w-1)) - 1) if signed else (0, (1 << w) - 1)
                            if lo <= kv <= hi:
                                keyed.append((kv, self.run(v, cur, s)))
                    r = dflt
                    for kv, val in reversed(keyed):
                        r = z3.If(t == bv(kv, w), val, r)
                    cur = r
            else:
                val = self.ev(st.r)
                cur = self.assign(st.l, val, cur, s)
        return cur

    def lval(self, n, s, cur):
        """pending bits of an lvalue expression; only the bits belonging to s matter"""
        if isinstance(n, Signal):
            return cur if n is s else bv(0, n.nbits)
        if isinstance(n, Cat):
            ps = [self.lval(e, s, cur) for e in n.l if len(e)]
            return z3.Concat(*reversed(ps)) if len(ps) > 1 else ps[0]
        if isinstance(n, _Slice):
            return z3.Extract(n.stop - 1, n.start, self.lval(n.value, s, cur))
        raise Unsupported("lvalue %r" % n)

    def assign(self, l, val, cur, s):
        t, sg = val
        if isinstance(l, Signal):
            return ext(t, sg, l.nbits) if l is s else cur
        if isinstance(l, Cat):
            off = 0
            for e in l.l:
                w = len(e)
                if w == 0:
                    continue
                if s in _targets(e):
                    tt = ext(t, sg, max(off + w, t.size()))
                    cur = self.assign(e, (z3.Extract(off + w - 1, off, tt), False), cur, s)
                off += w
            return cur
        if isinstance(l, _Slice):
            if isinstance(l.value, _ArrayProxy):
                ap = l.value
                k, ks = self.ev(ap.key)
                return self.assign_array(k, [_Slice(c, l.start, l.stop) for c in ap.choices], val, cur, s)
            w = l.stop - l.start
            full = self.lval(l.value, s, cur)
            v = ext(t, sg, w)
            parts = []
            if l.stop < full.size():
                parts.append(z3.Extract(full.size() - 1, l.stop, full))
            parts.append(v)
            if l.start > 0:
                parts.append(z3.Extract(l.start - 1, 0, full))
            full = z3.Concat(*parts) if len(parts) > 1 else parts[0]
            return self.assign(l.value, (full, False), cur, s)
        if isinstance(l, _ArrayProxy):
            k, ks = self.ev(l.key)
            return self.assign_array(k, list(l.choices), val, cur, s)
        if isinstance(l, _Part):
            o, so = self.ev(l.offset)
            full = self.lval(l.value, s, cur)
            n = full.size()
            w = max(n, o.size()) + 1
            mask = ext(bv((1 << l.width) - 1, max(w, l.width)), False, w) << ext(o, so, w)
            v = ext(ext(ext(t, sg, l.width), False, max(w, l.width)), False, w) << ext(o, so, w)
            full = z3.Extract(n - 1, 0, (ext(full, False, w) & ~mask) | (v & mask))
            return self.assign(l.value, (full, False), cur, s)
        raise Unsupported("lvalue %r" % l)

    def assign_array(self, k, choices, val, cur, s):
        n = len(choices)
        if z3.is_bv_value(k):
            return self.assign(choices[min(k.as_long(), n - 1)], val, cur, s)
        w = k.size()
        new = cur
        for i, c in enumerate(choices):
            if s not in _targets(c):
                continue
            if i == n - 1:
                cond = z3.UGE(k, bv(i, w)) if i < (1 << w) else z3.BoolVal(False)
            else:
                cond = (k == bv(i, w)) if i < (1 << w) else z3.BoolVal(False)
            new = z3.If(cond, self.assign(c, val, cur, s), new)
        return new

    # -- next state
    def next(self, s):
        cd, st = self.d.sync[s]
        cur = self.sig(s)
        nxt = self.run(st, cur, s)
        tk = self.ticks.get(cd)
        if tk is not None and not z3.is_true(tk):
            nxt = z3.If(tk, nxt, cur)
        return z3.simplify(nxt)


class Unroller:
    """frames[0..]; init='reset' (registers at reset value), 'any', or the values of all registers."""
    def __init__(self, design, init, tag="", rigid=None):
        self.d, self.tag = design, tag
        self.rigid = {r: z3.BitVec("%s%s" % (tag, design.name(r)), r.nbits) if rigid is None else bv(rigid[r], r.nbits) for r in design.rigid}
        self.frames = []
        self.inputs = []
        self.tickvars = []
        st = {}
        for r in design.regs:
            if init == "reset":
                st[r] = bv(r.reset.value, r.nbits)
            elif isinstance(init, dict):
                st[r] = bv(init[r], r.nbits)
            else:
                st[r] = z3.BitVec("%s%s@0" % (tag, design.name(r)), r.nbits)
        self.state0 = dict(st)
        self._push(st)

    def _push(self, st):
        k = len(self.frames)
        vals = dict(st)
        vals.update(self.rigid)
        ins = {}
        for s in self.d.inputs:
            ins[s] = z3.BitVec("%s%s#%d" % (self.tag, self.d.name(s), k), s.nbits)
        vals.update(ins)
        if len(self.d.domains) > 1:
            tk = {cd: z3.Bool("%stick_%s#%d" % (self.tag, cd, k)) for cd in self.d.domains}
        else:
            tk = {cd: z3.BoolVal(True) for cd in self.d.domains}
        self.inputs.append(ins)
        self.tickvars.append(tk)
        f = Frame(self.d, vals, tk)
        f.eval_all()
        self.frames.append(f)

    def extend(self):
        f = self.frames[-1]
        self._push({r: f.next(r) for r in self.d.regs})
        return self.frames[-1]

    def frame(self, k):
        while len(self.frames) <= k:
            self.extend()
        return self.frames[k]
