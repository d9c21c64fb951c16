"""Mechanical extraction: elaborated Migen module -> synchronous transition system.

The input is the fragment the *real* litevideo constructors build (plus the ghost
module of the contract, written in the same language).  Nothing is re-typed by hand:
the statements interpreted by `sem.py` (z3 terms) and `pysim.py` (compiled Python) are
the FHDL AST objects of the elaborated design.

What the extraction drops / abstracts is recorded in `Design.abstractions`:
  * vendor primitive `Instance`s: removed; their outputs become unconstrained inputs
    (havoc), their inputs stay observable to the contract;
  * `Tristate`: i = external & ~oe | o & oe, external level is a free input;
  * clock domains: one step = any non-empty set of domains sees a rising edge;
  * MultiReg: its real register chain, no metastability;
  * AsyncResetSynchronizer: reset follows its source combinationally
    (what the Migen simulator does).
"""
import collections

from migen import *
from migen.fhdl.structure import (_Value, _Operator, _Slice, _Part, _ArrayProxy, _Assign,
                                  _Fragment)
from migen.fhdl.specials import Memory, Instance, Tristate, _MemoryPort, READ_FIRST, WRITE_FIRST, NO_CHANGE
from migen.fhdl.tools import lower_specials, list_clock_domains, insert_resets, list_targets
from migen.fhdl.bitcontainer import value_bits_sign
from migen.genlib.resetsync import AsyncResetSynchronizer
from migen.util.misc import flat_iteration


class CombLoop(Exception):
    """a signal depends on itself without a register in between: it has no defined value"""


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- specials

class _ARSImpl(Module):
    def __init__(self, cd, async_reset):
        self.comb += cd.rst.eq(async_reset)


class ARSOverride:
    @staticmethod
    def lower(dr):
        return _ARSImpl(dr.cd, dr.async_reset)


class _Empty(Module):
    pass


class InstanceOverride:
    """Black box: the outputs stay undriven, i.e. free."""
    @staticmethod
    def lower(dr):
        return _Empty()


class _TriImpl(Module):
    def __init__(self, t):
        if t.i is not None:
            # `target` is undriven: it plays the external level of the (pulled-up) wire.
            n = len(t.i)
            if isinstance(t.oe, _Value) and len(t.oe) == 1:
                self.comb += If(t.oe, t.i.eq(t.o)).Else(t.i.eq(t.target))
            else:
                raise Unsupported("tristate oe")


class TristateOverride:
    @staticmethod
    def lower(t):
        if t._isrecord:
            return Tristate.lower(t)
        return _TriImpl(t)


OVERRIDES = {AsyncResetSynchronizer: ARSOverride, Instance: InstanceOverride,
             Tristate: TristateOverride}


def _extra_overrides():
    # litex 2022 ships its own differential/DDR helpers; none is lowered to logic we model.
    return {}


# ---------------------------------------------------------------- memories

def expand_memory(f, mem, track=None, info=None, wide=False):
    """Rewrites one Memory special into FHDL (as migen.sim's MemoryToArray does): one register per
    word, or (`wide`, concrete runs only) one long register.  With `track` = ([(address, initial
    value)], list) only the words at these (constant) addresses are kept; reads
    elsewhere return arbitrary data (sound over-approximation)."""
    init = list(mem.init) if mem.init is not None else []
    cells = []
    if wide:
        w, track = mem.width, None
        flat = Signal(w*mem.depth, reset=sum(x << (w*i) for i, x in enumerate(init)), name_override=mem.name_override)

        def at(adr):
            if 1 << len(adr) > mem.depth:
                adr = Mux(adr < mem.depth, adr, mem.depth - 1)
            return _Part(flat, adr*w, w)
        rd = at
    elif track is None:
        storage = Array()
        for i in range(mem.depth):
            storage.append(Signal(mem.width, reset=init[i] if i < len(init) else 0,
                                  name_override="%s_%d" % (mem.name_override, i)))
        rd = lambda adr: storage[adr]
        info["storage"][mem] = storage
    else:
        adrs, havocs = track
        for i, (a, first) in enumerate(adrs):
            n = "%s_word%d" % (mem.name_override, i)
            now, written = Signal(mem.width, name_override=n), Signal(name_override=n + "_written")
            cells.append((a, now, written, Mux(written, now, first)))

        def rd(adr):
            r = Signal(mem.width, name_override="%s_elsewhere" % mem.name_override)
            havocs.append(r)
            for a, _, _, v in reversed(cells):
                r = Mux(adr == a, v, r)
            return r
    for port in mem.ports:
        sync = f.sync.setdefault(port.clock.cd, [])
        if port.async_read:
            f.comb.append(port.dat_r.eq(rd(port.adr)))
        else:
            if port.mode == WRITE_FIRST:
                adr_reg = Signal.like(port.adr, name_override="%s_adr" % mem.name_override)
                st = adr_reg.eq(port.adr)
                f.comb.append(port.dat_r.eq(rd(adr_reg)))
            elif port.mode == NO_CHANGE and port.we is not None:
                st = If(~port.we, port.dat_r.eq(rd(port.adr)))
            else:
                st = port.dat_r.eq(rd(port.adr))
            sync.append(st if port.re is None else If(port.re, st))
        if port.we is not None:
            if track is not None:
                if port.we_granularity:
                    raise Unsupported("byte enables of a tracked memory")
                for a, now, written, _ in cells:
                    sync.append(If((port.adr == a) & port.we, now.eq(port.dat_w), written.eq(1)))
            else:
                wr = (lambda m, M: at(port.adr)) if wide else (lambda m, M: storage[port.adr][m:M])
                if port.we_granularity:
                    if wide:
                        raise Unsupported("byte enables of a wide memory")
                    for i in range(mem.width//port.we_granularity):
                        m, M = i*port.we_granularity, (i+1)*port.we_granularity
                        sync.append(If(port.we[i], wr(m, M).eq(port.dat_w[m:M])))
                else:
                    sync.append(If(port.we, wr(0, mem.width).eq(port.dat_w)))


# ---------------------------------------------------------------- projection

def _targets(lhs):
    """Signals an lvalue may assign."""
    if isinstance(lhs, Signal):
        return {lhs}
    if isinstance(lhs, Cat):
        r = set()
        for e in lhs.l:
            r |= _targets(e)
        return r
    if isinstance(lhs, (_Slice, _Part)):
        return _targets(lhs.value)
    if isinstance(lhs, _ArrayProxy):
        r = set()
        for e in lhs.choices:
            r |= _targets(e)
        return r
    raise Unsupported("lvalue %r" % lhs)


def flat(stmts):
    return list(flat_iteration(stmts)) if not isinstance(stmts, (_Assign, If, Case)) else [stmts]


def project_all(stmts):
    """statement list -> {signal: statement list restricted to assignments of it}, in order."""
    out = collections.OrderedDict()

    def add(d, s, item):
        d.setdefault(s, []).append(item)

    for st in flat(stmts):
        if isinstance(st, _Assign):
            for t in sorted(_targets(st.l), key=lambda x: x.duid):
                add(out, t, st)
        elif isinstance(st, If):
            pt, pf = project_all(st.t), project_all(st.f)
            for t in sorted(set(pt) | set(pf), key=lambda x: x.duid):
                add(out, t, ("if", st.cond, pt.get(t, []), pf.get(t, [])))
        elif isinstance(st, Case):
            parts = {}
            keys = []
            for k, v in st.cases.items():
                keys.append(k)
                parts[k] = project_all(v)
            ts = set()
            for p in parts.values():
                ts |= set(p)
            for t in sorted(ts, key=lambda x: x.duid):
                add(out, t, ("case", st.test, [(k, parts[k].get(t, [])) for k in keys]))
        elif type(st).__name__ in ("Display", "Finish"):
            pass
        else:
            raise Unsupported("statement %r" % (st,))
    return out


def expr_signals(node, acc, cds):
    if isinstance(node, Signal):
        acc.add(node)
    elif isinstance(node, Constant):
        pass
    elif isinstance(node, _Operator):
        for o in node.operands:
            expr_signals(o, acc, cds)
    elif isinstance(node, _Slice):
        expr_signals(node.value, acc, cds)
    elif isinstance(node, _Part):
        expr_signals(node.value, acc, cds)
        expr_signals(node.offset, acc, cds)
    elif isinstance(node, Cat):
        for o in node.l:
            expr_signals(o, acc, cds)
    elif isinstance(node, Replicate):
        expr_signals(node.v, acc, cds)
    elif isinstance(node, _ArrayProxy):
        expr_signals(node.key, acc, cds)
        for o in node.choices:
            expr_signals(o, acc, cds)
    elif isinstance(node, ClockSignal):
        acc.add(cds[node.cd].clk)
    elif isinstance(node, ResetSignal):
        r = cds[node.cd].rst
        if r is not None:
            acc.add(r)
        elif not node.allow_reset_less:
            raise Unsupported("reset of reset-less domain " + node.cd)
    else:
        raise Unsupported("expr %r" % node)


def lhs_reads(lhs, acc, cds):
    if isinstance(lhs, Cat):
        for e in lhs.l:
            lhs_reads(e, acc, cds)
    elif isinstance(lhs, _Slice):
        lhs_reads(lhs.value, acc, cds)
    elif isinstance(lhs, _Part):
        lhs_reads(lhs.value, acc, cds)
        expr_signals(lhs.offset, acc, cds)
    elif isinstance(lhs, _ArrayProxy):
        expr_signals(lhs.key, acc, cds)
        for e in lhs.choices:
            lhs_reads(e, acc, cds)


def stmts_reads(pst, cds, acc=None):
    acc = set() if acc is None else acc
    for st in pst:
        if isinstance(st, tuple):
            if st[0] == "if":
                expr_signals(st[1], acc, cds)
                stmts_reads(st[2], cds, acc)
                stmts_reads(st[3], cds, acc)
            else:
                expr_signals(st[1], acc, cds)
                for k, v in st[2]:
                    stmts_reads(v, cds, acc)
        else:
            expr_signals(st.r, acc, cds)
            lhs_reads(st.l, acc, cds)
    return acc


def nice_name(s):
    n = getattr(s, "name_override", None)
    if n:
        return n
    try:
        return "_".join(str(b[0]) for b in s.backtrace[-3:] if b[0])
    except Exception:
        return "sig"


def _instance_outputs(i):
    """signals a black box may drive"""
    r = set()
    for x in i.items:
        if isinstance(x, (Instance.Output, Instance.InOut)) and x.expr is not None:
            e = x.expr
            acc = set()
            if isinstance(e, _Value):
                for t in ([e] if isinstance(e, Signal) else []):
                    acc.add(t)
                if not isinstance(e, Signal):
                    expr_signals(e, acc, {})
            r |= acc
    return r


class Design:
    def __init__(self, module, roots, track=None, extra_domains=(), rigid=(), opened=None, wide=False):
        """roots: signals whose cone of influence is kept (asserts, assumptions, terms...).
        track: {Memory: [(address, initial value)]}; rigid: arbitrary constants."""
        f = module.frag if getattr(module, 'frag', None) is not None else module.get_fragment()
        self.abstractions = []
        self.instances = [s for s in f.specials if isinstance(s, Instance)]
        tris = [s.target for s in f.specials if isinstance(s, Tristate) and isinstance(s.target, Signal)]
        if self.instances:
            self.abstractions.append("black boxes: " + ", ".join(sorted(set(i.of for i in self.instances))))
        # memories
        self.storage = {}
        self.havoc = []
        track = track or {}
        mems = sorted([s for s in f.specials if isinstance(s, Memory)], key=lambda x: x.duid)
        for m in mems:
            if m in track:
                if wide:
                    expand_memory(f, m, wide=True)
                else:
                    expand_memory(f, m, track=(track[m], self.havoc))
                    self.abstractions.append("memory %s[%d]: %d arbitrary words tracked from arbitrary initial values, reads of others arbitrary" % (m.name_override, m.depth, len(track[m])))
            else:
                expand_memory(f, m, info={"storage": self.storage})
        ports = set(p for m in mems for p in m.ports)
        f.specials -= set(mems)
        f.specials -= ports
        f, lowered = lower_specials(OVERRIDES, f)
        if f.specials:
            raise Unsupported("specials left: %r" % f.specials)
        # clock domains
        for name in sorted(list_clock_domains(f) | set(extra_domains)):
            try:
                f.clock_domains[name]
            except KeyError:
                f.clock_domains.append(ClockDomain(name=name, reset_less=True))
        self.cds = {cd.name: cd for cd in f.clock_domains}
        insert_resets(f)
        comb = project_all(f.comb)
        # a domain clocked by the clock of another one is that domain
        clks = {cd.clk: cd.name for cd in f.clock_domains}
        self.alias = {}
        for cd in f.clock_domains:
            st = comb.get(cd.clk)
            if st and len(st) == 1 and isinstance(st[0], _Assign) and st[0].l is cd.clk:
                e = st[0].r
                o = e.cd if isinstance(e, ClockSignal) else clks.get(e) if isinstance(e, Signal) else None
                if o is not None and o != cd.name:
                    self.alias[cd.name] = o

        def domain(n):
            while n in self.alias:
                n = self.alias[n]
            return n
        sync = {}
        for cd in sorted(f.sync):
            for s, st in project_all(f.sync[cd]).items():
                if s in sync or s in comb:
                    raise Unsupported("driven twice: %r" % s)
                sync[s] = (domain(cd), st)
        self.alias = {n: domain(n) for n in self.alias}
        # cone of influence
        keep, order, state = set(), [], {}
        stack_guard = set()
        work = list(roots)
        deps_c, deps_s = {}, {}
        while work:
            s = work.pop()
            if s in keep:
                continue
            keep.add(s)
            if s in comb:
                deps_c[s] = stmts_reads(comb[s], self.cds)
                work.extend(deps_c[s])
            elif s in sync:
                deps_s[s] = stmts_reads(sync[s][1], self.cds)
                work.extend(deps_s[s])
        # drop reads of self through slices in comb (base value is reset)
        self.comb = {s: comb[s] for s in keep if s in comb}
        self.sync = {s: sync[s] for s in keep if s in sync}
        self.rigid = [r for r in rigid if r in keep]
        self.inputs = sorted([s for s in keep if s not in comb and s not in sync and s not in set(rigid)],
                             key=lambda x: x.duid)
        if opened is not None:
            clocks = set(cd.clk for cd in self.cds.values()) | set(cd.rst for cd in self.cds.values() if cd.rst is not None)
            opened = set(opened) | set(tris) | clocks | set(self.havoc) | set(x for i in self.instances for x in _instance_outputs(i))
            for s in self.inputs:
                if s not in opened:
                    self.comb[s] = []
                    deps_c[s] = set()
            self.inputs = [s for s in self.inputs if s in opened]
        self.regs = sorted(self.sync, key=lambda x: x.duid)
        self.domains = sorted(set(cd for cd, _ in self.sync.values()) | set(extra_domains))
        # topological order of comb
        order, mark = [], {}
        import sys
        sys.setrecursionlimit(100000)

        def visit(s, path):
            m = mark.get(s)
            if m == 2:
                return
            if m == 1:
                raise CombLoop("combinational loop through %s" % nice_name(s))
            mark[s] = 1
            for d in sorted(deps_c[s], key=lambda x: x.duid):
                if d in self.comb:
                    visit(d, path)
            mark[s] = 2
            order.append(s)
        for s in sorted(self.comb, key=lambda x: x.duid):
            visit(s, ())
        self.comb_order = order
        self._cones = {}
        self.names = {}
        used = collections.Counter()
        for s in sorted(keep, key=lambda x: x.duid):
            n = nice_name(s)
            used[n] += 1
            self.names[s] = n if used[n] == 1 else "%s$%d" % (n, used[n])

    def cone(self, s):
        """every signal `s` depends on, over any number of cycles"""
        if s not in self._cones:
            seen, work = set(), [s]
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x in self.comb:
                    work.extend(stmts_reads(self.comb[x], self.cds))
                elif x in self.sync:
                    work.extend(stmts_reads(self.sync[x][1], self.cds))
            self._cones[s] = seen
        return self._cones[s]

    def predicates(self, limit):
        """conditions tested by the code (on registers only), as extra combinational signals"""
        found, out = {}, []

        def comb_inputs(e):
            acc, seen = set(), set()
            expr_signals(e, acc, self.cds)
            work = list(acc)
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x in self.comb:
                    work.extend(stmts_reads(self.comb[x], self.cds))
            return [x for x in seen if x not in self.comb]

        def offer(e):
            from migen.fhdl.bitcontainer import value_bits_sign
            leaves = comb_inputs(e)
            if leaves and all(x in self.sync for x in leaves) and len(value_bits_sign(e)) == 2:
                if isinstance(e, Signal) and e.nbits == 1:
                    if e in self.comb:
                        found.setdefault(e.duid, e)
                elif len(leaves) <= 6:
                    found.setdefault(text(e), e)

        def text(e):
            if isinstance(e, Signal):
                return "s%d" % e.duid
            if isinstance(e, Constant):
                return str(e.value)
            if isinstance(e, _Operator):
                return "(%s %s)" % (e.op, " ".join(text(o) for o in e.operands))
            return "x%d" % id(e)

        def walk(pst):
            for st in pst:
                if isinstance(st, tuple):
                    if st[0] == "if":
                        offer(st[1])
                        walk(st[2]), walk(st[3])
                    else:
                        for k, v in st[2]:
                            if not isinstance(k, str):
                                offer(st[1] == k)
                            walk(v)
        for r in self.regs:
            walk(self.sync[r][1])
        for s in self.comb_order:
            walk(self.comb[s])
        for e in list(found.values())[:limit]:
            if isinstance(e, Signal):
                out.append(e)
                continue
            s = Signal(name_override="pred%d" % len(out))
            self.comb[s] = [s.eq(e != 0)]
            self.comb_order.append(s)
            self.names[s] = s.name_override
            out.append(s)
        return out

    def name(self, s):
        return self.names.get(s, nice_name(s))
