from migen import *
from migen.fhdl.bitcontainer import value_bits_sign
from migen.fhdl.structure import _Assign, _Slice
from ..contract import *


def delay(mod, sig, n, ce=None, cd="sys", width=None):
    """ghost shift register; returns [sig, 1 tick ago, ..., n ticks ago]"""
    out = [sig]
    for i in range(n):
        r = Signal(value_bits_sign(out[-1]) if width is None else width, name_override="gd")
        st = r.eq(out[-1])
        tick(mod, cd, st if ce is None else If(ce, st))
        out.append(r)
    return out


def tick(mod, cd, *stmts):
    d = getattr(mod.sync, cd)
    d += list(stmts)


def pin(mod, e, bits_sign=None, name="ghost"):
    s = Signal(bits_sign if bits_sign is not None else value_bits_sign(e), name_override=name)
    mod.comb += s.eq(e)
    return s


def sat(e, lo, hi, name="sat"):
    """exact clamp (independent of the code's own saturate())"""
    return Mux(e > hi, hi, Mux(e < lo, lo, e))


class Netlist:
    """the vendor primitives of a design, found by what they drive; a signal that only carries
    another one (x.eq(y), unconditionally) stands for it"""
    alias = {}

    def __init__(self, module):
        module.finalize()
        f = module._fragment
        self.instances = [s for s in f.specials if isinstance(s, Instance)]
        Netlist.alias, twice = {}, set()
        for st in flat(f.comb):
            if isinstance(st, _Assign) and isinstance(st.l, Signal):
                if st.l in Netlist.alias:
                    twice.add(st.l)
                if isinstance(st.r, ClockSignal) or isinstance(st.r, Signal) and len(st.r) == len(st.l):
                    Netlist.alias[st.l] = st.r
        for s in twice:
            del Netlist.alias[s]

    @staticmethod
    def root(e):
        n = 0
        while isinstance(e, Signal) and e in Netlist.alias and n < 20:
            e, n = Netlist.alias[e], n + 1
        return e

    def driver(self, sig, port=None):
        """the one primitive whose output (named `port`) is `sig`"""
        r = [i for i in self.instances for x in i.items
             if isinstance(x, (Instance.Output, Instance.InOut)) and same(x.expr, sig) and port in (None, x.name)]
        if len(r) != 1:
            raise Wiring("%d primitives drive %r.%s" % (len(r), sig, port))
        return r[0]

    @staticmethod
    def get(inst, port, default=None):
        for x in inst.items:
            if isinstance(x, (Instance.Input, Instance.Output, Instance.InOut)) and x.name == port:
                return Netlist.root(x.expr)
        return default

    @staticmethod
    def param(inst, name):
        for x in inst.items:
            if isinstance(x, Instance.Parameter) and x.name == name:
                v = x.value
                return getattr(v, "value", v)


def flat(sts):
    for st in sts:
        if isinstance(st, (list, tuple)):
            yield from flat(st)
        else:
            yield st


def same(a, b):
    """the same wire"""
    if isinstance(a, _Slice) and isinstance(b, _Slice):
        return same(a.value, b.value) and a.start == b.start and a.stop == b.stop
    a, b = Netlist.root(a), Netlist.root(b)
    return a is not None and (a is b or isinstance(a, ClockSignal) and isinstance(b, ClockSignal) and a.cd == b.cd)


def one(things, what):
    things = list(things)
    if len(things) != 1:
        raise Wiring("%d candidates: %s" % (len(things), what))
    return things[0]


def some(things, what):
    things = list(things)
    if not things:
        raise Wiring("no %s" % what)
    return things[0]


def tied(mod, inst, **values):
    """1-bit inputs of a primitive hold these values"""
    return And(*[pin(mod, Constant(v) if v is None else v, 1) == w if v is not None else Constant(0)
                 for v, w in [(Netlist.get(inst, n), w) for n, w in values.items()]])


def is_clock(e, domain, cd=None):
    """`e` is the clock of a domain"""
    e = Netlist.root(e)
    return (isinstance(e, ClockSignal) and e.cd == domain) or (cd is not None and same(e, cd.clk))


def fact(c):
    return Constant(int(bool(c)))
