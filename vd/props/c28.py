"""C28: data capture (bit order, phase error accumulation, delay commands)."""
from contextlib import contextmanager
from .common import *
from .c22 import hdmi_pads
from migen.fhdl.structure import _Operator
import migen.genlib.cdc as cdc
import litevideo.input.datacapture as datacapture
from litevideo.input.datacapture import S6DataCapture, S7DataCapture


class Capture(Contract):
    learn_implications = False
    sim_cycles = 350
    sim_traces = 40
    cd = None      # clock domain of the serial side

    def sent(self, name, sent):
        """toggle on the system side -> (toggle, what has arrived, edge of arrival)"""
        s = Signal(name_override=name + "_sent")
        self.sync += If(sent, s.eq(~s))
        c = delay(self, s, 3, cd=self.cd)
        for x in c:
            self.term(x)
        return s, pin(self, c[2] ^ c[3], 1, name + "_arrives")

    def command(self, name, sent, strobe):
        """`strobe` (serial side) is high for one cycle for each cycle of `sent` (system side),
        before the third serial clock edge; the next one is not sent earlier.  Returns: under way"""
        s, _ = self.sent(name, sent)
        r = Signal(name_override=name + "_done")
        tick(self, self.cd, If(strobe, r.eq(~r)))
        way = pin(self, s ^ r, 1, name + "_under_way")
        age = Signal(2, name_override=name + "_age")
        tick(self, self.cd, If(And(way, Not(strobe)), age.eq(age + 1)).Else(age.eq(0)))
        self.require(name + "_not_sent_again_before_done", Imp(way, Not(sent)))
        self.ensure(name + "_once_per_command", Imp(strobe, way))
        self.ensure(name + "_before_3_edges", Imp(way, age < 3))
        self.term(r)
        for i in range(3):
            self.guard(And(way, age == i))
        self.guard(Not(way))
        self.cover(name, strobe)
        return way

    def phases(self, x, ntbits, up, down, idle):
        """lateness: saturating error accumulator, reported after two cycles of synchronization;
        the reset command acts on the third serial clock edge"""
        sent = pin(self, x._phase_reset.re, 1)
        s, arrives = self.sent("phase_reset", sent)
        mid, top = 2**(ntbits - 1), 2**ntbits - 1
        acc = Signal(ntbits, reset=mid, name_override="lateness_spec")
        tick(self, self.cd, If(arrives, acc.eq(mid)).Elif(And(idle, acc != 0, acc != top), If(up, acc.eq(acc + 1)).Elif(down, acc.eq(acc - 1))))
        self.term(acc)
        self.ensure("phase_status", x._phase.status == delay(self, pin(self, Cat(acc == top, acc == 0), 2), 2)[2])
        if ntbits < 4:
            self.cover("too_early", acc == 0), self.cover("too_late", acc == top)

    def bits(self, reg):
        return lambda i: pin(self, And(reg.re, reg.r[i]), 1)


class S6(Capture):
    cd = "pix2x"

    def __init__(self, inverted, ntbits):
        Contract.__init__(self)
        self.functions = ["S6DataCapture"]
        pads = hdmi_pads()
        if inverted:
            pads.data0_p.inverted = True
        x = self.submodules.dut = S6DataCapture(pads.data0_p, pads.data0_n, ntbits)
        self.interface(x)
        net = Netlist(x)
        g = net.get
        ib = one([i for i in net.instances if i.of == "IBUFDS"], "IBUFDS")
        io = {net.param(i, "SERDES_MODE"): i for i in net.instances if i.of == "IODELAY2"}
        sd = {net.param(i, "SERDES_MODE"): i for i in net.instances if i.of == "ISERDES2"}
        if set(sd) != {"MASTER", "SLAVE"} or set(io) != set(sd):
            raise Wiring("master and slave of each kind")
        m, s = sd["MASTER"], sd["SLAVE"]
        self.ensure("pads", fact(same(g(ib, "I"), pads.data0_p) and same(g(ib, "IB"), pads.data0_n)
                                 and all(same(g(d, "IDATAIN"), g(ib, "O")) and same(g(sd[k], "D"), g(d, "DATAOUT")) for k, d in io.items())
                                 and same(g(m, "SHIFTIN"), g(s, "SHIFTOUT")) and same(g(s, "SHIFTIN"), g(m, "SHIFTOUT"))))
        self.ensure("clocks", fact(all(is_clock(g(i, a), "pix10x") and is_clock(g(i, b), "pix2x") for l, a, b in ((sd, "CLK0", "CLKDIV"), (io, "IOCLK0", "CLK")) for i in l.values())
                                   and all(same(g(i, "IOCE"), x.serdesstrobe) and net.param(i, "DATA_WIDTH") == 5 for i in sd.values())))
        self.ensure("primitives_enabled", And(*[tied(self, i, CE0=1, BITSLIP=0, RST=0) for i in sd.values()], *[tied(self, i, T=1) for i in io.values()]))
        P = lambda i, **kw: all(net.param(i, n) == v for n, v in kw.items())
        self.ensure("primitives_configured", fact(
            all(P(i, DATA_RATE="SDR", INTERFACE_TYPE="RETIMED", BITSLIP_ENABLE="FALSE") for i in sd.values()) and
            all(P(i, DATA_RATE="SDR", DELAY_SRC="IDATAIN", IDELAY_TYPE="DIFF_PHASE_DETECTOR") for i in io.values())))
        # the slave's Q4 is the oldest bit of a group, then the master's Q1..Q4 (XAPP1064)
        group = Cat(g(s, "Q4"), g(m, "Q1"), g(m, "Q2"), g(m, "Q3"), g(m, "Q4"))
        last = delay(self, pin(self, group, 5), 2, cd="pix2x")
        for t in last[1:]:
            self.term(t)
        word = self.term(Cat(last[2], last[1]), 10)
        sym, ever = Signal(10, name_override="symbol"), Signal(name_override="pix_edge_seen")
        tick(self, "pix", sym.eq((~word) if inverted else word), ever.eq(1))
        self.ensure("symbol_is_the_last_two_groups_oldest_bit_first", Imp(ever, x.d == sym))
        # delay commands
        bit = self.bits(x._dly_ctl)
        M, S = io["MASTER"], io["SLAVE"]
        pm = lambda i, n: pin(self, g(i, n), 1)
        ce, inc = pm(M, "CE"), pm(M, "INC")
        self.require("not_both_directions", Not(And(bit(4), bit(5))))
        self.ensure("slave_moves_as_the_master", And(pm(S, "CE") == ce, pm(S, "INC") == inc))
        w = {}
        for n, i, strobe in (("master_cal", 0, pm(M, "CAL")), ("master_rst", 1, pm(M, "RST")), ("slave_cal", 2, pm(S, "CAL")), ("slave_rst", 3, pm(S, "RST")),
                             ("inc", 4, pin(self, And(ce, inc), 1)), ("dec", 5, pin(self, And(ce, Not(inc)), 1))):
            w[n] = self.command(n, bit(i), strobe)
        for k, (n, b) in enumerate((("master", 0), ("slave", 2))):
            dly = (M, S)[k]
            starts = pin(self, Or(bit(b), bit(4), bit(5)), 1)
            self.busy(n, pin(self, x._dly_busy.status[k], 1), starts, pm(dly, "BUSY"), pin(self, Or(pm(dly, "CAL"), ce), 1), Or(w[n + "_cal"], w["inc"], w["dec"]))
        idle = pin(self, And(Not(pm(M, "BUSY")), Not(pm(S, "BUSY"))), 1)
        v, i = g(m, "VALID"), g(m, "INCDEC")
        self.phases(x, ntbits, And(v, Not(i)), And(v, i), idle)

        def driver(rng, t, put, get):
            # some runs drift in one direction
            if t == 0:
                self.drift = rng.choice([None, 0, 1])
            if self.drift is not None:
                put(v, rng.random() < 0.97), put(i, self.drift), put(g(M, "BUSY"), 0), put(g(S, "BUSY"), 0)
                put(x._phase_reset.re, rng.random() < 0.005)
        self.driver = driver

    def busy(self, n, flag, starts, busy, strobe, under_way):
        """the flag reads 1 from a command until the delay has been idle after it, and not much longer"""
        self.require("no_command_while_%s_busy" % n, Imp(flag, Not(starts)))
        working, fin, back = Signal(name_override=n + "_working"), Signal(name_override=n + "_finished"), Signal(name_override=n + "_reported")
        tick(self, "pix2x", back.eq(fin), If(working, If(Not(busy), working.eq(0), fin.eq(~fin))).Elif(strobe, working.eq(1)))
        under_way = pin(self, under_way, 1)
        self.ensure(n + "_busy_until_idle", Imp(Or(under_way, working), flag))
        waits = pin(self, And(flag, Not(under_way), Not(working)), 1)
        age = Signal(2, name_override=n + "_report_age")
        reported = pin(self, And(waits, back == fin), 1)
        self.sync += If(reported, age.eq(age + 1)).Else(age.eq(0))
        self.ensure(n + "_flag_falls_within_3_edges_of_the_report", Imp(age == 3, Not(flag)))
        self.term(fin), self.term(back), self.term(~back, 1)
        c = delay(self, back, 3)
        for t in c[1:]:
            self.term(t)
        self.guard(Or(under_way, working)), self.guard(Not(waits)), self.guard(waits), self.guard(And(waits, Not(reported))), self.guard(Not(flag))
        for i in range(4):
            self.guard(And(reported, age == i))
        self.cover(n + "_idle_again", And(Not(flag), fin))


def released(e):
    """a reset input that follows the domain's reset (or is not used)"""
    if isinstance(e, Constant):
        return e.value & 1 == 0
    return e.cd == "pix1p25x" if isinstance(e, ResetSignal) else not (isinstance(e, _Operator) and e.op == "~")


class LibraryPart(Module):
    made = []

    def __init__(self, *args):
        self.args, self.i = args, None
        LibraryPart.made.append(self)
        self.build(*args)


class GearboxPart(LibraryPart):
    """Migen's Gearbox: `o` carries the bits given at `i`, in order (its own clock ratio permitting)"""
    def build(self, iw, icd, ow, ocd):
        self.i, self.o = Signal(iw), Signal(ow)


class BusSynchronizerPart(LibraryPart):
    """Migen's BusSynchronizer: `o` is some recent value of `i`"""
    def build(self, w, icd, ocd, *timeout):
        self.i, self.o = Signal(w), Signal(w)


def used(name):
    """the library module the code uses under this name"""
    return getattr(datacapture, name, None) or getattr(cdc, name)


@contextmanager
def library():
    parts = {"Gearbox": GearboxPart, "BusSynchronizer": BusSynchronizerPart}
    real = [(m, n, getattr(m, n)) for m in (datacapture, cdc) for n in parts if hasattr(m, n)]
    LibraryPart.made = []
    for m, n, _ in real:
        setattr(m, n, parts[n])
    try:
        yield LibraryPart.made
    finally:
        for m, n, c in real:
            setattr(m, n, c)


class S7(Capture):
    cd = "pix1p25x"

    def __init__(self, inverted, ntbits):
        Contract.__init__(self)
        self.functions = ["S7DataCapture", "S7PhaseDetector"]
        pads = hdmi_pads()
        if inverted:
            pads.data0_p.inverted = True
        with library() as made:
            x = self.submodules.dut = S7DataCapture(pads.data0_p, pads.data0_n, ntbits)
        gear, = [p for p in made if isinstance(p, GearboxPart)]
        buses = [p for p in made if isinstance(p, BusSynchronizerPart)]
        self.interface(x)
        for p in made:
            self._open(p.o, 0)
        net = Netlist(x)
        g = net.get
        ib = one([i for i in net.instances if i.of == "IBUFDS_DIFF_OUT"], "IBUFDS_DIFF_OUT")
        dly = [one([i for i in net.instances if i.of == "IDELAYE2" and same(g(i, "IDATAIN"), g(ib, o))], "delay of " + o) for o in ("O", "OB")]
        ser = [one([i for i in net.instances if i.of == "ISERDESE2" and same(g(i, "DDLY"), g(d, "DATAOUT"))], "deserializer") for d in dly]
        self.ensure("pads", fact(same(g(ib, "I"), pads.data0_p) and same(g(ib, "IB"), pads.data0_n)))
        self.ensure("clocks", fact(all(is_clock(g(i, "CLK"), "pix5x") and is_clock(g(i, "CLKDIV"), "pix1p25x") and net.param(i, "DATA_WIDTH") == 8
                                       and net.param(i, "DATA_RATE") == "DDR" for i in ser) and all(is_clock(g(i, "C"), "pix1p25x") for i in dly)))
        self.ensure("primitives_enabled", And(*[tied(self, i, CE1=1, BITSLIP=0) for i in ser], *[fact(released(g(i, "RST"))) for i in ser],
                                              *[tied(self, i, LDPIPEEN=0) for i in dly]))
        P = lambda i, **kw: all(net.param(i, n) == v for n, v in kw.items())
        self.ensure("primitives_configured", fact(
            all(P(i, INTERFACE_TYPE="NETWORKING", SERDES_MODE="MASTER") and net.param(i, "IOBDELAY") in ("IFD", "BOTH")
                and not isinstance(g(i, "CLKB"), (ClockSignal, Constant, type(None))) for i in ser) and
            all(P(i, DELAY_SRC="IDATAIN", IDELAY_TYPE="VARIABLE", PIPE_SEL="FALSE") for i in dly)))
        # Q8 is the oldest bit (UG471)
        q = [pin(self, Cat(*[g(i, "Q%d" % n) for n in range(8, 0, -1)]), 8) for i in ser]
        master, slave = [pin(self, (~v) if bool(inverted) != (k == 1) else v, 8) for k, v in enumerate(q)]
        self.ensure("bits_to_the_gearbox_oldest_first", And(gear.i == master, fact(gear.args == (8, "pix1p25x", 10, "pix"))))
        self.ensure("symbol_from_the_gearbox", x.d == gear.o)
        for k, (n, reg) in enumerate((("master", x._cntvalueout_m), ("slave", x._cntvalueout_s))):
            v = pin(self, g(dly[k], "CNTVALUEOUT"), 5)
            self.ensure(n + "_delay_readable", Or(*[And(reg.status == b.o, b.i == v) for b in buses]) if buses else 0)
        self.ensure("delay_transfer", fact(all(b.args[:3] == (5, "pix1p25x", "sys") for b in buses)))
        # delay commands
        bit = self.bits(x._dly_ctl)
        pm = lambda i, n: pin(self, g(i, n), 1)
        self.command("rst", bit(0), pm(dly[0], "LD"))
        self.ensure("rst_of_both_delays", pm(dly[1], "LD") == pm(dly[0], "LD"))
        for k, n in enumerate(("master", "slave")):
            ce, inc = pm(dly[k], "CE"), pm(dly[k], "INC")
            up, down = bit(1 + 2*k), bit(2 + 2*k)
            self.require(n + "_not_both_directions", Not(And(up, down)))
            a = self.command(n + "_inc", up, pin(self, And(ce, inc), 1))
            b = self.command(n + "_dec", down, pin(self, And(ce, Not(inc)), 1))
            self.require(n + "_one_direction_at_a_time", And(Imp(a, Not(down)), Imp(b, Not(up))))
        # phase detector: on a transition, equal samples are early, different ones late
        change = pin(self, delay(self, master, 1, cd=self.cd)[1] != master, 1)
        self.phases(x, ntbits, And(change, master != slave), And(change, master == slave), 1)


class GearboxLib(Contract):
    """discharges the contract assumed of Migen's Gearbox: while the two clocks keep their 5:4 ratio
    (the read side never catches up with, or falls a full buffer behind the write side), word r of
    the output carries bits 10r-40..10r-31 of the bit stream given at the input"""
    slices = True
    learn_implications = False
    learn_bits = False
    sim_cycles = 300
    sim_traces = 40

    def __init__(self, back=11):
        Contract.__init__(self)
        self.functions = ["migen.genlib.cdc.Gearbox (library)"]
        self.clock_domains.cd_pix, self.clock_domains.cd_pix1p25x = ClockDomain("pix"), ClockDomain("pix1p25x")
        self.require("no_reset_while_running", And(Not(self.cd_pix.rst), Not(self.cd_pix1p25x.rst)))
        x = self.submodules.dut = used("Gearbox")(8, "pix1p25x", 10, "pix")
        self.interface(x)
        self._open(x.i, 0)
        w, r = Signal(8, reset=40, name_override="bits_written"), Signal(8, name_override="bits_read")
        wm = Signal(4, reset=5, name_override="word_slot")
        tick(self, "pix1p25x", w.eq(w + 8), wm.eq(Mux(wm == 9, 0, wm + 1)))
        tick(self, "pix", r.eq(r + 10))
        level = pin(self, (w - r)[:8], 8)
        self.require("clock_ratio", And(level >= 10, level <= 80))
        words = delay(self, x.i, 10, cd="pix1p25x")[1:]
        for t in words:
            self.term(t)
        stream = Signal(80, name_override="last_bits")          # oldest first
        self.comb += stream.eq(Cat(*reversed(words)))
        out, n = Signal(10, name_override="word"), Signal(3, name_override="words_read")
        tick(self, "pix", out.eq(stream >> (80 - level)), If(n != 7, n.eq(n + 1)))
        self.ensure("bits_in_order", Imp(n > 4, x.o == out))
        for i in range(10):
            self.guard(wm == i)
        self.term(wm), self.term(out), self.term(r), self.term(w)
        # bits the buffer starts with are nobody's: the stream starts with them
        rm = Signal(3, name_override="read_slot")
        tick(self, "pix", rm.eq(rm + 1))
        self.term(rm)
        for i in range(8):
            g = pin(self, rm == i, 1)
            for j in range(10):
                self.hint(Imp(And(g, wm == j), level == ((8*j - 10*i - 1) % 80) + 1))
        self.cover("full", level > 70), self.cover("empty", And(level <= 12, n == 7))
        self.watch = [x.i, x.o, out, level]


class BusLib(Contract):
    """discharges the contract assumed of Migen's BusSynchronizer: it only ever shows values the
    input had (here: an arbitrary value, other than the initial 0, the input never has)"""
    learn_implications = False

    def __init__(self):
        Contract.__init__(self)
        self.functions = ["migen.genlib.cdc.BusSynchronizer (library)"]
        x = self.submodules.dut = used("BusSynchronizer")(5, "pix1p25x", "sys")
        self.interface(x)
        self._open(x.i, 0)
        v = self.rigid(5)
        self.require("input_never_has_the_value", And(x.i != v, v != 0))
        self.ensure("never_shown", x.o != v)
        g = pin(self, 1, 1)
        self.ne_guards.append((self.guard(g), v))
        self.cover("transfer", x.o != 0)


def obligations(tier):
    yield "library: Gearbox", GearboxLib
    yield "library: BusSynchronizer", BusLib
    for what in (S6, S7):
        for inv in (False, True):
            for ntbits in ((8, 3) if tier == "quick" else (8, 3, 10)):
                if ntbits == 8 or not inv:
                    yield "%s%s ntbits %d" % (what.__name__, " inverted" if inv else "", ntbits), lambda what=what, inv=inv, nt=ntbits: what(inv, nt)
