"""C22: what the output driver puts on HDMI and VGA pads."""
from .common import *
from litevideo.output.driver import Driver
from litevideo.output.hdmi.encoder import Encoder
from migen.genlib.record import Record
from migen.fhdl.structure import _Slice


def hdmi_pads(inverted=(), single_ended_clock=False):
    names = ("clk", "data0", "data1", "data2")
    layout = [(n + p, 1) for n in names[single_ended_clock:] for p in ("_p", "_n")]
    if single_ended_clock:
        layout.append(("clk", 1))
    pads = Record(layout)
    for n in inverted:
        getattr(pads, n + "_p").inverted = True
    return pads


class Hdmi(Contract):
    learn_implications = False
    k = 2

    def __init__(self, device, mode, inverted=(), single_ended_clock=False, external=False):
        Contract.__init__(self)
        self.functions = ["Driver(%s, %s)" % (device, mode), "S%sHDMIOutPHY" % device[2], "HDMIOutEncoderSerializer", "HDMIOutClocking (clock pads)"]
        pads = hdmi_pads(inverted, single_ended_clock)
        self.external = None
        if external:
            self.external = type("External", (), {n: Signal(name_override=n) for n in ("pll0_pix10x", "pll1_pix2x", "pll2_pix", "pll_locked")})
        x = self.submodules.dut = Driver(device, pads, mode, self.external)
        s = x.sink
        self.interface(x)
        self.port_widths(s, **({"r": 8, "g": 8, "b": 8} if mode != "raw" else {"c0": 10, "c1": 10, "c2": 10}))
        self._open(s, 0)
        net = Netlist(x)
        self.ensure("always_ready", s.ready)
        # the symbols to send: the encoder itself is under contract in C08
        if mode == "raw":
            words = [s.c0, s.c1, pin(self, s.c2[:10], 10)]
        else:
            words = []
            for d, c in ((s.b, Cat(s.hsync, s.vsync)), (s.g, 0), (s.r, 0)):
                e = ClockDomainsRenamer("pix")(Encoder())
                self.submodules += e
                self.comb += [e.d.eq(d), e.c.eq(c), e.de.eq(s.de)]
                words.append(e.out)
        channels = [("data%d" % i, w) for i, w in enumerate(words)]
        if device[:3] == "xc7":
            if not single_ended_clock:
                channels.append(("clk", Constant(0b0000011111, 10)))
            running = Signal(name_override="running")
            tick(self, "pix", running.eq(ResetSignal("pix") == 0))
            for n, w in channels:
                self.serializer7(net, pads, n, pin(self, w ^ 0x3ff, 10) if n in inverted else w, running)
            self.clocks7(net, x)
            if single_ended_clock:
                self.ensure("clk", pads.clk == ClockSignal("pix"))
        else:
            sent = [(n, pin(self, w ^ 0x3ff, 10) if n in inverted else w) for n, w in channels]
            self.age = Signal(name_override="one_tick")
            tick(self, "pix2x", self.age.eq(1))
            for n, w in sent:
                self.serializer6(net, pads, n, w, x)
            self.clocks6(net, pads, "clk" in inverted, single_ended_clock, x)
        self.cover("pixel", s.de if mode != "raw" else s.c0 != 0)

    def serializer7(self, net, pads, n, word, running):
        g = net.get
        buf = net.driver(getattr(pads, n + "_p"), "O")
        self.ensure(n + "_pair", fact(buf.of == "OBUFDS" and same(g(buf, "OB"), getattr(pads, n + "_n"))))
        m = net.driver(g(buf, "I"), "OQ")
        sl = net.driver(g(m, "SHIFTIN1"), "SHIFTOUT1") if not isinstance(g(m, "SHIFTIN1"), _Slice) else None
        if sl is None:
            sl = [i for i in net.instances if i.of == m.of and same(g(i, "SHIFTOUT1"), g(m, "SHIFTIN1"))]
            sl = some(sl, "slave serializer of " + n)
        ok = same(g(sl, "SHIFTOUT2"), g(m, "SHIFTIN2")) and m.of == sl.of == "OSERDESE2" and \
            net.param(m, "SERDES_MODE") == "MASTER" and net.param(sl, "SERDES_MODE") == "SLAVE" and \
            all(net.param(i, "DATA_WIDTH") == 10 and net.param(i, "DATA_RATE_OQ") == "DDR" and
                is_clock(g(i, "CLK"), "pix5x") and is_clock(g(i, "CLKDIV"), "pix") for i in (m, sl))
        self.ensure(n + "_serializer", fact(ok))
        bits = [g(m, "D%d" % (i + 1)) for i in range(8)] + [g(sl, "D3"), g(sl, "D4")]
        self.ensure(n + "_bits_lsb_first", And(*[b == word[i] for i, b in enumerate(bits)]))
        for i, nm in ((m, "master"), (sl, "slave")):
            self.ensure("%s_%s_enabled" % (n, nm), And(Imp(running, g(i, "OCE") == 1), Imp(ResetSignal("pix") == 0, g(i, "RST") == 0)))

    def clocks7(self, net, x):
        cd, cd5 = x.clocking.cd_pix, x.clocking.cd_pix5x
        g = net.get
        b, b5 = net.driver(cd.clk), net.driver(cd5.clk)
        m, m5 = net.driver(g(b, "I")), net.driver(g(b5, "I"))
        div = lambda inst, sig: some([net.param(inst, "CLKOUT%d_DIVIDE" % i) or net.param(inst, "CLKOUT%d_DIVIDE_F" % i) for i in range(7) if same(g(inst, "CLKOUT%d" % i), sig)], "divider")
        self.ensure("five_times_clock", fact(m is m5 and b.of == b5.of == "BUFG" and div(m, g(b, "I")) == 5*div(m, g(b5, "I"))))
        locked = g(m, "LOCKED")
        self.ensure("reset_until_locked", cd.rst == (locked == 0))

    def serializer6(self, net, pads, n, word, x):
        g = net.get
        buf = net.driver(getattr(pads, n + "_p"), "O")
        self.ensure(n + "_pair", fact(buf.of == "OBUFDS" and same(g(buf, "OB"), getattr(pads, n + "_n"))))
        m = net.driver(g(buf, "I"), "OQ")
        sl = some([i for i in net.instances if i.of == m.of and i is not m and same(g(i, "SHIFTOUT3"), g(m, "SHIFTIN3"))], "slave serializer of " + n)
        ok = m.of == sl.of == "OSERDES2" and same(g(sl, "SHIFTOUT4"), g(m, "SHIFTIN4")) and \
            same(g(m, "SHIFTOUT1"), g(sl, "SHIFTIN1")) and same(g(m, "SHIFTOUT2"), g(sl, "SHIFTIN2")) and \
            net.param(m, "SERDES_MODE") == "MASTER" and net.param(sl, "SERDES_MODE") == "SLAVE" and \
            all(net.param(i, "DATA_WIDTH") == 5 and net.param(i, "DATA_RATE_OQ") == "SDR" and
                is_clock(g(i, "CLK0"), "pix10x") and is_clock(g(i, "CLKDIV"), "pix2x") for i in (m, sl))
        self.ensure(n + "_serializer", fact(ok))
        self.ensure(n + "_strobe", And(g(m, "IOCE") == x.clocking.serdesstrobe, g(sl, "IOCE") == x.clocking.serdesstrobe))
        for i, nm in ((m, "master"), (sl, "slave")):
            self.ensure("%s_%s_enabled" % (n, nm), tied(self, i, OCE=1, RST=0, TCE=1, TRAIN=0, T1=0, T2=0, T3=0, T4=0))
        half = Signal(5, name_override="half")
        tick(self, "pix2x", half.eq(Mux(ClockSignal("pix"), word[:5], word[5:])))
        bits = [g(sl, "D%d" % (i + 1)) for i in range(4)] + [g(m, "D1")]
        self.ensure(n + "_bits_lsb_first", Imp(self.age, *[b == half[i] for i, b in enumerate(bits)]))

    def clocks6(self, net, pads, inverted, single_ended, x):
        g, c = net.get, x.clocking
        if self.external is not None:
            e = self.external
            bufs = [net.driver(cd.clk) for cd in (c.cd_pix, c.cd_pix2x)]
            iob = net.driver(c.cd_pix10x.clk, "IOCLK")
            self.ensure("clocks_of_the_other_output", fact(same(g(bufs[0], "I"), e.pll2_pix) and same(g(bufs[1], "I"), e.pll1_pix2x) and same(g(iob, "PLLIN"), e.pll0_pix10x)
                        and same(g(iob, "LOCKED"), e.pll_locked) and net.param(iob, "DIVIDE") == 5 and is_clock(g(iob, "GCLK"), "pix2x", c.cd_pix2x)
                        and net.driver(c.serdesstrobe, "SERDESSTROBE") is iob))
            return self.clock_pad6(net, pads, inverted, single_ended)
        bufs = [net.driver(cd.clk) for cd in (c.cd_pix, c.cd_pix2x)]
        iob = net.driver(c.cd_pix10x.clk, "IOCLK")
        plls = [net.driver(g(b, "I")) for b in bufs] + [net.driver(g(iob, "PLLIN"))]
        div = lambda inst, sig: some([net.param(inst, "CLKOUT%d_DIVIDE" % i) for i in range(6) if same(g(inst, "CLKOUT%d" % i), sig)], "divider")
        d = [div(plls[0], s) for s in (g(bufs[0], "I"), g(bufs[1], "I"), g(iob, "PLLIN"))]
        self.ensure("two_and_ten_times_clocks", fact(plls[0] is plls[1] and plls[1] is plls[2] and d[0] == 2*d[1] and d[0] == 10*d[2]
                    and net.param(iob, "DIVIDE") == 5 and is_clock(g(iob, "GCLK"), "pix2x", c.cd_pix2x)
                    and net.driver(c.serdesstrobe, "SERDESSTROBE") is iob and net.param(plls[0], "CLKFBOUT_MULT") == d[0]))
        self.clock_pad6(net, pads, inverted, single_ended)

    def clock_pad6(self, net, pads, inverted, single_ended):
        g = net.get
        if single_ended:
            q = one([i for i in net.instances if i.of == "ODDR2"], "clock output register")
            self.ensure("clk", pads.clk == g(q, "Q"))
        else:
            buf = net.driver(pads.clk_p, "O")
            self.ensure("clk_pair", fact(buf.of == "OBUFDS" and same(g(buf, "OB"), pads.clk_n)))
            q = net.driver(g(buf, "I"), "Q")
        self.ensure("clk_high_first", And(fact(q.of == "ODDR2"), g(q, "D0") == (not inverted), g(q, "D1") == inverted, g(q, "CE") == 1, tied(self, q, R=0, S=0),
                                          pin(self, g(q, "C0"), 1) == ClockSignal("pix"), pin(self, g(q, "C1"), 1) == Not(ClockSignal("pix"))))


class Vga(Contract):
    def __init__(self, device, mode, widths=(8, 8, 8)):
        Contract.__init__(self)
        self.functions = ["Driver(%s, VGA pads)" % device, "VGAPHY"]
        pads = Record([("clk", 1), ("hsync_n", 1), ("vsync_n", 1), ("psave_n", 1)] + list(zip("rgb", widths)))
        x = self.submodules.dut = Driver(device, pads, mode)
        s = x.sink
        self.interface(x)
        self.port_widths(s, **({"r": 8, "g": 8, "b": 8} if mode != "raw" else {"c0": 10, "c1": 10, "c2": 10}))
        self._open(s, 0)
        self.ensure("always_ready", s.ready)
        self.ensure("syncs", And(pads.hsync_n == Not(s.hsync), pads.vsync_n == Not(s.vsync), pads.psave_n == 1))
        for c, w in zip("rgb", widths):
            p = getattr(pads, c)
            self.ensure(c + "_top_bits", Imp(s.de, p == getattr(s, c)[8 - w:]))
            self.ensure(c + "_blanked", Imp(Not(s.de), p == 0))
        self.cover("pixel", s.de)


def obligations(tier):
    for d in ("xc7a", "xc6slx"):
        for m in ("rgb", "raw"):
            yield "%s %s" % (d, m), lambda d=d, m=m: Hdmi(d, m)
        yield d + " inverted", lambda d=d: Hdmi(d, "rgb", ("data0", "data2", "clk"))
        yield d + " 4:2:2, inverted data1", lambda d=d: Hdmi(d, "ycbcr422", ("data1",))
        yield d + " single-ended clock", lambda d=d: Hdmi(d, "rgb", (), True)
        yield d + " VGA", lambda d=d: Vga(d, "rgb")
        yield d + " VGA 565", lambda d=d: Vga(d, "ycbcr422", (5, 6, 5))
    yield "xc6slx clocked by another output", lambda: Hdmi("xc6slx", "raw", (), False, True)
