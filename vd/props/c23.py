"""C23: clock generator control (DRP accesses, lock and resets, Spartan 6 pixel clock programming)."""
from .common import *
from .c22 import hdmi_pads
from litevideo.input.clocking import S6Clocking, S7Clocking
from litevideo.output.hdmi.s6 import S6HDMIOutClocking
from litevideo.output.hdmi.s7 import S7HDMIOutClocking


class Base(Contract):
    learn_implications = False

    def drp(self, inst, tag, read, write, adr, dat_w, dat_r, drdy, tag_is_clocked_by_sys=True):
        """one access per strobe; ready from the primitive's answer to the last access until the next one"""
        g = Netlist.get
        self.ensure(tag + "_access", And(pin(self, g(inst, "DEN"), 1) == Or(read.re, write.re), pin(self, g(inst, "DWE"), 1) == write.re,
                                         g(inst, "DADDR") == adr.storage, g(inst, "DI") == dat_w.storage, fact(is_clock(g(inst, "DCLK"), "sys"))))
        self.ensure(tag + "_answer", dat_r.status == g(inst, "DO"))
        done = Signal(name_override=tag + "_done")
        self.sync += If(Or(read.re, write.re), done.eq(0)).Elif(g(inst, "DRDY"), done.eq(1))
        self.ensure(tag + "_ready", drdy.status == done)
        self.cover(tag + "_done", done)
        self.ensure(tag + "_width", fact(min(len(dat_r.status), len(dat_w.storage)) >= 16 and len(adr.storage) >= (5 if inst.of == "PLL_ADV" else 7)))

    def loop(self, net, m):
        """the feedback loop is closed, at most through a clock buffer"""
        fb = net.get(m, "CLKFBIN")
        return same(fb, net.get(m, "CLKFBOUT")) or (net.driver(fb).of == "BUFG" and same(net.get(net.driver(fb), "I"), net.get(m, "CLKFBOUT")))

    def ratio(self, net, cd, params, port=None):
        """(generator, divider) of the clock of a domain"""
        g = net.get
        if isinstance(cd, tuple):
            cd, i = cd
        b = net.driver(cd.clk, port)
        s = g(b, "I") if g(b, "I") is not None else g(b, "PLLIN")
        m = net.driver(s)
        for i in range(7):
            if same(g(m, "CLKOUT%d" % i), s):
                return m, float(net.param(m, "CLKOUT%d_DIVIDE" % i) or net.param(m, "CLKOUT%d_DIVIDE_F" % i)), b
        raise Wiring("clock of %s" % cd.name)


class Drp(Base):
    def __init__(self, what, **kw):
        Contract.__init__(self)
        pads = hdmi_pads()
        if "inverted" in kw:
            if kw.pop("inverted"):
                pads.clk_p.inverted = True
        x = self.submodules.dut = what(pads, **kw)
        self.functions = [what.__name__]
        self.interface(x)
        net = Netlist(x)
        g = net.get
        s6, out = what.__name__.startswith("S6"), "Out" in what.__name__
        pll = some([i for i in net.instances if i.of in ("PLL_ADV", "MMCME2_ADV")], "clock generator")
        n = "_pll_" if s6 else "_mmcm_"
        self.drp(pll, "drp", *[getattr(x, n + k) for k in ("read", "write", "adr", "dat_w", "dat_r", "drdy")])
        reset = getattr(x, n + "reset").storage
        locked = g(pll, "LOCKED")
        cdp = lambda k: getattr(x, "cd_" + k, None) or getattr(x, "_cd_" + k)
        rst = pin(self, g(pll, "RST"), 1)
        if s6 and out:
            dcm = one([i for i in net.instances if i.of == "DCM_CLKGEN"], "DCM_CLKGEN")
            self.ensure("reset_register", rst == Or(reset, Not(g(dcm, "LOCKED"))))
            self.ensure("input_clock", fact(same(g(dcm, "CLKFX"), g(pll, "CLKIN1")) and same(g(pll, "CLKFBIN"), g(pll, "CLKFBOUT"))))
            self.dcm(x, net, dcm)
        else:
            self.ensure("reset_register", rst == reset)
        self.ensure("feedback", fact(self.loop(net, pll)))
        if pll.of == "PLL_ADV":
            self.ensure("clock_input_selected", tied(self, pll, CLKINSEL=1))
        if not out:
            # held in reset until software has programmed it; locks on the clock of the connector
            src = g(pll, "CLKIN1")
            if not same(src, x.clk_input):
                b = net.driver(src)
                src = g(b, "I") if b.of in ("BUFR", "BUFG", "BUFH") else None
            self.ensure("starts_in_reset", fact(reset.reset.value == 1))
            self.ensure("input_clock", fact(same(src, x.clk_input) and net.param(pll, "DIVCLK_DIVIDE") in (None, 1)))
        if s6:
            m, pix, _ = self.ratio(net, cdp("pix"), "")
            m2, pix2, _ = self.ratio(net, cdp("pix2x"), "")
            m10, pix10, buf = self.ratio(net, cdp("pix10x"), "", "IOCLK")
            self.ensure("clock_ratios", fact(m is m2 is m10 is pll and pix == 2*pix2 and pix == 10*pix10 and net.param(pll, "CLKFBOUT_MULT") == pix and net.param(buf, "DIVIDE") == 5))
            self.ensure("strobe", And(fact(net.driver(x.serdesstrobe, "SERDESSTROBE") is buf and is_clock(g(buf, "GCLK"), "pix2x", cdp("pix2x"))), g(buf, "LOCKED") == locked))
            lk = g(buf, "LOCK")
        elif not out:
            m, pix, _ = self.ratio(net, cdp("pix"), "")
            m2, pix125, _ = self.ratio(net, cdp("pix1p25x"), "")
            m10, pix5, _ = self.ratio(net, cdp("pix5x"), "")
            self.ensure("clock_ratios", fact(m is m2 is m10 is pll and 4*pix == 5*pix125 and pix == 5*pix5 and net.param(pll, "CLKFBOUT_MULT_F") == pix))
            lk = locked
        else:
            m, pix, _ = self.ratio(net, cdp("pix"), "")
            m5, pix5, _ = self.ratio(net, cdp("pix5x"), "")
            self.ensure("clock_ratios", fact(m is m5 is pll and pix == 5*pix5))
            lk = locked
        if not out:
            ib = net.driver(x.clk_input)
            inv = hasattr(pads.clk_p, "inverted")
            self.ensure("clock_pads", fact(same(g(ib, "I"), pads.clk_p) and same(g(ib, "IB"), pads.clk_n) and same(g(ib, "OB" if inv else "O"), x.clk_input)))
            self.ensure("lock_status", And(x.locked == delay(self, lk, 2)[2], x._locked.status == x.locked))
            for k in ("pix", "pix2x") if s6 else ("pix", "pix1p25x"):
                self.ensure("%s_reset_while_unlocked" % k, cdp(k).rst == Not(lk))
            if not kw.get("split_clocking"):
                self.ensure("output_clock", cdp("pix_o").clk == cdp("pix").clk)
                if not s6:
                    self.ensure("output_bit_clock", cdp("pix5x_o").clk == cdp("pix5x").clk)
                    self.ensure("output_reset", cdp("pix_o").rst == cdp("pix").rst)
            else:
                m, pix, _ = self.ratio(net, cdp("pix_o"), "")
                m5, pix5, _ = self.ratio(net, cdp("pix5x_o"), "")
                self.ensure("output_clock_ratios", fact(m is m5 and m.of == "PLLE2_ADV" and pix == 5*pix5 and net.param(m, "CLKFBOUT_MULT") == pix
                            and same(g(m, "CLKFBIN"), g(m, "CLKFBOUT")) and same(g(m, "CLKIN1"), g(net.driver(cdp("pix").clk), "I"))))
                self.drp(m, "drp_o", x._mmcm_read_o, x._mmcm_write_o, x._mmcm_adr, x._mmcm_dat_w, x._mmcm_dat_o_r, x._mmcm_drdy_o)
                self.ensure("output_reset_while_unlocked", x.cd_pix_o.rst == Not(g(m, "LOCKED")))
                self.ensure("output_reset_register", pin(self, g(m, "RST"), 1) == reset)
        elif not s6:
            self.ensure("pix_reset_while_unlocked", cdp("pix").rst == Not(locked))

    def dcm(self, x, net, dcm):
        g = net.get
        # software: no command while busy
        send, go, busy = x._send_cmd_data.re, x._send_go.re, x._status.status[0]
        self.require("no_command_while_busy", Imp(busy, Not(send)))
        age, word = Signal(max=15, reset=14, name_override="age"), Signal(10, name_override="command")
        self.sync += If(send, age.eq(1), word.eq(x._cmd_data.storage)).Elif(age != 14, age.eq(age + 1))
        sending = pin(self, And(age >= 1, age <= 10), 1)
        shifted = pin(self, (word >> (age - 1)[:4])[0], 1)
        en, data = pin(self, g(dcm, "PROGEN"), 1), pin(self, g(dcm, "PROGDATA"), 1)
        self.ensure("command_bits_lsb_first", Imp(sending, en, data == shifted))
        self.ensure("go_pulse", Imp(Not(sending), en == go))
        self.ensure("no_data_outside_commands", Imp(Not(sending), Not(data)))
        self.ensure("busy_for_13_cycles", busy == (age != 14))
        self.ensure("status", And(x._status.status[1] == g(dcm, "PROGDONE"), x._status.status[2] == g(dcm, "LOCKED"),
                                  fact(is_clock(g(dcm, "PROGCLK"), "sys"))))
        lock = one([i for i in net.instances if i.of == "BUFPLL"], "BUFPLL")
        self.ensure("status_locked", x._status.status[3] == delay(self, g(lock, "LOCK"), 2)[2])
        rest = Signal(10, name_override="rest")
        self.comb += rest.eq(word >> (age - 1)[:4])
        self.term(Mux(sending, rest, 0), 10)
        self.term(Mux(sending, 11 - age, 0), 4), self.term(pin(self, 14 - age, 4), 4)
        self.guard(sending), self.guard(Not(sending))
        self.hint(And(age >= 1, age <= 14))
        self.cover("sent", age == 12)


def obligations(tier):
    yield "S6Clocking", lambda: Drp(S6Clocking)
    yield "S7Clocking", lambda: Drp(S7Clocking)
    yield "S7Clocking split", lambda: Drp(S7Clocking, split_clocking=True)
    yield "S7Clocking inverted clock pads", lambda: Drp(S7Clocking, inverted=True)
    yield "S6HDMIOutClocking", lambda: Drp(S6HDMIOutClocking, external_clocking=None)
    yield "S7HDMIOutClocking", lambda: Drp(S7HDMIOutClocking, external_clocking=None)
