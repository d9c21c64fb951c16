"""C29: test patterns under back-pressure."""
from .common import *
from litevideo.output.pattern import ColorBarsPattern, VerticalLinesPattern, DotsPattern

BARS = [0xffffff, 0xffff00, 0x00ffff, 0x00ff00, 0xff00ff, 0xff0000, 0x0000ff, 0x000000]


class Pattern(Contract):
    search_cycles = (500, 15000)

    def __init__(self, what, multiple, color):
        Contract.__init__(self)
        self.functions = [what.__name__]
        x = self.submodules.dut = what()
        self.interface(x)
        s = x.source
        hres = self.rigid(12, "hres", lambda r: multiple*(r.randrange(1, 4096//multiple) if self.searching else r.choice([1, 2, 3, 4, 10])))
        self.comb += x.sink.hres.eq(hres)
        self.require("resolution", And(hres != 0, hres[:multiple.bit_length() - 1] == 0))
        # position of the pixel offered now (or next)
        col, odd, width = Signal(12, name_override="col"), Signal(name_override="odd_line"), Signal(12)
        bar, inbar = Signal(3, name_override="bar"), Signal(12, name_override="col_in_bar")
        taken = pin(self, And(s.valid, s.ready), 1)
        self.sync += If(taken,
                        If(col == hres - 1, col.eq(0), odd.eq(~odd)).Else(col.eq(col + 1)),
                        If(inbar == hres[3:] - 1, inbar.eq(0), bar.eq(bar + 1)).Else(inbar.eq(inbar + 1)))
        rgb = Cat(s.b, s.g, s.r)
        self.ensure("pixel", Imp(s.valid, rgb == color(col, odd, bar)))
        # handshake
        was, prev = delay(self, pin(self, And(s.valid, Not(s.ready)), 1), 1)[1], delay(self, pin(self, rgb, 24), 1)[1]
        self.ensure("pixel_kept_until_accepted", Imp(was, s.valid, rgb == prev))
        go = delay(self, x.sink.valid, 1)[1]
        self.ensure("a_pixel_in_every_cycle", Imp(go, s.valid))
        self.ensure("none_without_parameters", Imp(Not(Or(go, was)), Not(s.valid)))
        # vocabulary: position of the pixel after the one offered
        last = pin(self, col == hres - 1, 1)
        ncol, nodd = pin(self, Mux(last, 0, col + 1), 12), pin(self, odd ^ last, 1)
        lastin = pin(self, inbar == hres[3:] - 1, 1)
        nin, nbar = pin(self, Mux(lastin, 0, inbar + 1), 12), pin(self, bar + lastin, 3)
        pos = lambda now, nxt, n: self.term(pin(self, Mux(s.valid, nxt, now), n))
        pos(col, ncol, 12), pos(odd, nodd, 1), pos(inbar, nin, 12), pos(bar, nbar, 3)
        pos(odd ^ col[0], nodd ^ ncol[0], 1), pos(col[0], ncol[0], 1)
        self.hint(col < hres), self.hint(inbar < hres[3:])
        self.hint(Imp(Not(s.valid), Not(was)))
        self.cover("second_line", And(s.valid, odd))
        if what is ColorBarsPattern:
            self.cover("red", And(s.valid, bar == 5))


def obligations(tier):
    bars = Array(Constant(c, 24) for c in BARS)
    yield "color bars", lambda: Pattern(ColorBarsPattern, 8, lambda col, odd, bar: bars[bar])
    yield "vertical lines", lambda: Pattern(VerticalLinesPattern, 2, lambda col, odd, bar: Mux(col[0], 0xffffff, 0))
    yield "dots", lambda: Pattern(DotsPattern, 2, lambda col, odd, bar: Mux(col[0] ^ odd, 0xffffff, 0))
