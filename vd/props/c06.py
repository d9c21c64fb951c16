"""C06: pixel <-> half float conversions."""
from .pipe import *
from litevideo.csc.rgb2rgb16f import RGB2RGB16f, PIX2PIXFLUT
from litevideo.csc.rgb16f2rgb import RGB16f2RGB


def half_of_pixel(p):
    """half-precision encoding of p/256, exact"""
    if p == 0:
        return 0
    e = p.bit_length() - 1               # p = 1.f * 2^e
    return ((e - 8 + 15) << 10) | ((p << (10 - e)) & 0x3ff)


class Rgb2F(PipeContract):
    def __init__(self):
        Contract.__init__(self)
        self.functions = ["RGB2RGB16f", "PIX2PIXFDatapath", "LeadOne"]
        dut = RGB2RGB16f()
        self.pipe(dut, 2)
        self.port_widths(dut.sink, r=8, g=8, b=8)
        table = Array([Constant(half_of_pixel(p), 16) for p in range(256)])
        for n in "rgb":
            spec = pin(self, table[getattr(dut.sink, n)], 16)
            self.result(n + "f", getattr(dut.source, n + "f"), spec, 16)
        self.ensure("valid", dut.source.valid == self.gv[self.L])
        self.cover("result", self.gv[self.L])
        self.watch = [dut.sink.r, dut.source.rf]


class PixLut(Contract):
    """the look-up table variant of one component"""
    houdini = False

    def __init__(self):
        Contract.__init__(self)
        self.functions = ["PIX2PIXFLUT", "lookup_table"]
        dut = self.submodules.dut = PIX2PIXFLUT(8, 16)
        self.set_tick(dut.ce)
        table = Array([Constant(half_of_pixel(p), 16) for p in range(256)])
        d = delay(self, pin(self, table[dut.sink.pix], 16), 1, dut.ce)
        g = delay(self, pin(self, 1, 1), 1, dut.ce)
        self.ensure("pixf", Imp(g[1], dut.source.pixf == d[1]))
        self.cover("ce", g[1])
        self.watch = [dut.sink.pix, dut.source.pixf]


class F2Rgb(PipeContract):
    def __init__(self):
        Contract.__init__(self)
        self.functions = ["RGB16f2RGB", "PIXF2PIXDatapath"]
        dut = RGB16f2RGB()
        self.pipe(dut, 2)
        self.port_widths(dut.sink, rf=16, gf=16, bf=16)
        for n in "rgb":
            x = getattr(dut.sink, n + "f")
            e, m = x[10:15], x[:10]
            # domain: 0 <= x <= 1 ; result floor(256 x), 255 for x = 1
            self.require("unit_interval_" + n, Imp(dut.sink.valid, x <= (15 << 10)))
            man = pin(self, Mux(e == 0, m, m | 1024), 11)
            k = pin(self, Mux(e == 0, 1, e), 5)               # x = man * 2^(k-25)
            val = pin(self, (man << k) >> (25 - 8), 12)       # floor(256 x)
            spec = Mux(val > 255, 255, val)
            self.result(n, getattr(dut.source, n), spec, 8)
        self.ensure("valid", dut.source.valid == self.gv[self.L])
        self.cover("result", self.gv[self.L])
        self.watch = [dut.sink.rf, dut.source.r]


def obligations(tier):
    yield "RGB2RGB16f", Rgb2F
    yield "RGB16f2RGB", F2Rgb
    yield "LUT", PixLut
