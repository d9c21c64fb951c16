"""C13: sync polarity normalization."""
from .common import *
from litevideo.input.analysis import SyncPolarity


class Pol(Contract):
    def __init__(self, hdmi):
        Contract.__init__(self)
        self.functions = ["SyncPolarity(hdmi=%s)" % hdmi]
        x = self.submodules.dut = SyncPolarity(hdmi)
        self.interface(x)
        de = x.de_int if hdmi else x.data_in0.de
        D = lambda e, w: delay(self, pin(self, e, w), 1, cd="pix")[1]
        was = D(de, 1)
        # level of (hsync, vsync) in the first blanking symbol after the last active pixel
        idle = Signal(2)
        ends = pin(self, was & (de == 0), 1)
        tick(self, "pix", If(ends, idle.eq(x.data_in0.c)))
        out = D(Mux(ends, 0, x.data_in0.c ^ idle), 2)
        self.ensure("hsync_active_high", x.hsync == out[0])
        self.ensure("vsync_active_high", x.vsync == out[1])
        self.ensure("de_aligned", x.de == was)
        self.ensure("pixel_aligned", Cat(x.b, x.g, x.r) == D(Cat(x.data_in0.d, x.data_in1.d, x.data_in2.d), 24))
        self.ensure("valid_aligned", x.valid_o == D(x.valid_i, 1))
        self.ensure("end_of_line_pulse", x.de_rising == ends)
        # the raw symbols are passed on in the output clock domain
        R = lambda e: delay(self, e, 1, cd="pix_o")[1]
        self.ensure("raw_symbols", And(*[a == R(b.raw) for a, b in
                                         ((x.c0, x.data_in0), (x.c1, x.data_in1), (x.c2, x.data_in2))]))
        self.cover("sync", And(x.hsync, Not(x.vsync)))
        self.cover("inverted", And(idle == 3, x.vsync))
        self.watch = [x.data_in0.c, de, x.de, x.hsync, x.vsync]


def obligations(tier):
    yield "DVI", lambda: Pol(False)
    yield "HDMI", lambda: Pol(True)
