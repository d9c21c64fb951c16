"""C01: RGB -> YCbCr numeric contract (fixed-point XAPP930, exact)."""
from .pipe import *
from litevideo.csc.rgb2ycbcr import RGB2YCbCr


class Rgb2YCbCr(PipeContract):
    def __init__(self, rgb_w, ycbcr_w, coef_w):
        Contract.__init__(self)
        self.functions = ["RGB2YCbCr(rgb_w=%d,ycbcr_w=%d,coef_w=%d)" % (rgb_w, ycbcr_w, coef_w),
                          "RGB2YCbCrDatapath", "saturate", "rgb2ycbcr_coefs", "coef"]
        # 8 bits everywhere is the default
        dut = RGB2YCbCr() if rgb_w == ycbcr_w == coef_w == 8 else RGB2YCbCr(rgb_w, ycbcr_w, coef_w)
        self.pipe(dut, 8)
        self.port_widths(dut.sink, r=rgb_w, g=rgb_w, b=rgb_w)
        r, g, b = dut.sink.r, dut.sink.g, dut.sink.b
        q = lambda x: int(x*2**coef_w)
        S = lambda e, n=32: pin(self, e, (n, True))
        # XAPP930 with the coefficients truncated to coef_w fractional bits, floor shifts
        acc = S(q(0.1819)*(r - g) + q(0.0618)*(b - g))
        yr = S((acc >> coef_w) + g)
        cbr = S(((q(0.5512)*(b - yr)) >> coef_w) + 2**(ycbcr_w - 1))
        crr = S(((q(0.6495)*(r - yr)) >> coef_w) + 2**(ycbcr_w - 1))
        y = S(yr + 2**(ycbcr_w - 4))
        hi = 2**ycbcr_w - 1
        for name, e in [("y", y), ("cb", cbr), ("cr", crr)]:
            self.result(name, getattr(dut.source, name), sat(e, 0, hi), ycbcr_w)
        self.ensure("valid", dut.source.valid == self.gv[self.L])
        self.cover("result", self.gv[self.L])
        self.watch = [r, g, b, dut.source.y, dut.source.cb, dut.source.cr]


def obligations(tier):
    for c in [(8, 8, 8), (8, 8, 6), (8, 8, 10), (10, 10, 8), (6, 6, 8)]:
        yield "%d/%d/%d" % c, lambda c=c: Rgb2YCbCr(*c)
