"""C02: YCbCr -> RGB numeric contract (fixed-point XAPP931, exact)."""
from .pipe import *
from litevideo.csc.ycbcr2rgb import YCbCr2RGB


class YCbCr2Rgb(PipeContract):
    def __init__(self, ycbcr_w, rgb_w, coef_w):
        Contract.__init__(self)
        self.functions = ["YCbCr2RGB(ycbcr_w=%d,rgb_w=%d,coef_w=%d)" % (ycbcr_w, rgb_w, coef_w),
                          "YCbCr2RGBDatapath", "saturate", "ycbcr2rgb_coefs", "coef"]
        # 8 bits everywhere is the default
        dut = YCbCr2RGB() if rgb_w == ycbcr_w == coef_w == 8 else YCbCr2RGB(ycbcr_w, rgb_w, coef_w)
        self.pipe(dut, 4)
        self.port_widths(dut.sink, y=ycbcr_w, cb=ycbcr_w, cr=ycbcr_w)
        y, cb, cr = dut.sink.y, dut.sink.cb, dut.sink.cr
        f = coef_w - 2
        q = lambda x: int(x*2**f)      # truncation toward zero
        S = lambda e, n=32: pin(self, e, (n, True))
        k = 0.5512*(1 - 0.1819 - 0.0618), 0.6495*(1 - 0.1819 - 0.0618)
        mid = 2**(ycbcr_w - 1)
        y0 = S(y - 2**(ycbcr_w - 4))
        u, v = S(cb - mid), S(cr - mid)
        r = S(y0 + ((q(1/0.6495)*v) >> f))
        g = S(y0 + ((q(-0.0618/k[0])*u) >> f) + ((q(-0.1819/k[1])*v) >> f))
        b = S(y0 + ((q(1/0.5512)*u) >> f))
        for name, e in [("r", r), ("g", g), ("b", b)]:
            self.result(name, getattr(dut.source, name), sat(e, 0, 2**rgb_w - 1), rgb_w)
        self.ensure("valid", dut.source.valid == self.gv[self.L])
        self.cover("result", self.gv[self.L])
        self.watch = [y, cb, cr, dut.source.r, dut.source.g, dut.source.b]


def obligations(tier):
    for c in [(8, 8, 8), (8, 8, 6), (8, 8, 10), (10, 10, 8), (6, 6, 8)]:
        yield "%d/%d/%d" % c, lambda c=c: YCbCr2Rgb(*c)
