"""C05: 4:2:2 -> 4:4:4 resampling, any schedule on both sides."""
from .common import *
from litevideo.csc.ycbcr422to444 import YCbCr422to444


class Resample(Contract):
    k = 1

    def __init__(self, dw):
        Contract.__init__(self)
        self.functions = ["YCbCr422to444(dw=%d)" % dw]
        dut = self.submodules.dut = (YCbCr422to444() if dw == 8 else YCbCr422to444(dw))
        self.interface(dut)
        self.port_widths(dut.sink, y=dw, cb_cr=dw)
        rst = dut.reset
        N = 5                                   # index counters are modulo 2^N
        acc, out = Signal(N, name_override="accepted"), Signal(N, name_override="delivered")
        xin, xout = pin(self, dut.sink.valid & dut.sink.ready), pin(self, dut.source.valid & dut.source.ready)
        self.sync += [If(xin, acc.eq(acc + 1)), If(xout, out.eq(out + 1)), If(rst, acc.eq(0), out.eq(0))]
        # an arbitrary pair: pixels r and r+1 (r even); `armed` once they are the pair in question
        r = pin(self, Cat(Constant(0, 1), self.rigid(N - 1, "pair")), N)
        r1 = pin(self, r | 1, N)
        y0, y1, cb, cr = [Signal(dw, name_override=n) for n in ("y0", "y1", "cb", "cr")]
        h0, h1 = Signal(name_override="have0"), Signal(name_override="have1")
        d0 = Signal(name_override="done0")
        in0, in1 = pin(self, xin & (acc == r)), pin(self, xin & (acc == r1))
        out0, out1 = pin(self, xout & (out == r)), pin(self, xout & (out == r1))
        self.sync += [
            If(in0, y0.eq(dut.sink.y), cb.eq(dut.sink.cb_cr), h0.eq(1)),
            If(in1, y1.eq(dut.sink.y), cr.eq(dut.sink.cb_cr), h1.eq(1)),
            If(out0, h0.eq(0), d0.eq(1)), If(out1, h1.eq(0), d0.eq(0)),
            If(rst, h0.eq(0), h1.eq(0), d0.eq(0))]
        s = dut.source
        self.ensure("pixel0", Imp(And(s.valid, out == r), h0, s.y == y0, s.cb == cb))
        self.ensure("pixel0_cr", Imp(And(s.valid, out == r), h1, s.cr == cr))
        at1 = And(s.valid, out == r1)
        self.ensure("pixel1_y", Imp(at1, h1, s.y == y1))
        self.ensure("pixel1_cb", Imp(at1, s.cb == cb))
        self.ensure("pixel1_cr", Imp(at1, s.cr == cr))
        # never ahead of the input, never more than the counters can tell apart
        lvl = pin(self, acc - out, N)
        self.ensure("not_ahead", Imp(s.valid, lvl != 0))
        self.ensure("bounded", Imp(dut.sink.ready, lvl < 2**N - 1))
        # no deadlock: a complete pair is presented, an empty converter accepts
        self.ensure("progress_out", Imp(Or(And(Not(out[0]), lvl >= 2), And(out[0], lvl >= 1)), s.valid))
        self.ensure("progress_in", Imp(lvl < 2, dut.sink.ready))
        # a presented pixel is stable until taken
        pv, pd = Signal(), Signal(3*dw)
        self.sync += pv.eq(s.valid & (s.ready == 0) & (rst == 0)), pd.eq(Cat(s.y, s.cb, s.cr))
        self.ensure("held", Imp(pv, s.valid, pd == Cat(s.y, s.cb, s.cr)))
        for e in (acc[:2], out[:2], acc[2:] , out[2:]):
            self.term(e)
        self.term(acc[1:3], 2), self.term(out[1:3], 2), self.term(lvl)
        up = pin(self, acc + 1, N)
        self.term(up[1:] - out[1:], N - 1), self.term(acc[1:] - out[1:], N - 1), self.term(up[1:3], 2)
        win = lambda x: pin(self, pin(self, x - out, N) < lvl)
        self.hint(Imp(out[0], lvl != 0)), self.hint(Iff(h0, win(r))), self.hint(Iff(h1, win(r1))), self.hint(Iff(d0, And(h1, out == r1)))

        def driver(rng, t, put, get):
            put(rst, int(rng.random() < 0.02))
        self.driver = driver
        pend0 = pin(self, h0, name="p0")
        pendc = pin(self, h0 | d0, name="pc")
        for j in range(4):
            self.guard(And(h0, (r & 3) == j))
            self.guard(And(h1, (r1 & 3) == j))
            self.guard(And(pendc, ((r >> 1) & 3) == j))
            self.guard(And(h1, ((r >> 1) & 3) == j))
        self.cover("pixel1", And(s.valid, out == r1))
        self.cover("full", Not(dut.sink.ready))
        self.cover("held", pv)
        self.watch = [xin, dut.sink.y, dut.sink.cb_cr, xout, s.y, s.cb, s.cr]


def obligations(tier):
    for dw in (8, 10):
        yield "dw%d" % dw, lambda dw=dw: Resample(dw)
