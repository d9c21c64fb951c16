"""C04: 4:4:4 -> 4:2:2 resampling."""
from .pipe import *
from litevideo.csc.ycbcr444to422 import YCbCr444to422


class Resample(PipeContract):
    def __init__(self, dw, gaps=False):
        Contract.__init__(self)
        self.functions = ["YCbCr444to422(dw=%d)" % dw, "YCbCr444to422Datapath"]
        dut = YCbCr444to422() if dw == 8 else YCbCr444to422(dw)
        self.pipe(dut, 3)
        self.port_widths(dut.sink, y=dw, cb=dw, cr=dw)
        self.k = 5
        ce, v, s = self.ce, dut.sink.valid, dut.sink
        first = dut.datapath.first
        nxt = Signal(name_override="next_is_second")
        par = pin(self, Mux(first, 0, nxt), 1)          # 0: first of its pair, 1: second
        if not gaps:
            # after a gap the pairing is restarted with `first`
            bubble = Signal()
            tick(self, "sys", If(ce, bubble.eq(v == 0), nxt.eq(par == 0)))
            self.require("gaps_restart_pairing", Imp(And(v, bubble), first))
            dv, dp, df = delay(self, v, 4, ce), delay(self, par, 4, ce), delay(self, pin(self, first, 1), 4, ce)
            y, cb, cr = [delay(self, getattr(s, n), 4, ce) for n in ("y", "cb", "cr")]
            o = dut.source
            # sample n is 3 accepted cycles old, n+1 is 2, n-1 is 4
            even = And(dv[3], Not(dp[3]), dv[2], dp[2])
            odd = And(dv[3], dp[3], dv[4])
            self.ensure("luma", Imp(dv[3], o.y == y[3]))
            self.ensure("cb_of_pair", Imp(even, o.cb_cr == pin(self, (cb[3] + cb[2]) >> 1, dw)))
            self.ensure("cr_of_pair", Imp(odd, o.cb_cr == pin(self, (cr[3] + cr[4]) >> 1, dw)))
            self.ensure("valid", o.valid == dv[3])
            self.cover("even", even)
            self.cover("odd", odd)
            self.cover("restart", And(odd, Not(dv[2])))
        else:
            self.require("no_realignment", Not(first))
            pcr = Signal(dw)
            tick(self, "sys", If(ce & v, nxt.eq(par == 0), pcr.eq(s.cr)))
            e = delay(self, pin(self, (pcr + s.cr) >> 1, dw), 3, ce)
            od = delay(self, pin(self, v & par, 1), 3, ce)
            self.ensure("cr_of_pair", Imp(od[3], dut.source.cb_cr == e[3]))
        self.watch = [v, s.y, s.cb, s.cr, first, dut.source.y, dut.source.cb_cr]


def obligations(tier):
    for dw in (8, 10, 6):
        yield "dw%d/contiguous" % dw, lambda dw=dw: Resample(dw)
    yield "gaps inside a pair", lambda: Resample(8, True)
