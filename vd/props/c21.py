"""C21: video output: pixel data, data enable and syncs reach the driver together."""
from .common import *
from litevideo import output
from litevideo.output.common import video_out_layout
from litevideo.output.core import modes_dw
from litex.soc.interconnect import stream
from litevideo.csc.common import rgb_layout, ycbcr444_layout
from litevideo.csc.ycbcr2rgb import YCbCr2RGB
from litex.soc.interconnect.stream import EndpointDescription, PipelinedActor
from litedram.common import LiteDRAMNativePort
from migen.genlib.record import Record


def hdmi_pads():
    return Record([(n + p, 1) for n in ("clk", "data0", "data1", "data2") for p in ("_p", "_n")])


class CoreContract(Module):
    """stands for VideoOutCore: any stream of items (what the core guarantees about them is C20;
    the preconditions below are the part of it that is used)"""
    def __init__(self, dram_port, mode="rgb", fifo_depth=512, genlock_stream=None):
        self.source = stream.Endpoint(video_out_layout(modes_dw[mode]))


def with_callee_contracts(build):
    real, output.VideoOutCore = output.VideoOutCore, CoreContract
    try:
        return build()
    finally:
        output.VideoOutCore = real


class Output(Contract):
    sim_cycles = 300
    k_local = 1
    learn_implications = False

    def __init__(self, mode, device="xc7a"):
        Contract.__init__(self)
        self.functions = ["VideoOut(mode=%s)" % mode, "TimingDelay", "YCbCr422to444", "YCbCr2RGB"]
        dw = 16 if mode == "ycbcr422" else 32
        port = LiteDRAMNativePort("read", 28, dw, "pix")
        x = self.submodules.dut = with_callee_contracts(lambda: output.VideoOut(device, hdmi_pads(), port, mode, 4))
        s, k = x.core.source, x.driver.sink
        self.port_widths(k, **({"r": 8, "g": 8, "b": 8} if mode != "raw" else {"c0": 10, "c1": 10, "c2": 10}))
        self.interface(x)
        self._open(s, 0)
        if mode != "ycbcr422":
            self.ensure("same_cycle", And(k.valid == s.valid, s.ready == 1))
            if mode == "rgb":
                self.ensure("timing", Imp(s.valid, k.de == s.de, k.hsync == s.hsync, k.vsync == s.vsync))
                self.ensure("components", Imp(s.valid, k.r == s.data[0:8], k.g == s.data[8:16], k.b == s.data[16:24]))
            else:
                self.ensure("symbols", Imp(s.valid, k.c0 == s.data[0:10], k.c1 == s.data[10:20], k.c2 == s.data[20:30]))
            self.cover("item", k.valid)
            return
        L = 7
        # an uninterrupted stream of items (no underflow)
        ever = Signal()
        tick(self, "pix", If(s.valid, ever.eq(1)))
        self.require("no_underflow", And(Imp(ever, s.valid), Imp(s.de, ever)))
        de, hs, vs, dat, val = [delay(self, e, L, cd="pix") for e in (s.de, s.hsync, s.vsync, s.data, s.valid)]
        self.ensure("always_ready", s.ready == 1)
        # lines of an even number of pixels separated by blanking
        n = Signal(name_override="odd_pixel")
        par = pin(self, Mux(s.de & (de[1] == 0), 0, n), 1)
        tick(self, "pix", n.eq((par == 0) & s.valid))
        self.require("even_lines", Imp(And(Not(s.de), de[1]), Not(n)))
        self.require("blanking", Imp(And(s.de, Not(de[1])), Not(de[2]), Not(de[3])))
        p = delay(self, par, L, cd="pix")
        # the pixel of 3 cycles ago, with the chroma of its pair
        y, cb, cr = dat[3][:8], Mux(p[3], dat[4][8:], dat[3][8:]), Mux(p[3], dat[3][8:], dat[2][8:])
        # ... converted by a second instance of the real converter (what it computes is C02)
        ref = self.submodules.ref = ClockDomainsRenamer("pix")(YCbCr2RGB())
        self.comb += [ref.sink.valid.eq(1), ref.source.ready.eq(1), ref.sink.y.eq(y), ref.sink.cb.eq(cb), ref.sink.cr.eq(cr)]
        e = [pin(self, Cat(y, cb, cr), 24), pin(self, Cat(ref.source.r, ref.source.g, ref.source.b), 24)]
        self.ensure("timing", Imp(val[L], k.de == de[L], k.hsync == hs[L], k.vsync == vs[L]))
        self.ensure("pixel_with_its_enable", Imp(And(val[L], de[L]), k.valid, k.r == e[-1][:8], k.g == e[-1][8:16], k.b == e[-1][16:]))
        # facts: position since the start of the line (0..7 then 8..15 again and again)
        since = Signal(4, name_override="since")
        tick(self, "pix", If(Or(Not(val[1]), And(s.de, Not(de[1]))), since.eq(0)).Elif(since == 15, since.eq(8)).Else(since.eq(since + 1)))
        started = Signal(name_override="line_seen")
        tick(self, "pix", If(s.de & s.valid, started.eq(1)))
        for m in range(16):
            self.guard(And(since == m, val[1]))
        self.guard(Not(val[1]))
        for j in range(1, 5):
            self.term(pin(self, dat[j][:8], 8)), self.term(pin(self, dat[j][8:], 8))
        good = delay(self, pin(self, since >= 2, 1), 4, cd="pix")
        for g in good:
            self.guard(g)
        self.term(e[0])
        self.hint(Imp(started, since[0] == Not(n)), "parity")
        self.hint(Imp(Or(*de[1:]), started), "seen")
        for j in (1, 2, 3):
            self.hint(Imp(de[j], since >= j - 1, val[1]), "inside%d" % j)
            self.hint(Imp(de[j], p[j] == pin(self, since - (j - 1), 4)[0]), "parity%d" % j)
        for j in range(4):
            self.hint(Imp(de[3 + j], good[j]), "good%d" % j)
        for j in range(1, L + 1):
            self.hint(Imp(de[j], val[j]), "valid%d" % j)
        for j in range(1, L):
            self.hint(Imp(val[j + 1], val[j]), "val%d" % j)
        self.hint(Imp(val[1], ever), "ever")
        self.cover("pixel", And(val[L], de[L]))
        self.watch = [s.valid, s.de, s.data, k.valid, k.de, k.r, k.g, k.b, e[-1]]


        def driver(rng, t, put, get):
            if t == 0:

                self.hb, self.w, self.on = rng.randrange(3, 8), 2*rng.randrange(1, 10), rng.randrange(8)
            put(s.valid, int(t >= self.on))
            put(s.de, int(t > self.on and (t + self.hb) % (self.w + self.hb) < self.w))
            put(s.data, rng.getrandbits(16))
        self.driver = driver


def obligations(tier):
    for m in ("rgb", "raw", "ycbcr422"):
        yield m, lambda m=m: Output(m)
