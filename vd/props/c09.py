"""C09: TMDS decoding, and the encode/decode round trip."""
from .tmds import *
from litevideo.output.hdmi.encoder import Encoder
from litevideo.input.decoding import Decoding


class Dec(Contract):
    def __init__(self):
        Contract.__init__(self)
        self.functions = ["Decoding"]
        x = self.submodules.dut = Decoding()
        self.interface(x)
        self.port_widths(x, input=10)
        d, ctl, c = decode(self, x.input)
        D = lambda e, w: delay(self, pin(self, e, w), 1, cd="pix")[1]
        started = D(Constant(1), 1)
        lastc = Signal(2)
        tick(self, "pix", If(ctl, lastc.eq(c)))
        gctl = D(ctl, 1)
        o = x.output
        self.ensure("control_flag", Imp(started, o.de == Not(gctl)))
        self.ensure("control_value", o.c == lastc)
        self.ensure("data", Imp(And(started, Not(gctl)), o.d == D(d, 8)))
        self.ensure("raw", Imp(started, o.raw == D(x.input, 10)))
        self.ensure("valid", x.valid_o == D(x.valid_i, 1))
        self.cover("control", And(started, gctl))
        self.cover("data", And(started, Not(gctl)))
        def driver(rng, t, put, get):
            if rng.random() < 0.4:
                put(x.input, rng.choice(TOKENS))
        self.driver = driver
        self.watch = [x.input, o.de, o.c, o.d]


class RoundTrip(Contract):
    """Decoding(Encoder(d, c, de)) = (d, c, de), for every disparity the encoder can be in"""
    k = 6

    def __init__(self):
        Contract.__init__(self)
        self.functions = ["Encoder", "Decoding", "round trip"]
        e = self.submodules.enc = ClockDomainsRenamer("pix")(Encoder())
        x = self.submodules.dut = Decoding()
        self.interface(e)
        self.port_widths(e, d=8, c=2)
        self.comb += x.input.eq(e.out)
        L = 5
        d, c, de = [delay(self, s, L, cd="pix")[L] for s in (e.d, e.c, e.de)]
        age = Signal(3)
        tick(self, "pix", If(age != L, age.eq(age + 1)))
        ok = age == L
        o = x.output
        self.ensure("de", Imp(ok, o.de == de))
        self.ensure("data", Imp(And(ok, de), o.d == d))
        self.ensure("control", Imp(And(ok, Not(de)), o.c == c))
        self.cover("data", And(ok, de))
        self.cover("control", And(ok, Not(de)))
        self.watch = [e.d, e.c, e.de, e.out, o.de, o.d, o.c]


def obligations(tier):
    yield "Decoding", Dec
    yield "round trip", RoundTrip
