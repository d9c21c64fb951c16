"""C07: half-precision multiply and add, exact result truncated toward zero."""
from .pipe import *
from litevideo.float_arithmetic.floatmult import FloatMult
from litevideo.float_arithmetic.floatadd import FloatAdd


class Half:
    """sign/mantissa/exponent of a half: |x| = man * 2^(exp-25)"""
    def __init__(self, mod, x):
        self.sign, self.e, self.f = x[15], x[10:15], x[:10]
        self.man = pin(mod, Mux(self.e == 0, self.f, self.f | 1024), 11)
        self.exp = pin(mod, Mux(self.e == 0, 1, self.e), 5)


class FloatOp(PipeContract):
    def op(self, dut, exact, bits, bias):
        """`exact` = |result| * 2^bias scaled integer (bias chosen so that it is an integer)"""
        L = self.L
        a, b = dut.sink.in1, dut.sink.in2
        v = pin(self, exact, bits)
        for n, x in (("in1", a), ("in2", b)):
            self.require("finite_" + n, Imp(dut.sink.valid, x[10:15] != 31))
        # largest finite half is 2047 * 2^(30-25)
        self.require("in_range", Imp(dut.sink.valid, v < (2048 << (5 + bias))))
        d = delay(self, v, L, self.ce)[L]
        out = Half(self, dut.source.out)
        ok = self.gv[L]
        # man * 2^(exp-25) is `exact` truncated toward zero, in normalized form
        sh = pin(self, out.exp + (bias - 25), 8) if bias >= 25 else None
        self.ensure("truncated_result", Imp(ok, (d >> sh) == out.man))
        self.ensure("normalized", Imp(ok, Or(out.e == 0, (d >> sh) >= 1024)))
        self.ensure("finite", Imp(ok, out.e != 31))
        self.nonzero = out.man != 0
        self.ensure("valid", dut.source.valid == ok)
        self.cover("result", And(ok, out.man != 0))
        self.cover("zero", And(ok, out.man == 0))
        self.cover("subnormal", And(ok, out.man != 0, out.e == 0))
        self.cover("normal", And(ok, out.e > 3))
        self.watch = [dut.sink.valid, dut.sink.ready, a, b, dut.source.valid, dut.source.out]

        def driver(rng, t, put, get):
            def half():
                k = rng.random()
                if k < 0.15:
                    return rng.choice([0, 1, 0x3ff, 0x400, 0x3c00, 0x3bff, 0x7bff, 0x8000, 0x5, 0xbc00]) & self.mask
                if k < 0.5:
                    return ((rng.randrange(11, 20) << 10) | rng.getrandbits(10) | rng.getrandbits(1) << 15) & self.mask
                if k < 0.7:
                    return (rng.randrange(0, 3) << 10 | rng.getrandbits(10)) & self.mask
                return rng.getrandbits(16) & self.mask
            put(a, half())
            put(b, half())
        self.mask = 0xffff
        self.driver = driver
        self.sim_traces = 48


class Mult(FloatOp):
    def __init__(self):
        Contract.__init__(self)
        self.functions = ["FloatMult", "FloatMultDatapath", "LeadOne"]
        dut = FloatMult(16)
        self.pipe(dut, 5)
        self.port_widths(dut.sink, in1=16, in2=16)
        x, y = Half(self, dut.sink.in1), Half(self, dut.sink.in2)
        # |x*y| = mx*my*2^(ex+ey-50), scaled by 2^48
        self.op(dut, pin(self, x.man*y.man, 22) << pin(self, x.exp + y.exp - 2, 6), 22 + 58, 48)
        s = delay(self, pin(self, x.sign ^ y.sign, 1), self.L, self.ce)[self.L]
        self.ensure("sign", Imp(And(self.gv[self.L], self.nonzero), dut.source.out[15] == s))


class Add(FloatOp):
    def __init__(self, signed=False):
        Contract.__init__(self)
        self.functions = ["FloatAdd", "FloatAddDatapath", "LeadOne"]
        dut = FloatAdd(16)
        self.pipe(dut, 5)
        self.port_widths(dut.sink, in1=16, in2=16)
        x, y = Half(self, dut.sink.in1), Half(self, dut.sink.in2)
        # |x+y| = (mx*2^(ex-1) +- my*2^(ey-1)) * 2^-24, scaled by 2^25
        a, b = pin(self, x.man << pin(self, x.exp, 5), 42), pin(self, y.man << pin(self, y.exp, 5), 42)
        if signed:
            neg = x.sign ^ y.sign
            mag = pin(self, Mux(neg, Mux(a >= b, a - b, b - a), a + b), 43)
            sg = pin(self, Mux(a >= b, x.sign, y.sign), 1)
        else:
            for n, h in (("in1", x), ("in2", y)):
                self.require("non_negative_" + n, Imp(dut.sink.valid, Not(h.sign)))
            mag, sg = a + b, Constant(0)
        self.op(dut, mag, 43, 25)
        if not signed:
            self.mask = 0x7fff
        s = delay(self, pin(self, sg, 1), self.L, self.ce)[self.L]
        self.ensure("sign", Imp(And(self.gv[self.L], self.nonzero), dut.source.out[15] == s))


def obligations(tier):
    yield "FloatMult", Mult
    yield "FloatAdd/non-negative", Add
    yield "FloatAdd/signed", lambda: Add(True)
