"""C12: word error rate meter."""
from .tmds import *
from litevideo.input.wer import WER
from litevideo.output.hdmi.encoder import Encoder


def illegal(mod, w):
    """more transitions in the nine coded bits than a TMDS data word can have, not a control token"""
    t = pin(mod, ones([w[i] ^ w[i+1] for i in range(8)]), 4)
    ctl = Or(*[w[:9] == (k & 0x1ff) for k in TOKENS])
    return pin(mod, And(t > 4, Not(ctl)), 1)


class Count(Contract):
    k_local = 4
    sim_cycles = 300

    def __init__(self, bits):
        Contract.__init__(self)
        self.functions = ["WER(period_bits=%d)" % bits]
        x = self.submodules.dut = WER(bits)
        self.interface(x)
        self.port_widths(x, data=9)
        bad = delay(self, illegal(self, x.data), 3, cd="pix")[3]
        started = delay(self, Constant(1), 3, cd="pix")[3]
        # measurement periods of 2^bits words; the word at the roll-over is not counted
        t = Signal(bits + 1, name_override="time")
        tick(self, "pix", t.eq(t[:bits] + 1))
        roll = pin(self, t[bits], 1)
        cnt, res = Signal(bits), Signal(bits)
        wrapped = Signal()
        upd = Signal()
        tick(self, "pix", upd.eq(roll),
             If(roll, res.eq(cnt), cnt.eq(0)).Elif(bad, cnt.eq(cnt + 1)))
        # software view: rigid value v that no completed period ever had
        v = self.rigid(bits, "value", choices=list(range(1 << bits)))
        seen = Signal(name_override="value_was_a_result")
        tick(self, "pix", If(roll & (cnt == v), seen.eq(1)))
        self.ensure("reads_only_real_results", Imp(And(v != 0, Not(seen)), x._value.status != v))
        # ... and v was such a result for a whole system clock cycle before the capture ahead of the
        # value register, so that no capture can meet its change
        was, stood0, stood = Signal(bits), Signal(name_override="value_stood"), Signal(name_override="value_stood_d")
        self.sync += [was.eq(res), If((res == v) & (was == v), stood0.eq(1)), stood.eq(stood0)]
        self.ensure("reads_only_settled_results", Imp(And(v != 0, Not(stood)), x._value.status != v))
        # freshness: results are further apart than the clock crossing takes (sys edges)
        flag = Signal(name_override="result_no")
        tick(self, "pix", If(upd, flag.eq(flag == 0)))
        fl = [flag]
        for i in range(4):
            r = Signal(name_override="fl")
            self.sync += r.eq(fl[-1])
            fl.append(r)
        quiet = pin(self, And(*[f == flag for f in fl[1:]]), 1)
        self.require("results_are_apart", Imp(upd | roll, quiet))
        readback, rv = Signal(), Signal(bits)
        # a read (update strobe) in a settled moment returns the last completed period's count
        self.sync += readback.eq(x._update.re & quiet & (upd == 0)), rv.eq(res)
        self.ensure("read_is_latest", Imp(readback, x._value.status == rv))
        chk = Signal()
        self.sync += chk.eq(x._update.re == 0)
        old = Signal(bits)
        self.sync += old.eq(x._value.status)
        self.ensure("value_held_until_update", Imp(chk, x._value.status == old))
        self.term(cnt), self.term(res)
        self.guard(And(quiet, Not(upd)))
        for n in (2, 3, 4):
            self.guard(And(*[f == flag for f in fl[1:n]], Not(upd)))
        self.guard_ne(And(v != 0, Not(seen)), v)
        self.guard_ne(And(v != 0, Not(stood)), v), self.guard_ne(And(v != 0, Not(stood0)), v)
        self.term(was), self.term(pin(self, t[:bits], bits)), self.term(roll), self.term(bad)
        self.hint(pin(self, ones([fl[i] ^ fl[i+1] for i in range(4)]), 3) <= 1)
        self.hint(Imp(upd, quiet))
        self.cover("nonzero", And(readback, x._value.status != 0))
        self.cover("illegal", bad)

        def driver(rng, tt, put, get):
            if tt == 0:
                self.p = rng.choice([0.1, 0.5, 0.9])
            put(x.data, rng.choice([0b0101010101, 0b1101010110, 0b0010101101]) if rng.random() < self.p else rng.getrandbits(10))
        self.driver = driver
        self.watch = [x.data, x._update.re, x._value.status]


class Clean(Contract):
    """the encoder never produces a word the meter counts"""
    k = 6

    def __init__(self):
        Contract.__init__(self)
        self.functions = ["Encoder", "WER", "composition"]
        e = self.submodules.enc = ClockDomainsRenamer("pix")(Encoder())
        self.interface(e)
        self.port_widths(e, d=8, c=2)
        age = Signal(3)
        tick(self, "pix", If(age != 4, age.eq(age + 1)))
        self.ensure("no_false_error", Imp(age == 4, Not(illegal(self, e.out))))
        self.cover("data", age == 4)


def obligations(tier):
    for b in (3, 5, 8) if tier == "quick" else (2, 3, 4, 5, 6, 8):
        yield "WER/period_bits=%d" % b, lambda b=b: Count(b)
    yield "encoder words are legal", Clean
