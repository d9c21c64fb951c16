"""C08: TMDS encoder."""
from .tmds import *
from litevideo.output.hdmi.encoder import Encoder


class Enc(Contract):
    k = 5

    def __init__(self):
        Contract.__init__(self)
        self.functions = ["Encoder"]
        e = self.submodules.dut = Encoder()
        self.interface(e)
        self.port_widths(e, d=8, c=2)
        d, c, de = [delay(self, s, 3, cd="sys")[3] for s in (e.d, e.c, e.de)]
        sym, cnt, nxt = encode(self, "sys", d, c, de)
        out = delay(self, sym, 1)[1]
        # the pipeline needs 4 cycles after power-up before `out` describes an input
        age = Signal(3)
        self.sync += If(age != 4, age.eq(age + 1))
        ok = age == 4
        self.ensure("symbol", Imp(ok, e.out == out))
        # observable running disparity of the transmitted bits since the last control symbol
        gde = delay(self, de, 1)[1]
        obs = Signal((8, True), name_override="observed")
        bal = pin(self, 2*ones([e.out[i] for i in range(10)]) - 10, (6, True))
        after = pin(self, Mux(gde, obs + bal, 0), (8, True))
        self.sync += If(ok, obs.eq(after))
        self.ensure("dc_balanced", And(after <= 10, after >= -10))
        self.term(cnt), self.term(obs), self.term(after)
        self.hint(Imp(ok, cnt == after))
        self.hint(Imp(Not(ok), obs == 0))
        self.hint(And(cnt <= 10, cnt >= -10))
        self.hint(cnt[0] == 0)
        self.hint(And(age <= 4))
        self.cover("data", And(ok, gde, after != 0))
        self.cover("control", And(ok, Not(gde)))
        self.watch = [e.d, e.c, e.de, e.out]


def obligations(tier):
    yield "Encoder", Enc
