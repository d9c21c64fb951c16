"""Shared contract shape for the stall-able feed-forward stream actors."""
from .common import *


class PipeContract(Contract):
    """`advance` = the actor accepts (sink.ready).  Every ghost register moves on `advance`,
    the stall frame obligation shows nothing at all moves otherwise, so L-step proofs from an
    arbitrary state cover every history of stalls and bubbles."""
    houdini = False
    aux = True

    def pipe(self, dut, L):
        self.submodules.dut = dut
        self.k = L
        self.L = L
        self.dut = dut
        self.ce = dut.sink.ready
        self.set_tick(self.ce)
        self.gv = delay(self, pin(self, dut.sink.valid, 1), L, self.ce)

    def result(self, name, out, spec, width):
        d = delay(self, pin(self, spec, width), self.L, self.ce)
        self.ensure(name, Imp(self.gv[self.L], out == d[self.L]))

    def handshake(self):
        """exactly once, in order, packet markers with their item, back-pressure"""
        dut, L = self.dut, self.L
        gf = delay(self, pin(self, dut.sink.valid & dut.sink.first, 1), L, self.ce)
        gl = delay(self, pin(self, dut.sink.valid & dut.sink.last, 1), L, self.ce)
        v = dut.source.valid
        self.ensure("valid", v == self.gv[L])
        self.ensure("first", Imp(v, dut.source.first == gf[L]))
        self.ensure("last", Imp(v, dut.source.last == gl[L]))
        # stalls exactly when a result is presented and not taken
        self.ensure("ready", dut.sink.ready == (dut.source.ready | (v == 0)))
        self.cover("result", v)
        self.cover("first", And(v, dut.source.first))
        self.cover("last", And(v, dut.source.last))
        self.cover("bubble", And(Not(v), self.gv[1]))


class HoldContract(Contract):
    """a presented result that is not taken stays, unchanged, until it is"""
    def __init__(self, factory, functions):
        Contract.__init__(self)
        self.functions = functions
        dut = self.submodules.dut = factory()
        self.learn_bits = False
        self.learn_implications = False
        names = [n[0] for n in dut.source.description.payload_layout]
        cat = Cat(dut.source.first, dut.source.last, *[getattr(dut.source, n) for n in names])
        pv, pd = Signal(), Signal(len(cat))
        self.sync += pv.eq(dut.source.valid & (dut.source.ready == 0)), pd.eq(cat)
        self.ensure("valid_held", Imp(pv, dut.source.valid))
        self.ensure("result_held", Imp(pv, pd == cat))
        self.ensure("not_accepted_while_held", Imp(dut.source.valid & (dut.source.ready == 0), Not(dut.sink.ready)))
        self.cover("stalled", pv)
