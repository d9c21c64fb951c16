"""C19: frame reader (DMA)."""
from .common import *
from litevideo.output.core import DMAReader
from litevideo.output.common import frame_dma_layout, frame_timing_layout
from litedram.common import LiteDRAMNativePort
from litex.soc.interconnect import stream


def ring(mod, cd, depth, data, push, pop, shown):
    """ghost queue in one clock domain: front word, number of words"""
    n = log2_int(depth)
    cells = [Signal(len(data), name_override="word%d" % i) for i in range(depth)]
    wr, rd, lvl = Signal(n, name_override="wr"), Signal(n, name_override="rd"), Signal(max=depth + 1, name_override="level")
    tick(mod, cd, If(push, Case(wr, {i: c.eq(data) for i, c in enumerate(cells)}), wr.eq(wr + 1)),
         If(pop, rd.eq(rd + 1)), lvl.eq(lvl + push - pop))
    front = pin(mod, Array(cells)[rd], len(data))
    mod.term(front)
    mod.hint(pin(mod, wr - rd, n) == lvl[:n])
    mod.hint(lvl <= depth)
    # words still queued, by cell; the front one may have left the memory for the output register
    shown = pin(mod, shown, 1)
    for i, c in enumerate(cells):
        d = pin(mod, Constant(i, n) - rd, n)
        mod.guard(And(d < lvl, Or(d != 0, Not(shown))))
        mod.term(c)
    mod.guard(shown)
    mod.hint(Imp(shown, lvl != 0))
    for t in (wr, rd, lvl, pin(mod, rd + shown, n), pin(mod, lvl - shown, len(lvl))):
        mod.term(t)
    mod.cells = cells
    return front, lvl


class Reader(Contract):
    sim_cycles = 400
    learn_bits = False

    def __init__(self, dw, aw, depth, genlock=False):
        Contract.__init__(self)
        self.sim_cycles = 400*max(1, depth//4)
        self.search_cycles = (self.sim_cycles, 4*self.sim_cycles, 30000)
        self.functions = ["DMAReader(dw=%d,fifo_depth=%d,genlock=%s)" % (dw, depth, genlock)]
        port = LiteDRAMNativePort("read", aw, dw)
        g = stream.Endpoint(frame_timing_layout) if genlock else None
        x = self.submodules.dut = DMAReader(port, depth, g)
        self.interface(x, port.cmd, port.rdata)
        self.port_widths(x.sink, base=32, length=32)
        if genlock:
            self._open(g, 0)
            self.interface(x.delay_base)
        p, cmd, rd, o = x.sink, port.cmd, port.rdata, x.source
        s = log2_int(dw//8)
        base, length = pin(self, p.base >> s, aw), pin(self, p.length >> s, aw)
        hold, pp = Signal(), Signal(64)
        # a started read goes on until the parameters are taken
        self.sync += hold.eq(p.valid & (p.ready == 0)), pp.eq(Cat(p.base, p.length))
        self.require("parameters_held", Imp(hold, p.valid, Cat(p.base, p.length) == pp))
        first = x.delay_base.storage if genlock else 0
        if genlock:
            ds = Signal(32)
            self.sync += ds.eq(x.delay_base.storage)
            self.require("delay_constant", Imp(hold, x.delay_base.storage == ds))
            self.require("delay_inside_frame", x.delay_base.storage < length)
        self.require("frame_not_empty", length != 0)
        # address generation
        n = Signal(aw, name_override="n")
        go = pin(self, cmd.valid & cmd.ready, 1)
        last = pin(self, n == length - 1, 1)
        self.sync += If(go, n.eq(Mux(last, first, n + 1))).Elif(Not(hold), n.eq(first))
        self.ensure("address_sequence", Imp(cmd.valid, cmd.addr == (base + n)[:aw], Not(cmd.we)))
        self.ensure("parameters_taken_with_last_word", p.ready == (go & last))
        if genlock:
            # the next frame waits for a new vertical sync of the reference
            v = delay(self, g.vsync, 2)
            rise = delay(self, pin(self, v[1] & (v[2] == 0), 1), 1)[1]
            wait = Signal(name_override="await_sync")
            self.sync += If(go & last, wait.eq(1)).Elif(rise, wait.eq(0))
            self.ensure("waits_for_reference_vsync", Imp(wait, Not(cmd.valid)))
            self.term(wait), self.term(rise)
        else:
            wait = 0
        # one cycle to start, then reads are offered whenever there is room
        busy = Signal(name_override="reading")
        self.sync += If(busy, If(go & last, busy.eq(0))).Elif(And(p.valid, Not(wait)), busy.eq(1))
        self.guard(busy), self.term(busy), self.guard(And(Not(busy), Not(wait)))
        self.ensure("flush_exactly_without_work", Iff(port.flush, And(Not(busy), Not(wait), Not(p.valid))))
        if genlock:
            self.guard(wait), self.hint(Not(And(busy, wait)))
        # data
        out = Signal(max=depth + 1, name_override="outstanding")
        resp = pin(self, rd.valid & rd.ready, 1)
        self.sync += out.eq(out + go - resp)
        self.require("memory_answers_reads", Imp(rd.valid, out != 0))
        self.ensure("reads_only_for_parameters", Imp(cmd.valid, busy))
        front, lvl = ring(self, "sys", depth, pin(self, Cat(rd.data, rd.first, rd.last), dw + 2), resp, o.valid & o.ready, o.valid)
        self.ensure("never_more_reads_than_room", Imp(go, out + lvl < depth))
        self.ensure("keeps_reading", Imp(And(busy, out + lvl < depth), cmd.valid))
        self.ensure("answer_never_refused", Imp(rd.valid, rd.ready))
        # a received word is presented two cycles after it is the oldest one, at most
        l1, popped = delay(self, pin(self, lvl != 0, 1), 2), delay(self, pin(self, o.valid & o.ready, 1), 2)
        self.ensure("word_presented", Imp(And(*l1, *[Not(p_) for p_ in popped[1:]]), o.valid))
        self.ensure("words_in_order", Imp(o.valid, lvl != 0, o.data == front[:dw]))
        self.hint(pin(self, out + lvl, 8) <= depth)
        self.term(pin(self, out + lvl, len(out) + 1))
        self.term(n), self.term(base), self.term(length)
        self.guard(hold)
        self.cover("word", o.valid)
        self.cover("frame_done", p.ready)
        self.watch = [p.valid, p.ready, p.base, p.length, cmd.valid, cmd.ready, cmd.addr, rd.valid, rd.ready, rd.data, o.valid, o.ready, o.data]

        def driver(rng, t, put, get):
            if t == 0:
                self.longest = rng.choice([12, 12, 300, 5000]) if self.searching else 12
                self.b, self.l = rng.getrandbits(32), rng.randrange(1, self.longest) << s
                self.pv, self.pr, self.pd, self.pc = [rng.choice([1, 0.5, 0.1]) for _ in range(4)]
            if not get(hold):
                put(p.valid, int(rng.random() < self.pv))
                if rng.random() < 0.3:
                    self.b, self.l = rng.getrandbits(32), rng.randrange(1, self.longest) << s
            else:
                put(p.valid, 1)
            if genlock:
                put(g.vsync, int(rng.random() < 0.3))
                put(x.delay_base.storage, get(ds) if get(hold) else rng.randrange(2) * rng.randrange(self.l >> s))
            put(p.base, self.b), put(p.length, self.l)
            put(rd.valid, int(rng.random() < self.pd) & int(get(out) != 0))
            put(o.ready, int(rng.random() < self.pr))
            put(cmd.ready, int(rng.random() < self.pc))
        self.driver = driver


def obligations(tier):
    for dw, aw, depth in ((16, 27, 4), (32, 26, 8), (64, 25, 4), (32, 26, 16), (64, 25, 16), (32, 26, 32), (128, 24, 4), (64, 25, 64)) if tier != "quick" else ((32, 26, 4), (16, 27, 8), (64, 25, 4)):
        yield "DMAReader/%d/depth%d" % (dw, depth), lambda dw=dw, aw=aw, depth=depth: Reader(dw, aw, depth)
    yield "DMAReader/32/depth4/genlock", lambda: Reader(32, 26, 4, True)
