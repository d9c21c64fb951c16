"""C20: video out core: frames of memory words under the programmed timing."""
from .common import *
from .c15 import queue
from .c18 import Raster, raster_facts, legal, Q
from .c19 import ring
from litevideo.output.core import VideoOutCore
from litevideo.output.common import frame_dma_layout, frame_parameter_layout, frame_timing_layout
from litex.soc.interconnect import stream
from litedram.common import LiteDRAMNativePort


class Core(Contract):
    sim_cycles = 500
    search_cycles = (500, 1500, 10000)
    search_s = 90
    learn_implications = False
    k_local = 2
    learn_bitc = False

    def __init__(self, mode, depth):
        Contract.__init__(self)
        self.functions = ["VideoOutCore(mode=%s,fifo_depth=%d)" % (mode, depth), "Initiator", "TimingGenerator", "DMAReader"]
        dw = {"raw": 32, "rgb": 24, "ycbcr422": 16}[mode]
        pdw = 1 << log2_int(dw, need_pow2=False)
        s, aw = log2_int(pdw//8), 30 - log2_int(pdw//8)
        port = LiteDRAMNativePort("read", aw, pdw, "pix")
        x = self.submodules.dut = VideoOutCore(port, mode, depth)
        i = x.initiator
        names = [n for n, _ in frame_parameter_layout]
        self.interface(x, port.cmd, port.rdata, i)
        self.port_widths((i.base.storage, 32), (i.length.storage, 32), (x.source.data, dw), (x.underflow_counter.status, 32),
                         *[(getattr(i, n).storage, 12) for n in names])
        cmd, rd, o = port.cmd, port.rdata, x.source
        # one base and length while frames are queued; frame geometries may follow each other
        base, length = Signal(32, name_override="base"), Signal(32, name_override="length")
        self.sync += base.eq(i.base.storage), length.eq(i.length.storage)
        b, l = pin(self, base >> s, aw), pin(self, length >> s, aw)
        par = Q({n: getattr(i, n).storage for n in names})
        en = i.enable.storage
        self.require("legal_parameters", Imp(en, legal(par)))
        words = pin(self, Cat(*[getattr(par, n) for n in names], i.base.storage, i.length.storage, Constant(0, 2)))
        taken = Signal(name_override="taken")
        acc, room, vis, front = queue(self, "sys", "pix", 4, words, en, taken)
        cells = self.cells
        W, R = self.words
        self.require("buffer_constant_while_frames_are_queued", Imp(Or(en, W != R), And(i.base.storage == base, i.length.storage == length, l != 0)))
        f, off = {}, 0
        for n, w in frame_parameter_layout:
            f[n] = front[off:off + w]
            off += w
        F = Q(f)
        seen = Signal()
        tick(self, "pix", If(vis, seen.eq(1)))
        item = pin(self, o.valid & o.ready, 1)
        r = Raster(self, "pix", vis, item, F)
        self.comb += taken.eq(item & r.last)
        self.ensure("item_needs_parameters", Imp(o.valid, vis))
        self.ensure("timing_signals", Imp(o.valid, o.de == r.de, o.hsync == r.hsync, o.vsync == r.vsync))
        self.ensure("blanking_needs_no_data", Imp(And(vis, Not(r.de)), o.valid))
        # memory reads
        n = Signal(aw, name_override="n")
        go = pin(self, cmd.valid & cmd.ready, 1)
        busy = Signal(name_override="reading")
        # reads under way when the queue runs empty end at some time: the reader then asks for a flush
        idle = pin(self, port.flush, 1)
        known, was_idle, was = Signal(reset=1, name_override="address_known"), Signal(reset=1, name_override="was_idle"), Signal(name_override="was_visible")
        tick(self, "pix", was_idle.eq(idle), was.eq(vis),
             If(idle, n.eq(0), busy.eq(0), known.eq(1)
             ).Elif(Not(vis), known.eq(0)
             ).Else(If(go, n.eq(Mux(n == l - 1, 0, n + 1))), If(busy, If(go & (n == l - 1), busy.eq(0))).Else(busy.eq(1))))
        self.ensure("address_sequence", Imp(cmd.valid, Not(cmd.we), Imp(vis, cmd.addr == (b + n)[:aw])))
        out = Signal(max=depth + 1, name_override="outstanding")
        resp = pin(self, rd.valid & rd.ready, 1)
        tick(self, "pix", out.eq(out + go - resp))
        self.require("memory_answers_reads", Imp(rd.valid, out != 0))
        self.ensure("answer_never_refused", Imp(rd.valid, rd.ready))
        shown = x.dma.source.valid
        # raw words also cover the blanking; there a missing word does not hold the timing back
        pop = pin(self, Mux(vis, item & ((r.de | shown) if mode == "raw" else r.de), shown), 1)
        self.watch = [x.underflow_enable.storage, x.underflow_update.re, x.underflow_counter.status, en, o.valid, o.ready, o.de, o.hsync, o.vsync, o.data, cmd.valid, cmd.ready, cmd.addr, rd.valid, rd.data]
        fr, lvl = ring(self, "pix", depth, pin(self, Cat(rd.data, rd.first, rd.last), pdw + 2), resp, pop, shown)
        self.require("restarted_when_idle", Imp(And(vis, Not(was)), was_idle, out == 0, lvl == 0))
        self.ensure("room_for_every_read", Imp(go, out + lvl < depth))
        self.ensure("active_pixel_is_next_word", Imp(And(o.valid, o.de), lvl != 0, o.data == fr[:dw]))
        l1, popped = delay(self, pin(self, lvl != 0, 1), 2, cd="pix"), delay(self, pop, 2, cd="pix")
        self.ensure("pixel_presented", Imp(And(vis, *l1, *[Not(p_) for p_ in popped[1:]]), o.valid))
        self.hint(pin(self, out + lvl, 8) <= depth)
        self.term(pin(self, out + lvl, len(out) + 1))
        self.cover("pixel", And(o.valid, o.de))
        # prefetched data is given up exactly while no frame is queued and nothing is being read
        self.ensure("flush_only_between_queued_frames", Imp(idle, Not(vis), Not(cmd.valid)))
        self.ensure("flush_before_the_first_frame", Imp(Not(Or(seen, vis)), idle))
        # facts
        hold, pp = Signal(), Signal(len(words))
        tick(self, "pix", hold.eq(vis & (taken == 0)), pp.eq(front))
        self.hint(Imp(hold, vis, front == pp), "same_front")
        self.hint(Imp(r.on, was, seen), "on_was")
        self.hint(Imp(was, Or(hold, And(r.on == 1, r.x == 0, r.y == 0))), "was_hold")
        raster_facts(self, r, hold, pp)
        where, off = {}, 0
        for nm, w in frame_parameter_layout:
            where[nm] = (off, off + w)
            off += w
        # every queued set is legal and names the same buffer
        for j, c in enumerate(cells):
            f, off = {}, 0
            for nm, w in frame_parameter_layout:
                f[nm] = c[off:off + w]
                off += w
            inq = pin(self, pin(self, j - R, 2) < pin(self, W - R, 3), 1)
            self.hint(Imp(inq, legal(Q(f)), c[off:off + 64] == Cat(base, length)), "cell%d" % j)
        self.hint(Imp(hold, legal(Q({k: pp[v[0]:v[1]] for k, v in where.items()})), pp[96:160] == Cat(base, length)), "legal_front")
        again = Signal(name_override="restarted")
        tick(self, "pix", If(And(vis, Not(was), seen), again.eq(1)))
        at = pin(self, And(known, busy), 1)
        self.term(pin(self, Or(Not(known), busy), 1))
        self.guard(at), self.term(at), self.guard(And(known, Not(busy))), self.guard(known), self.guard(And(at, vis))
        self.hint(Imp(Not(busy), n == 0), "idle_n")
        self.hint(Imp(vis, n < l), "n_range")
        self.hint(Imp(busy, seen), "busy_seen")
        self.hint(Imp(vis, known), "known")
        self.hint(Imp(was_idle, known, Not(busy)), "was_idle")
        self.term(n), self.term(b), self.term(l), self.term(pin(self, (b + n)[:aw], aw))
        self.guard(r.on), self.guard(seen), self.guard(Not(seen))
        # underflow counter
        ue = delay(self, x.underflow_enable.storage, 2, cd="pix")[2]
        t = Signal(name_override="update_no")
        self.sync += If(x.underflow_update.re, t.eq(t == 0))
        T = delay(self, t, 3, cd="pix")
        cnt, st = Signal(32, name_override="underflows"), Signal(32, name_override="status")
        tick(self, "pix", If(ue, If(Not(o.valid), cnt.eq(cnt + 1))).Else(cnt.eq(0)), If(T[2] != T[3], st.eq(cnt)))
        self.ensure("underflow_count", x.underflow_counter.status == st)
        self.watch = [ue, cnt, st] + T + self.watch
        self.cover("item", o.valid), self.cover("frame", taken), self.cover("restarted", And(again, o.valid, o.de))

        def driver(rng, tt, put, get):
            if tt == 0:
                self.pr, self.pd, self.pc = [rng.choice([1, 0.5, 0.1]) for _ in range(3)]
                self.cur, self.en, self.pe, self.age = None, False, rng.choice([0, 0.01, 0.2]), 0
                self.buf = (rng.getrandbits(32), rng.randrange(1, 14) << s)
                self.big = rng.choice([None, 0, 1, 2]) if self.searching else None
            if self.cur is None or rng.random() < 0.02:
                self.cur = []
                for k in range(2):
                    if k == self.big:
                        self.cur += sorted(rng.randrange(1, 4096) for _ in range(4))
                        continue
                    a = rng.randrange(1, 4)
                    st_ = a + rng.randrange(2)
                    e = st_ + 1 + rng.randrange(2)
                    self.cur += [a, st_, e, e + rng.randrange(3)]
            for nm, v in zip(names, self.cur):
                put(getattr(par, nm), v)
            queued = get(W) != get(R)
            if self.en:
                self.en = rng.random() >= self.pe
            else:
                self.en = bool(not queued and get(was_idle) and not get(out) and not get(lvl)) and rng.random() < 0.2 and self.age > 2
            self.age += 1
            if not self.en and not queued and rng.random() < 0.3:
                self.buf, self.age = (rng.getrandbits(32), rng.randrange(1, 14 if self.big is None else 4000) << s), 0
            put(en, int(self.en))
            put(i.base.storage, self.buf[0]), put(i.length.storage, self.buf[1])
            put(rd.valid, int(rng.random() < self.pd) & int(get(out) != 0))
            put(rd.data, rng.getrandbits(pdw))
            put(o.ready, int(rng.random() < self.pr))
            put(cmd.ready, int(rng.random() < self.pc))
        self.driver = driver


class Genlock(Contract):
    """the core under the timing of another source"""
    sim_cycles = 500
    learn_implications = False
    learn_bitc = False
    k_local = 2

    def __init__(self, depth):
        Contract.__init__(self)
        self.functions = ["VideoOutCore(genlock_stream)", "Initiator", "TimingGenerator(genlock_stream)", "DMAReader(genlock_stream)"]
        port = LiteDRAMNativePort("read", 28, 32, "pix")
        g = stream.Endpoint(frame_timing_layout)
        x = self.submodules.dut = VideoOutCore(port, "rgb", depth, g)
        i = x.initiator
        self.interface(x, port.cmd, port.rdata, i, x.dma.delay_base)
        self.port_widths((i.base.storage, 32), (i.length.storage, 32), (x.source.data, 24), (x.dma.delay_base.storage, 32))
        self._open(g, 0)
        cmd, rd, o, en = port.cmd, port.rdata, x.source, i.enable.storage
        # parameters that do not change from the start
        base, length, start = [Signal(32, name_override=n) for n in ("base", "length", "start")]
        ever = Signal(name_override="enabled")
        self.sync += base.eq(i.base.storage), length.eq(i.length.storage), start.eq(x.dma.delay_base.storage), If(en, ever.eq(1))
        b, l, s0 = pin(self, base >> 2, 28), pin(self, length >> 2, 28), pin(self, x.dma.delay_base.storage, 28)
        self.require("parameters_constant", Imp(Or(en, ever), i.base.storage == base, i.length.storage == length, x.dma.delay_base.storage == start,
                                                l != 0, start < l))
        words = pin(self, Cat(*[getattr(i, n).storage for n, _ in frame_parameter_layout], i.base.storage, i.length.storage, Constant(0, 2)))
        acc, room, vis, front = queue(self, "sys", "pix", 4, words, en, Constant(0))
        off = sum(w for _, w in frame_parameter_layout)
        W, R = self.words
        self.hint(R == 0), self.hint(Imp(W != R, ever))
        for j, c in enumerate(self.cells):
            self.hint(Imp(pin(self, pin(self, j - R, 2) < pin(self, W - R, 3), 1), c[off:off + 64] == Cat(base, length)), "cell%d" % j)
        seen = Signal()
        tick(self, "pix", If(vis, seen.eq(1)))
        self.hint(Imp(seen, vis)), self.hint(Imp(vis, ever))
        # reads: once per frame of the reference, from the programmed start on
        n, busy, wait = Signal(28, name_override="n"), Signal(name_override="reading"), Signal(name_override="await_sync")
        v = delay(self, g.vsync, 2, cd="pix")
        rise = delay(self, pin(self, v[1] & (v[2] == 0), 1), 1, cd="pix")[1]
        go = pin(self, cmd.valid & cmd.ready, 1)
        last = pin(self, n == l - 1, 1)
        tick(self, "pix", If(busy, If(go, n.eq(n + 1), If(last, busy.eq(0), wait.eq(1)))
             ).Elif(wait, If(rise, wait.eq(0))
             ).Else(n.eq(s0), If(vis, busy.eq(1))))
        self.ensure("address_sequence", Imp(cmd.valid, busy, cmd.addr == (b + n)[:28], Not(cmd.we)))
        out = Signal(max=depth + 1, name_override="outstanding")
        resp = pin(self, rd.valid & rd.ready, 1)
        tick(self, "pix", out.eq(out + go - resp))
        self.require("memory_answers_reads", Imp(rd.valid, out != 0))
        self.ensure("answer_never_refused", Imp(rd.valid, rd.ready))
        shown = x.dma.source.valid
        pop = pin(self, And(vis, o.valid, o.ready, g.de), 1)
        drop = pin(self, And(Not(vis), shown), 1)
        fr, lvl = ring(self, "pix", depth, pin(self, Cat(rd.data, rd.first, rd.last), 34), resp, pop | drop, shown)
        self.ensure("room_for_every_read", Imp(go, out + lvl < depth))
        self.ensure("keeps_reading", Imp(And(busy, out + lvl < depth), cmd.valid))
        self.ensure("timing_of_the_source", And(o.de == g.de, o.hsync == g.hsync, o.vsync == g.vsync))
        self.ensure("blanking_needs_no_data", Imp(Not(g.de), o.valid == g.valid))
        self.ensure("active_pixel_is_next_word", Imp(And(o.valid, o.de), g.valid, lvl != 0, o.data == fr[:24]))
        self.ensure("source_advances_with_the_output", Imp(vis, g.ready == (o.valid & o.ready)))
        l1, popped = delay(self, pin(self, lvl != 0, 1), 2, cd="pix"), delay(self, pin(self, pop | drop, 1), 2, cd="pix")
        self.ensure("pixel_presented", Imp(And(vis, g.valid, *l1, *[Not(p_) for p_ in popped[1:]]), o.valid))
        self.hint(pin(self, out + lvl, 8) <= depth)
        self.term(pin(self, out + lvl, len(out) + 1))
        self.hint(Imp(And(l1[1], Not(popped[1])), shown))
        self.hint(Not(And(busy, wait))), self.hint(Imp(busy, seen)), self.hint(Imp(wait, seen))
        self.hint(Imp(busy, n < l))
        for e in (busy, wait, And(Not(busy), Not(wait))):
            self.guard(e)
        for e in (busy, wait, n, rise, b, l):
            self.term(e)
        self.cover("pixel", And(o.valid, o.de)), self.cover("second_frame", And(busy, n == s0 + 1, v[1]))
        self.watch = [g.valid, g.de, g.vsync, g.ready, en, o.valid, o.ready, o.de, o.data, cmd.valid, cmd.ready, cmd.addr, rd.valid, rd.data]

        def driver(rng, tt, put, get):
            if tt == 0:
                self.pr, self.pd, self.pc, self.pg = [rng.choice([1, 0.5, 0.1]) for _ in range(4)]
                ln = rng.randrange(1, 9)
                self.p = rng.getrandbits(32), ln << 2, rng.choice([0, rng.randrange(ln)])
            for sig, val in zip((i.base.storage, i.length.storage, x.dma.delay_base.storage), self.p):
                put(sig, val)
            put(en, int(tt > 5))
            put(rd.valid, int(rng.random() < self.pd) & int(get(out) != 0))
            put(rd.data, rng.getrandbits(32))
            put(g.valid, int(rng.random() < self.pg)), put(g.vsync, int(rng.random() < 0.2))
            put(o.ready, int(rng.random() < self.pr))
            put(cmd.ready, int(rng.random() < self.pc))
        self.driver = driver


class BaseChange(Contract):
    """the frame buffer address is part of the parameter set of a frame"""
    sim_cycles = 400

    def __init__(self):
        Contract.__init__(self)
        self.functions = ["VideoOutCore(mode=rgb,fifo_depth=4)"]
        port = LiteDRAMNativePort("read", 28, 32, "pix")
        x = self.submodules.dut = VideoOutCore(port, "rgb", 4)
        i = x.initiator
        self.interface(x, port.cmd, port.rdata, i)
        cmd, rd, o, en = port.cmd, port.rdata, x.source, i.enable.storage
        geometry = dict(hres=2, hsync_start=2, hsync_end=3, hscan=3, vres=2, vsync_start=2, vsync_end=3, vscan=3)
        self.require("geometry", And(*[getattr(i, n).storage == v for n, v in geometry.items()]))
        self.require("length", i.length.storage == 16)
        was = Signal()
        self.sync += was.eq(en)
        self.require("stays_enabled", Imp(was, en))
        n = Signal(2, name_override="active_pixel")
        item = pin(self, o.valid & o.ready, 1)
        pos = Signal(5, name_override="position")
        taken = pin(self, item & (pos == 16), 1)
        acc, room, vis, front = queue(self, "sys", "pix", 4, i.base.storage, en, taken)
        seen = Signal()
        tick(self, "pix", If(vis, seen.eq(1)), If(item, pos.eq(Mux(pos == 16, 1, pos + 1))), If(item & o.de, n.eq(n + 1)))
        self.require("queue_of_parameters_not_empty", Imp(seen, vis))
        out = Signal(3, name_override="outstanding")
        go, resp = pin(self, cmd.valid & cmd.ready, 1), pin(self, rd.valid & rd.ready, 1)
        tick(self, "pix", out.eq(out + go - resp))
        self.require("memory_answers_reads", Imp(rd.valid, out != 0))
        src, lvl = ring(self, "pix", 4, cmd.addr, go, item & o.de, Constant(0))
        self.ensure("pixel_from_the_buffer_of_its_frame", Imp(And(o.valid, o.de), src == (front[2:] + n)[:28]))
        self.watch = [i.base.storage, o.valid, o.ready, o.de, cmd.valid, cmd.ready, cmd.addr]

        def driver(rng, tt, put, get):
            if tt == 0 or rng.random() < 0.02:
                self.b = rng.getrandbits(32)
            for nm, v in geometry.items():
                put(getattr(i, nm).storage, v)
            put(i.length.storage, 16), put(i.base.storage, self.b)
            put(en, int(bool(get(was)) or rng.random() < 0.1))
            put(rd.valid, int(get(out) != 0)), put(o.ready, 1), put(cmd.ready, 1)
        self.driver = driver


def obligations(tier):
    for m in ("rgb", "ycbcr422", "raw"):
        yield m, lambda m=m: Core(m, 4)
    yield "rgb/genlock", lambda: Genlock(4)
    yield "base changes between frames", BaseChange
