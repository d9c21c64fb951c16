"""C16: input DMA: whole frames into loaded slots."""
from .common import *
from litevideo.input.dma import DMA
from litedram.common import LiteDRAMNativePort


class Frames(Contract):
    sim_cycles = 400
    search_cycles = (400, 1600, 20000)
    learn_implications = False

    def __init__(self, dw, aw, nslots):
        Contract.__init__(self)
        self.functions = ["DMA(dw=%d,nslots=%d)" % (dw, nslots), "_SlotArray", "_Slot"]
        port = LiteDRAMNativePort("write", aw, dw)
        x = self.submodules.dut = DMA(port, nslots)
        s = log2_int(dw//8)
        csr = {c.name: c for c in x.get_csrs()}
        # the real register code (bus write and update by the device)
        for c in csr.values():
            c.finalize(32, "big")
            self.submodules += c
        self.interface(x, port.cmd, port.wdata, x.frame)
        f, cmd, wd = x.frame, port.cmd, port.wdata
        wr = {}
        for n in ["frame_size", "ev_enable"] + ["slot%d_%s" % (i, r) for i in range(nslots) for r in ("status", "address")]:
            sc, = csr[n].get_simple_csrs()
            wr[n] = (sc.re, sc.r)
            self.open |= {sc.re, sc.r}
        # registers as software sees them
        done = Signal(name_override="frame_done")
        cur = Signal(max=nslots, name_override="slot")
        end = Signal(aw, name_override="end")
        st, ad = [], []
        for i in range(nslots):
            a, b = Signal(2, name_override="status%d" % i), Signal(aw + s, name_override="address%d" % i)
            st.append(a), ad.append(b)
            here = pin(self, done & (cur == i), 1)
            self.sync += [If(here, a.eq(2), b.eq(end << s)),
                          If(wr["slot%d_status" % i][0], a.eq(wr["slot%d_status" % i][1])),
                          If(wr["slot%d_address" % i][0], b.eq(wr["slot%d_address" % i][1]))]
            self.ensure("status_of_slot%d" % i, csr["slot%d_status" % i].storage == a)
            self.ensure("address_of_slot%d" % i, csr["slot%d_address" % i].storage == b)
            # a loaded slot belongs to the device
            self.require("loaded_slot%d_not_written" % i, Imp(a[0], Not(wr["slot%d_status" % i][0]), Not(wr["slot%d_address" % i][0])))
        size = Signal(aw + s, name_override="frame_size")
        self.sync += If(wr["frame_size"][0], size.eq(wr["frame_size"][1]))
        words = pin(self, size >> s, aw)
        # frame stream: held until taken
        hold, held = Signal(), Signal(1 + dw)
        self.sync += hold.eq(f.valid & (f.ready == 0)), held.eq(Cat(f.sof, f.pixels))
        self.require("frame_words_held", Imp(hold, f.valid, Cat(f.sof, f.pixels) == held))
        # lowest-numbered loaded slot, kept until its frame is done
        loaded = pin(self, Array([q[0] for q in st])[cur], 1)
        pick = cur
        for i in reversed(range(nslots)):
            pick = Mux(st[i][0], i, pick)
        self.sync += If(Not(loaded) | done, cur.eq(pick))
        # a frame in progress
        busy, drain = Signal(name_override="writing"), Signal(name_override="drain")
        base, total, n = Signal(aw, name_override="base"), Signal(aw, name_override="total"), Signal(aw, name_override="n")
        go = pin(self, cmd.valid & cmd.ready, 1)
        start = pin(self, And(Not(busy), Not(drain), loaded, f.valid, f.sof), 1)
        lastw = pin(self, go & (n == total - 1), 1)
        slot_base = pin(self, Array(ad)[cur] >> s, aw)
        self.sync += [If(start, busy.eq(1), n.eq(0), base.eq(slot_base), total.eq(words)),
                      If(go, n.eq(n + 1)), If(lastw, busy.eq(0), drain.eq(1)), If(done, drain.eq(0))]
        self.require("frame_size_not_null", Imp(start, words != 0))
        self.ensure("writes_stay_in_the_slot", Imp(cmd.valid, busy, loaded, cmd.we, n < total, cmd.addr == (base + n)[:aw]))
        # words on their way to memory
        cells = [Signal(dw, name_override="word%d" % i) for i in range(16)]
        W, R, lvl = Signal(4, name_override="W"), Signal(4, name_override="R"), Signal(5, name_override="queued")
        take = pin(self, busy & f.valid & f.ready, 1)
        pop = pin(self, wd.valid & wd.ready, 1)
        self.sync += [If(take, Case(W, {i: c.eq(f.pixels) for i, c in enumerate(cells)}), W.eq(W + 1)),
                      If(pop, R.eq(R + 1)), lvl.eq(lvl + take - pop)]
        front = pin(self, Array(cells)[R], dw)
        self.comb += done.eq(drain & (lvl == 0)), end.eq(pin(self, base + total, aw))
        self.ensure("first_word_of_frame", Imp(go & (n == 0), f.sof))
        self.ensure("each_word_written_once", Imp(busy | go, go == take))
        self.ensure("keeps_writing", Imp(And(busy, f.valid, lvl < 16), cmd.valid))
        self.ensure("data_in_order", Imp(wd.valid, lvl != 0, wd.data == front, wd.we == 2**(dw//8) - 1))
        self.ensure("data_presented", Imp(lvl != 0, wd.valid))
        self.ensure("words_between_frames_dropped", Imp(And(Not(busy), Not(drain)), f.ready == Or(Not(loaded), Not(f.sof))))
        self.ensure("next_frame_kept", Imp(drain, f.ready == 0))
        # a slot loaded in time is used
        was = Signal()
        self.sync += was.eq(And(Not(busy), Not(drain), Or(*[q[0] for q in st])))
        self.ensure("loaded_slot_is_used", Imp(And(was, Not(busy)), loaded))
        en = Signal(nslots, name_override="irq_enable")
        self.sync += If(wr["ev_enable"][0], en.eq(wr["ev_enable"][1]))
        self.ensure("irq", x.ev.irq == Or(*[st[i][1] & en[i] for i in range(nslots)]))
        # facts
        for i, c in enumerate(cells):
            d = pin(self, Constant(i, 4) - R, 4)
            self.guard(d < lvl), self.term(c)
        for t in (W, R, lvl, n, base, total, cur, pin(self, base + n, aw), pin(self, total - n, aw), slot_base, words):
            self.term(t)
        self.hint(pin(self, W - R, 4) == lvl[:4]), self.hint(lvl <= 16)
        self.hint(Not(And(busy, drain))), self.hint(Imp(busy, n < total)), self.hint(Imp(drain, n == total)), self.hint(Imp(Or(busy, drain), loaded))
        self.hint(Imp(busy & (n == 0), f.valid, f.sof))
        self.hint(Imp(busy & (n == 0), hold, held[0]))
        self.guard(busy), self.guard(drain), self.guard(And(Not(busy), Not(drain))), self.term(busy), self.term(drain)
        self.cover("done", done), self.cover("second_slot", And(go, cur == 1))
        self.watch = [f.valid, f.ready, f.sof, f.pixels, cmd.valid, cmd.ready, cmd.addr, wd.valid, wd.ready, wd.data, cur, busy, drain, n] + st

        def driver(rng, t, put, get):
            if t == 0:
                self.longest = rng.choice([8, 8, 300, 5000]) if self.searching else 8
                self.p = [rng.choice([1, 0.5, 0.2]) for _ in range(4)]
            if not get(hold):
                put(f.valid, int(rng.random() < self.p[0])), put(f.sof, int(rng.random() < 0.3)), put(f.pixels, rng.getrandbits(dw))
            else:
                put(f.valid, 1), put(f.sof, get(held) & 1), put(f.pixels, get(held) >> 1)
            put(cmd.ready, int(rng.random() < self.p[1])), put(wd.ready, int(rng.random() < self.p[2]))
            put(wr["frame_size"][0], int(t == 0 or rng.random() < 0.4/self.longest)), put(wr["frame_size"][1], rng.randrange(1, self.longest) << s | rng.randrange(1 << s))
            put(wr["ev_enable"][0], int(rng.random() < 0.1)), put(wr["ev_enable"][1], rng.getrandbits(nslots))
            for i in range(nslots):
                ok = not get(st[i]) & 1
                put(wr["slot%d_status" % i][0], int(ok and t > 3 and rng.random() < 0.2)), put(wr["slot%d_status" % i][1], rng.choice([1, 1, 0, 2]))
                put(wr["slot%d_address" % i][0], int(ok and rng.random() < 0.2)), put(wr["slot%d_address" % i][1], rng.getrandbits(aw + s))
        self.driver = driver


def obligations(tier):
    for dw, aw, n in ((32, 26, 2), (16, 27, 3), (64, 25, 4), (128, 24, 2)) if tier == "quick" else ((32, 26, 2), (16, 27, 3), (64, 25, 4), (128, 24, 2), (256, 23, 2), (32, 26, 8)):
        yield "dw%d/%d slots" % (dw, n), lambda dw=dw, aw=aw, n=n: Frames(dw, aw, n)
