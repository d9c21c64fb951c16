"""C24: HDMI period decoding (video, data islands, control) and TERC4."""
from .tmds import *
from litevideo.input.decoding import DecodeTERC4, DecodeTERC4Channel

VGB = (0b1011001100, 0b0100110011, 0b1011001100)
DGB = 0b0100110011
TERC4 = (0b1010011100, 0b1001100011, 0b1011100100, 0b1011100010, 0b0101110001, 0b0100011110, 0b0110001110, 0b0100111100,
         0b1011001100, 0b0100111001, 0b0110011100, 0b1011000110, 0b1010001110, 0b1001110001, 0b0101100011, 0b1011000011)
LATENCY = 2


def member(e, values):
    return Or(*[e == v for v in values])


def index(mod, e, values, w):
    r = 0
    for i, v in enumerate(values):
        r = Mux(e == v, i, r)
    return pin(mod, r, w)


class Periods:
    """ghost recognizer of an HDMI symbol stream (HDMI 1.3a, 5.2): period of the symbol presented now"""
    UNKNOWN, CONTROL, VGB1, VGB2, VIDEO, DGB1, DGB2, ISLAND, TGB1, TGB2 = range(10)

    def __init__(self, mod, valid, raw):
        K = Periods
        self.ctl = ctl = pin(mod, And(*[member(r, TOKENS) for r in raw]), 1)
        anyctl = pin(mod, Or(*[member(r, TOKENS) for r in raw]), 1)
        vgb = pin(mod, And(*[r == v for r, v in zip(raw, VGB)]), 1)
        dgb = pin(mod, And(raw[1] == DGB, raw[2] == DGB, member(raw[0], TERC4[12:])), 1)
        terc = pin(mod, And(*[member(r, TERC4) for r in raw]), 1)
        self.was = was = Signal(4, name_override="period")
        video, island = Signal(4, name_override="video_preamble"), Signal(4, name_override="island_preamble")
        self.video, self.island = video, island
        code = pin(mod, Cat(index(mod, raw[1], TOKENS, 2), index(mod, raw[2], TOKENS, 2)), 4)
        k = self.kind = Signal(4, name_override="kind")
        # after a loss of synchronization, known again from the 8th control symbol in a row
        streak = Signal(3, name_override="streak")
        tick(mod, "pix", streak.eq(Mux(valid & ctl, Mux(streak == 7, 7, streak + 1), 0)))
        self.streak = streak
        # the period this symbol belongs to, if the stream is legal
        nxt = {
            K.UNKNOWN: Mux(And(ctl, streak == 7), K.CONTROL, K.UNKNOWN),
            K.CONTROL: Mux(ctl, K.CONTROL, Mux(vgb, K.VGB1, K.DGB1)),
            K.VGB1: K.VGB2, K.VGB2: K.VIDEO, K.VIDEO: Mux(ctl, K.CONTROL, K.VIDEO),
            K.DGB1: K.DGB2, K.DGB2: K.ISLAND, K.ISLAND: Mux(dgb, K.TGB1, K.ISLAND),
            K.TGB1: K.TGB2, K.TGB2: K.CONTROL}
        mod.comb += If(valid, Case(was, dict([(a, k.eq(b)) for a, b in nxt.items()] + [("default", k.eq(K.UNKNOWN))])))
        ok = lambda c, n: n.eq(Mux(And(valid, ctl, code == c), Mux(n == 8, 8, n + 1), 0))
        tick(mod, "pix", was.eq(k), ok(0b0001, video), ok(0b0101, island))
        legal = {K.UNKNOWN: 1, K.CONTROL: ctl, K.VGB1: And(vgb, video == 8), K.VGB2: vgb, K.VIDEO: Not(anyctl),
                 K.DGB1: And(dgb, island == 8), K.DGB2: dgb, K.ISLAND: terc, K.TGB1: dgb, K.TGB2: dgb}
        l = Signal(name_override="legal")
        mod.comb += Case(k, dict([(a, l.eq(b)) for a, b in legal.items()] + [("default", l.eq(1))]))
        mod.require("legal_hdmi_stream", l)

    def driver(self, rng, raw, was, put, get):
        K = Periods
        if not hasattr(self, "plan") or not self.plan:
            tok = lambda code: [rng.choice(TOKENS), TOKENS[code & 3], TOKENS[code >> 2]]
            p = [tok(rng.choice([0, 0, 4, 15])) for _ in range(rng.randrange(0, 6))]
            isl = rng.random() < 0.5
            pre = tok(5 if isl else 1)
            p += [pre]*8
            if isl:
                g = lambda: [rng.choice(TERC4[12:]), DGB, DGB]
                p += [g(), g()] + [[rng.choice(TERC4) for _ in range(3)] for _ in range(rng.randrange(1, 9))] + [g(), g()]
            else:
                v = lambda: [rng.choice([x for x in (VGB[i], TERC4[3], 0x100 + rng.randrange(40), DGB) if x not in TOKENS]) for i in range(3)]
                p += [list(VGB)]*2 + [v() for _ in range(rng.randrange(1, 9))]
            p += [tok(0)]*rng.choice([1, 9])
            self.plan = p
        for r, v in zip(raw, self.plan.pop(0)):
            put(r, v)


class Dec(Contract):
    learn_implications = False
    k = 10
    sim_cycles = 300

    def __init__(self):
        Contract.__init__(self)
        self.functions = ["DecodeTERC4", "DecodeTERC4Channel"]
        x = DecodeTERC4()
        self.submodules.dut = ClockDomainsRenamer("pix")(x)
        self.interface(x)
        data = [getattr(x, "data_in%d" % i) for i in range(3)]
        self.port_widths(*[(c.raw, 10) for c in data])
        raw = [d.raw for d in data]
        K = Periods
        P = Periods(self, x.valid_i, raw)
        kind = delay(self, P.kind, LATENCY, cd="pix")
        k = kind[LATENCY]
        dvi = delay(self, x.dvimode.storage, 2, cd="pix")[2]
        de0 = delay(self, data[0].de, LATENCY, cd="pix")[LATENCY]
        known = k != K.UNKNOWN
        oneof = lambda *a: Or(*[k == b for b in a])
        self.ensure("video_data_enable", Imp(And(known, Not(dvi)), x.de_o == (k == K.VIDEO)))
        self.ensure("dvi_data_enable", Imp(dvi, x.de_o == de0))
        self.ensure("island_flag", Imp(known, x.encoding_terc4 == oneof(K.DGB1, K.DGB2, K.ISLAND, K.TGB1, K.TGB2)))
        self.ensure("packet_flag", Imp(known, x.encrypting_data == (k == K.ISLAND)))
        self.ensure("video_flag", Imp(known, x.encrypting_video == (k == K.VIDEO)))
        dec = [getattr(x, "data%d_dect4" % i).decval for i in range(3)]
        k1, r1 = kind[1], [delay(self, r, 1, cd="pix")[1] for r in raw]
        for i in range(3):
            self.ensure("nibble%d" % i, Imp(k1 == K.ISLAND, dec[i].d == index(self, r1[i], TERC4, 4)))
            self.ensure("control%d" % i, Imp(k1 == K.CONTROL, dec[i].c_valid, dec[i].c == index(self, r1[i], TOKENS, 2)))
            self.ensure("no_control%d" % i, Imp(And(k1 != K.CONTROL, k1 != K.UNKNOWN), Not(dec[i].c_valid)))
        self.ensure("ctl_code", Imp(k1 == K.CONTROL, x.ctl_code == Cat(index(self, r1[1], TOKENS, 2), index(self, r1[2], TOKENS, 2))))
        # facts
        for j in range(10):
            self.guard(kind[1] == j), self.guard(kind[2] == j)
        self.cover("video", k == K.VIDEO), self.cover("island", k == K.ISLAND), self.cover("end", And(k == K.CONTROL, kind[1] == K.CONTROL))
        self.watch = raw + [P.kind, k, x.de_o, x.encoding_terc4, x.encrypting_data, x.encrypting_video, dvi]

        def driver(rng, t, put, get):
            if t == 0:
                P.plan = []
                self.pv = rng.choice([1, 1, 0.98])
                self.dvi = int(rng.random() < 0.2)
            P.driver(rng, raw, None, put, get)
            put(x.valid_i, int(t > 3 and rng.random() < self.pv))
            put(x.dvimode.storage, self.dvi)
        self.driver = driver


class Channel(Contract):
    """what one channel reports of each symbol (HDMI 1.3a, 5.2.2.1, 5.2.3.3, 5.4.2, 5.4.3)"""
    def __init__(self, n):
        Contract.__init__(self)
        self.functions = ["DecodeTERC4Channel(%d)" % n]
        x = self.submodules.dut = DecodeTERC4Channel(n)
        self.interface(x)
        raw, o = x.data_in.raw, x.decval
        self.port_widths((raw, 10), (o.d, 4), (o.c, 2))
        D = lambda e, w=1: delay(self, pin(self, e, w), 1, cd="pix")[1]
        ok, v = D(x.valid_in), D(raw, 10)
        ctl = And(ok, member(v, TOKENS))
        # the green channel has the same symbol in both kinds of guard bands; blue has none in islands
        vgb, dgb = And(ok, v == VGB[n]), And(ok, v == DGB)
        started = D(Constant(1))
        self.ensure("control", Imp(started, o.c_valid == ctl, Imp(ctl, o.c == index(self, v, TOKENS, 2))))
        self.ensure("video_guard_band", Imp(started, o.vgb == vgb))
        if n:
            self.ensure("data_guard_band", Imp(started, o.dgb == dgb))
            self.ensure("data", Imp(started, o.de == And(ok, Not(ctl), Not(vgb), Not(dgb))))
        else:
            self.ensure("data", Imp(And(started, v != DGB), o.de == And(ok, Not(ctl), Not(vgb))))
        self.ensure("nibble", Imp(member(v, TERC4), o.d == index(self, v, TERC4, 4)))
        self.cover("island", o.dgb), self.cover("video", o.vgb), self.cover("control", o.c_valid)
        self.watch = [x.valid_in, raw, o.c, o.c_valid, o.de, o.dgb, o.vgb, o.d]

        def driver(rng, t, put, get):
            put(raw, rng.choice([rng.choice(TOKENS), VGB[n], DGB, rng.choice(TERC4), rng.getrandbits(10)]))
            put(x.valid_in, rng.random() < 0.9)
        self.driver = driver


def obligations(tier):
    for n in range(3):
        yield "channel %d" % n, lambda n=n: Channel(n)
    yield "DecodeTERC4", Dec
