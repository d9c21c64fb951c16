"""C18: video timing generator."""
from .common import *
from litevideo.output.core import TimingGenerator
from litevideo.output.common import frame_parameter_layout, frame_timing_layout, hbits, vbits
from litex.soc.interconnect import stream


def legal(s):
    """the parameters describe a frame: active area, then sync pulse, then at least one more position"""
    return And(s.hres != 0, s.hres <= s.hsync_start, s.hsync_start < s.hsync_end, s.hsync_end <= s.hscan,
               s.vres != 0, s.vres <= s.vsync_start, s.vsync_start < s.vsync_end, s.vsync_end <= s.vscan)


class Raster:
    """ghost raster position of the presented item: `on` false = blank item before the first frame"""
    def __init__(self, mod, cd, valid, accepted, p):
        self.on = Signal(name_override="on")
        self.x, self.y = Signal(hbits, name_override="x"), Signal(vbits, name_override="y")
        on, x, y = self.on, self.x, self.y
        self.eol, self.eof = x == p.hscan, And(x == p.hscan, y == p.vscan)
        tick(mod, cd, If(Not(valid), on.eq(0), x.eq(0), y.eq(0)
            ).Elif(accepted,
                on.eq(1),
                If(Not(on) | self.eof, x.eq(0), y.eq(0)
                ).Elif(self.eol, x.eq(0), y.eq(y + 1)
                ).Else(x.eq(x + 1))))
        self.de = pin(mod, And(on, x < p.hres, y < p.vres), 1)
        self.hsync = pin(mod, And(on, x >= p.hsync_start, x < p.hsync_end), 1)
        self.vsync = pin(mod, And(on, y >= p.vsync_start, y < p.vsync_end), 1)
        self.last = pin(mod, And(on, self.eof), 1)


def raster_facts(mod, r, hold, pp):
    # facts about the reached states: the presented position in terms of the parameters of the
    # previous cycle (`hold`: still the same ones; otherwise a frame has just been completed)
    h, off = {}, 0
    for n, w in frame_parameter_layout:
        h[n] = pp[off:off + w]
        off += w
    Hh = Q(h)
    nx, ny = Signal(hbits, name_override="next_x"), Signal(vbits, name_override="next_y")
    eol = r.x == Hh.hscan
    mod.comb += If(r.on, If(And(eol, r.y == Hh.vscan), nx.eq(0), ny.eq(0)).Elif(eol, nx.eq(0), ny.eq(r.y + 1)).Else(nx.eq(r.x + 1), ny.eq(r.y)))
    mod.term(nx), mod.term(ny), mod.term(r.x), mod.term(r.y)
    ha = pin(mod, And(r.on, r.x < Hh.hres), 1)
    va = pin(mod, And(r.on, r.y < Hh.vres), 1)
    hs = pin(mod, And(r.on, r.x >= Hh.hsync_start, r.x < Hh.hsync_end), 1)
    vs = pin(mod, And(r.on, r.y >= Hh.vsync_start, r.y < Hh.vsync_end), 1)
    la = pin(mod, And(r.on, eol, r.y == Hh.vscan), 1)
    for s in (ha, va, hs, vs, la):
        mod.term(s)
    mod.hint(Imp(r.on, legal(Hh)), "legal")
    mod.hint(Imp(r.on, r.x <= Hh.hscan, r.y <= Hh.vscan), "inside")
    mod.hint(Imp(And(r.on, Not(hold)), r.x == 0, r.y == 0), "fresh")


class Timing(Contract):
    learn_implications = False
    sim_cycles = 600
    search_cycles = (600, 3000, 60000)

    def __init__(self):
        Contract.__init__(self)
        self.functions = ["TimingGenerator"]
        t = self.submodules.dut = TimingGenerator()
        self.interface(t)
        self.port_widths(*[(getattr(t.sink, n), 12) for n, _ in frame_parameter_layout])
        p, o = t.sink, t.source
        params = Cat(*[getattr(p, n) for n, _ in frame_parameter_layout])
        # stream rule: parameters stay until taken
        hold, pp = Signal(), Signal(len(params))
        self.sync += hold.eq(p.valid & (p.ready == 0)), pp.eq(params)
        self.require("parameters_held", Imp(hold, p.valid, params == pp))
        self.require("legal_parameters", Imp(p.valid, legal(p)))
        r = Raster(self, "sys", p.valid, o.ready, p)
        self.ensure("item_per_parameter_set", o.valid == p.valid)
        self.ensure("de_in_active_area", Imp(p.valid, o.de == r.de))
        self.ensure("hsync_position", Imp(p.valid, o.hsync == r.hsync))
        self.ensure("vsync_position", Imp(p.valid, o.vsync == r.vsync))
        self.ensure("last_of_frame", Imp(p.valid, o.last == r.last))
        self.ensure("parameters_taken_with_last", Imp(p.valid, p.ready == (o.ready & r.last)))
        # between frames nothing is asserted
        v = p.valid
        raster_facts(self, r, hold, pp)
        self.guard(r.on)
        self.cover("de", And(o.valid, o.de))
        self.cover("last", And(o.valid, o.last))
        self.watch = [p.valid, p.ready, o.ready, o.de, o.hsync, o.vsync, o.last]

        def driver(rng, tt, put, get):
            n = [nm for nm, _ in frame_parameter_layout]
            if tt == 0:
                self.cur, self.pr = None, rng.choice([1, 0.5, 0.9])
            if self.cur is None or self.was_taken:
                self.cur = [1]*8
                big = rng.choice([None, 0, 4]) if self.searching else None
                for b in (0, 4):
                    if b == big:
                        self.cur[b:b + 4] = sorted(rng.randrange(1, 4096) for _ in range(4))
                        continue
                    a = rng.randrange(1, 4)
                    s = a + rng.randrange(2)
                    e = s + 1 + rng.randrange(2)
                    self.cur[b:b + 4] = [a, s, e, e + rng.randrange(3)]
                self.v = int(rng.random() < 0.8)
            for i, nm in enumerate(n):
                put(getattr(p, nm), self.cur[i])
            put(p.valid, self.v)
            put(o.ready, int(rng.random() < self.pr))
            self.was_taken = not self.v or get(p.ready)
        self.was_taken = True
        self.driver = driver


class Q:
    def __init__(self, d):
        self.__dict__.update(d)


class Genlock(Contract):
    def __init__(self):
        Contract.__init__(self)
        self.functions = ["TimingGenerator(genlock_stream)"]
        g = stream.Endpoint(frame_timing_layout)
        t = self.submodules.dut = TimingGenerator(g)
        self.interface(t)
        self._open(g, 0)
        o = t.source
        self.ensure("follows_the_genlock_source", And(*[getattr(o, n) == getattr(g, n) for n in ("valid", "de", "hsync", "vsync")]))
        self.ensure("ready_passed_back", g.ready == o.ready)
        self.cover("de", o.de)


def obligations(tier):
    yield "TimingGenerator", Timing
    yield "genlock", Genlock
