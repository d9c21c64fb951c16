"""C17: EDID slave (I2C) and default EDID."""
from .common import *
from litevideo.input.edid import EDID, _default_edid
from migen.genlib.record import Record

ADDRESS = 0x50
IDLE, ADDR, ADDR_ACK, OFFSET, OFFSET_ACK, READ, MASTER_ACK = range(7)
PERIOD = 64                 # cycles between two looks at the bus


class Slave(Contract):
    learn_implications = False
    sim_cycles = 24000
    sim_traces = 8
    k = 5

    def __init__(self, contents, pads_layout, open_drain, inverted=()):
        Contract.__init__(self)
        self.functions = ["EDID(%d bytes, %s)" % (len(contents), "sda_pd" if open_drain else "tristate")]
        pads = Record(pads_layout)
        for name in inverted:
            getattr(pads, name).inverted = True
        high = lambda name: Not(getattr(pads, name)) if name in inverted else getattr(pads, name)
        x = self.submodules.dut = EDID(pads, contents)
        self.interface(x, pads)
        enabled = x._hpd_en.storage if hasattr(pads, "hpd_en") else 1
        # an open-drain bus reads low while the slave pulls
        pull = pads.sda_pd if open_drain else x.sda_oe
        if open_drain:
            self.require("open_drain_bus", Imp(pull, Not(high("sda"))))
        # the bus as seen every PERIOD cycles
        count, look = Signal(max=PERIOD, name_override="age"), Signal(name_override="look")
        S, D, S1, D1 = [Signal(name_override=n) for n in ("scl", "sda", "scl_before", "sda_before")]
        scl, sda = delay(self, pin(self, high("scl"), 1), 2)[2], delay(self, pin(self, high("sda"), 1) if open_drain else pin(self, And(pads.sda, Not(pull)), 1), 2)[2]
        self.sync += [count.eq(count + 1), look.eq(count == PERIOD - 1), If(look, S.eq(scl), D.eq(sda)), S1.eq(S), D1.eq(D)]
        start = pin(self, And(S, S1, D1, Not(D)), 1)
        rise, fall = pin(self, And(S, Not(S1)), 1), pin(self, And(S1, Not(S)), 1)
        # reference I2C memory
        size = log2_int(len(contents))
        ph, n, sh, rd, off, drv = [Signal(w, name_override=m) for m, w in (("phase", 3), ("bits", 4), ("byte", 8), ("is_read", 1), ("offset", size), ("drive", 1))]
        word = pin(self, Array([Constant(v, 8) for v in contents])[off], 8)
        bit = pin(self, Array([word[7 - i] for i in range(8)])[n[:3]], 1)
        # a byte after the offset, without a new start, is not an EDID access: how it is answered is open
        late, after = Signal(name_override="after_offset"), Signal(name_override="undefined")
        self.sync += [
            If(start, ph.eq(ADDR), n.eq(0), drv.eq(0), late.eq(0), after.eq(0)
            ).Elif(rise,
                If(n == 8,
                    n.eq(0),
                    If(ph == MASTER_ACK, off.eq(off + 1), ph.eq(Mux(D, IDLE, READ)))
                ).Else(
                    n.eq(n + 1), sh.eq(Cat(D, sh[:7]))
                )
            ).Elif(fall,
                Case(ph, {
                    ADDR: If(n == 8, after.eq(late), If(sh[1:] == ADDRESS, ph.eq(ADDR_ACK), rd.eq(sh[0]), drv.eq(1)).Else(ph.eq(IDLE))),
                    ADDR_ACK: If(n == 0, ph.eq(Mux(rd, READ, OFFSET)), drv.eq(rd & (word[7] == 0))),
                    OFFSET: If(n == 8, ph.eq(OFFSET_ACK), drv.eq(1)),
                    OFFSET_ACK: If(n == 0, ph.eq(ADDR), drv.eq(0), late.eq(1)),
                    READ: If(n == 8, ph.eq(MASTER_ACK), drv.eq(0)).Else(drv.eq(bit == 0)),
                })),
            If(And(ph == OFFSET, n == 8), off.eq(sh)),
            If(Not(enabled), ph.eq(IDLE), drv.eq(0), late.eq(0), after.eq(0))]
        en = delay(self, pin(self, enabled, 1), 4)
        settled = pin(self, And(count >= 5, *en) if hasattr(pads, "hpd_en") else (count >= 5), 1)
        self.ensure("sda_driven_as_i2c_slave", Imp(And(settled, Not(after)), pull == drv))
        # SDA only changes while SCL is low (or at a start / when disabled)
        p1 = delay(self, pull, 1)[1]
        if hasattr(pads, "hpd_en"):
            self.ensure("stable_while_scl_high", Imp(And(S, S1, count >= 5, *en), pull == p1))
            off6 = pin(self, And(*[Not(e) for e in en]), 1)
            self.ensure("released_when_disabled", Imp(off6, Not(pull)))
            self.ensure("hot_plug_enable", pads.hpd_en == x._hpd_en.storage)
        if open_drain:
            self.ensure("never_pulled_up", pads.sda_pu == 0)
        if hasattr(pads, "hpd_notif"):
            self.ensure("hot_plug_status", x._hpd_notif.status == delay(self, pin(self, high("hpd_notif"), 1), 2)[2])
        else:
            self.ensure("hot_plug_status", x._hpd_notif.status == 1)
        # facts
        rest = count >= 2
        match = sh[1:] == ADDRESS
        for g in [ph == IDLE, And(ph == ADDR, n != 8), And(ph == ADDR, n == 8, match), And(ph == ADDR, n == 8, Not(match)),
                  And(ph == ADDR_ACK, n == 8), And(ph == ADDR_ACK, n != 8), And(ph == OFFSET, n != 8), And(ph == OFFSET, n == 8),
                  And(ph == OFFSET_ACK, n == 8), And(ph == OFFSET_ACK, n != 8), And(ph == READ, n == 0, S), And(ph == READ, Not(S)), And(ph == READ, S, n != 0),
                  ph == MASTER_ACK]:
            self.guard(And(g, rest))
            self.guard(And(g, count >= 3))
            self.guard(And(g, count >= 4))
        self.guard(rest), self.guard(count >= 1), self.guard(count == 0), self.guard(count >= 3)
        self.hint(n <= 8), self.hint(ph <= 6)
        for g, h in [(And(ph == READ, Not(S)), n != 8), (And(Or(ph == ADDR, ph == OFFSET), n == 8), S), (And(ph == ADDR_ACK, n != 8), And(S, n == 0)), (And(ph == OFFSET_ACK, n != 8), And(S, n == 0)),
                     (And(Or(ph == ADDR_ACK, ph == OFFSET_ACK, ph == MASTER_ACK), n == 8), Not(S)), (ph == MASTER_ACK, n == 8)]:
            self.hint(Imp(And(g, rest), h))
        self.term(pin(self, Not(drv), 1)), self.term(pin(self, sh[0], 1))
        self.focus = pin(self, count < 7, 1)
        self.hint(Imp(And(count >= 1, S, D), Not(pull))), self.hint(Imp(And(rest, S, D), Not(drv)))
        self.guard_pairs(And(rest, ph != READ))
        self.term(n), self.term(sh), self.term(rd)
        self.term(pin(self, (8 - n)[:4], 4))
        self.term(word), self.term(bit), self.term(off)
        self.cover("read_bit", And(ph == READ, drv, S)), self.cover("ack", And(ph == ADDR_ACK, pull)), self.cover("next_byte", And(ph == READ, off == 2))
        self.watch = [S, D, ph, n, sh, off, drv, pull]

        def driver(rng, t, put, get):
            if t == 0:
                self.q, self.level, self.wait = [], [1, 1], 0
            if self.wait == 0:
                if not self.q:
                    byte = lambda v: [p for i in range(8) for p in ([0, v >> (7 - i) & 1], [1, v >> (7 - i) & 1])] + [[0, 1], [1, 1], [0, 1]]
                    rdb = lambda nack: [[0, 1], [1, 1]]*8 + [[0, nack], [1, nack], [0, nack]]
                    st = [[0, 1], [1, 1], [1, 0], [0, 0]]
                    kind = rng.randrange(7)
                    self.q = st + byte(rng.choice([0xa0, 0xa0, 0xa0, 0xa2, rng.getrandbits(8)])) + byte(rng.getrandbits(8)) + st + byte(0xa1) + rdb(0)*rng.randrange(4) + rdb(1) + [[0, 0], [1, 0], [1, 1]]
                    if kind == 0:
                        self.q = st + byte(rng.getrandbits(8))
                    elif kind == 1:
                        self.q = st + byte(0xa1) + rdb(0)*2 + rdb(1)
                    elif kind == 2:
                        self.q = self.q[:rng.randrange(len(self.q))]
                    elif kind == 3:
                        self.q = st + byte(0xa1) + rdb(0)*2 + rdb(1)
                        self.q = self.q[:rng.randrange(31, len(self.q))] + [[1, 1]]
                self.level = self.q.pop(0)
                self.wait = rng.choice([64, 65, 66])
            self.wait -= 1
            put(pads.scl, self.level[0] ^ ("scl" in inverted))
            put(pads.sda, (self.level[1] & (1 - get(pull))) ^ ("sda" in inverted))
            if hasattr(pads, "hpd_en"):
                put(x._hpd_en.storage, int(rng.random() < 0.9998))
        self.driver = driver


class Default(Contract):
    """the default EDID is one that a source accepts"""
    def __init__(self):
        Contract.__init__(self)
        self.functions = ["_default_edid"]
        x = self.submodules.dut = EDID(Record([("scl", 1), ("sda", 1), ("sda_pu", 1), ("sda_pd", 1)]))
        self.interface(x)
        m = list(x.mem.init)
        ok = lambda c: Constant(int(bool(c)))
        self.ensure("whole_blocks", ok(x.mem.depth == len(m) and len(m) % 128 == 0 and len(m) > 0 and x.mem.width == 8))
        self.ensure("header", ok(m[:8] == [0, 255, 255, 255, 255, 255, 255, 0]))
        self.ensure("version", ok(m[18] == 1 and m[19] >= 3))
        self.ensure("extension_count", ok(m[126] == len(m)//128 - 1))
        self.ensure("checksums", ok(all(sum(m[i:i + 128]) % 256 == 0 for i in range(0, len(m), 128))))
        self.ensure("extension_tags", ok(all(m[i] == 2 and m[i + 1] == 3 for i in range(128, len(m), 128))))
        self.cover("present", ok(m))


def obligations(tier):
    pads = [("scl", 1), ("sda", 1), ("sda_pu", 1), ("sda_pd", 1)]
    hpd = [("hpd_en", 1), ("hpd_notif", 1)]
    yield "sda_pd pads, hot plug", lambda: Slave(_default_edid, pads + hpd, True)
    yield "tristate pads, 128 bytes", lambda: Slave([(i*37 + 11) & 255 for i in range(128)], pads[:2], False)
    yield "inverted pads, no hot plug enable", lambda: Slave([(i*37 + 11) & 255 for i in range(128)], pads + hpd[1:], True, ("scl", "sda", "hpd_notif"))
    yield "default EDID", Default
