"""C10: character synchronization."""
from .tmds import *
from litevideo.input.charsync import CharSync


class Sync(Contract):
    k = 2
    sim_cycles = 300

    def __init__(self, n=8, args=()):
        Contract.__init__(self)
        self.functions = ["CharSync(required_controls=%d)" % n]
        x = self.submodules.dut = CharSync(*args)
        self.interface(x)
        self.port_widths(x, raw_data=10)
        prev = delay(self, x.raw_data, 1, cd="pix")[1]
        win = pin(self, Cat(prev, x.raw_data), 20)
        # offset of the control token in the 20-bit window (bits arrive LSB first)
        pos, found = Signal(4), Signal()
        for i in range(10):
            self.comb += If(Or(*[win[i:i+10] == t for t in TOKENS]), pos.eq(i), found.eq(1))
        found_r, pos_r = delay(self, found, 1, cd="pix")[1], Signal(4)
        tick(self, "pix", If(found, pos_r.eq(pos)))
        lastpos = Signal(4)           # offset of the last token seen before this word
        streak = Signal(max=n + 1)    # consecutive words so far, n for "n or more"
        cyc = Signal(max=n)           # the same, modulo n
        locked, sel = Signal(), Signal(4)
        more = pin(self, found_r & (pos_r == lastpos), 1)
        tick(self, "pix", lastpos.eq(pos_r),
             If(more,
                If(streak >= n - 1, locked.eq(1), sel.eq(pos_r), streak.eq(n)).Else(streak.eq(streak + 1)),
                If(cyc == n - 1, cyc.eq(0)).Else(cyc.eq(cyc + 1))
             ).Else(streak.eq(0), cyc.eq(0)))
        word = delay(self, pin(self, win >> sel, 10), 1, cd="pix")[1]
        self.ensure("synced_after_consecutive_tokens", x.synced == locked)
        self.ensure("word_at_locked_offset", x.data == word)
        st, ps = delay(self, x.synced, 2, cd="sys")[2], delay(self, sel, 2, cd="sys")[2]
        self.ensure("status_synced", x._char_synced.status == st)
        self.ensure("status_position", x._ctl_pos.status == ps)
        self.hint(Imp(found_r == 0, lastpos == pos_r), "last_token")
        self.hint(Imp(streak == n, locked, sel == lastpos), "locked_run")
        self.hint(And(streak <= n, cyc < n, Imp(streak < n, streak == cyc)), "run")
        self.term(pin(self, Mux(streak == n, n - 1, streak), len(cyc))), self.term(cyc), self.guard(more), self.guard(streak != n)
        self.term(streak), self.term(sel), self.term(pos_r), self.term(lastpos)
        self.cover("locked", locked)
        self.cover("relock", And(locked, sel == 7))
        self.cover("offset0", And(locked, sel == 0, streak == 3))

        def driver(rng, t, put, get):
            if t == 0:
                self.left = 0
            if not self.left:
                self.left = rng.choice([40, 40, n, n + 1, n + 2, n + 3, rng.randrange(1, n + 6)])
                self.off, self.tok = rng.randrange(10), rng.choice(TOKENS)
                self.noise = rng.choice([0, 0, 0.05, 1])
            self.left -= 1
            w = rng.getrandbits(10) if rng.random() < self.noise else \
                ((self.tok << self.off) | (self.tok >> (10 - self.off))) & 0x3ff
            put(x.raw_data, w)
        self.driver = driver
        self.watch = [x.raw_data, x.synced, x.data]


def obligations(tier):
    yield "CharSync", Sync
    yield "CharSync(4)", lambda: Sync(4, (4,))
