"""C15: frame extraction (pixels packed into words, crossing to the system clock)."""
from .common import *
from litevideo.input.analysis import FrameExtraction
from litevideo.csc.rgb2ycbcr import RGB2YCbCr


def queue(mod, wcd, rcd, depth, data, wvalid, rready):
    """ghost queue across two clock domains: `wvalid` items that find room are stored, items become
    visible two reader edges after the write, room two writer edges after the read.
    returns (accepted, visible, front)"""
    n = log2_int(depth) + 1
    W, R = Signal(n, name_override="written"), Signal(n, name_override="read")
    gray = lambda x: x ^ (x >> 1)
    W1, W2 = delay(mod, W, 2, cd=rcd)[1:]
    R1, R2 = delay(mod, R, 2, cd=wcd)[1:]
    room = pin(mod, pin(mod, W - R2, n) < depth, 1)
    vis = pin(mod, W2 != R, 1)
    acc, rd = pin(mod, wvalid & room, 1), pin(mod, vis & rready, 1)
    tick(mod, wcd, If(acc, W.eq(W + 1)))
    tick(mod, rcd, If(rd, R.eq(R + 1)))
    cells = [Signal(len(data), name_override="item%d" % i) for i in range(depth)]
    tick(mod, wcd, If(acc, Case(W[:n-1], {i: c.eq(data) for i, c in enumerate(cells)})))
    front = pin(mod, Array(cells)[R[:n-1]], len(data))
    # R2 <= R1 <= R <= W2 <= W1 <= W <= R2 + depth
    chain = [R2, R1, R, W2, W1, W]
    d = [pin(mod, b - a, n) for a, b in zip(chain, chain[1:])]
    mod.hint(pin(mod, sum(d[1:], d[0]), n + 4) <= depth)
    for x in chain:
        mod.term(pin(mod, gray(x), n))
    mod.guard(vis)
    mod.term(front)
    mod.words, mod.cells = (W, R), cells
    return acc, room, vis, front


class Extract(Contract):
    sim_cycles = 500
    learn_implications = False
    slices = True
    k_local = 6

    def __init__(self, mode, width, depth):
        Contract.__init__(self)
        self.functions = ["FrameExtraction(mode=%s,word_width=%d,fifo_depth=%d)" % (mode, width, depth)]
        x = self.submodules.dut = FrameExtraction(width, depth, mode)
        self.interface(x)
        self.port_widths(x, r=8, g=8, b=8)
        vs = delay(self, x.vsync, 1, cd="pix")[1]
        newf = pin(self, x.vsync & (vs == 0), 1)
        if mode == "ycbcr422":
            size, L = 16, 11
            conv = self.submodules.conv = ClockDomainsRenamer("pix")(RGB2YCbCr())
            self.comb += [conv.sink.valid.eq(x.valid_i), conv.sink.r.eq(x.r), conv.sink.g.eq(x.g),
                          conv.sink.b.eq(x.b), conv.source.ready.eq(1)]
            # position in the line of the pixel leaving the converter
            de = delay(self, x.de, L, cd="pix")
            par = Signal()
            tick(self, "pix", par.eq(Mux(de[8] & (de[9] == 0), 1, par == 0)))
            odd = delay(self, pin(self, Mux(de[8] & (de[9] == 0), 0, par), 1), 3, cd="pix")[3]
            y, cb, cr = [delay(self, getattr(conv.source, c), 4, cd="pix") for c in ("y", "cb", "cr")]
            c = Mux(odd, pin(self, (cr[4] + cr[3]) >> 1, 8), pin(self, (cb[3] + cb[2]) >> 1, 8))
            pixel = Cat(y[3], pin(self, c, 8))
            valid = delay(self, conv.source.valid, 3, cd="pix")[3]
            acc = pin(self, valid & de[L], 1)
            # active pixels are apart from the next line and from the next vertical sync
            run = Signal(4, name_override="blank")
            tick(self, "pix", If(x.de, run.eq(0)).Elif(run != 15, run.eq(run + 1)))
            started = delay(self, x.de, 1, cd="pix")[1]
            ever = Signal()
            tick(self, "pix", If(x.de, ever.eq(1)))
            for i in range(1, L + 1):
                self.hint(Imp(run >= i, Not(de[i])))
            rise = [pin(self, de[i] & (de[i+1] == 0), 1) for i in range(9)]
            for i in range(1, 9):
                self.guard(rise[i])
                self.hint(Imp(rise[i], *[Not(de[j]) for j in range(i + 1, L + 1)]))
            self.guard(Not(Or(*rise[1:])))
            self.hint(Imp(And(de[8], run == 0), ever))
            self.hint(Imp(Or(*de[1:]), ever))
            self.term(par)
            self.require("horizontal_blanking", Imp(And(x.de, Not(started), ever), run >= 12))
            self.require("vertical_front_porch", Imp(newf, And(Not(x.de), Or(run >= 12, Not(ever)))))
        else:
            size = 32
            pixel = Cat(x.b, x.g, x.r, Constant(0, 8))
            acc = pin(self, x.valid_i & x.de, 1)
            self.require("vertical_front_porch", Imp(newf, Not(acc)))
        n = width//size
        pos = Signal(max=max(n, 2), name_override="pixel_in_word")
        # each frame starts with a new word: an incomplete word at the end of a frame is given up
        full = pin(self, acc & (pos == n - 1), 1)
        tick(self, "pix", If(newf, pos.eq(0)).Elif(acc, pos.eq(Mux(full, 0, pos + 1))))
        # the first pixel of a word is in its most significant bits
        hist = [pin(self, pixel, size)]
        for i in range(n - 1):
            r = Signal(size, name_override="older_pixel")
            tick(self, "pix", If(acc, r.eq(hist[-1])))
            hist.append(r)
        word, wv, sof = Signal(width, name_override="word"), Signal(name_override="word_valid"), Signal(name_override="first_word")
        tick(self, "pix", wv.eq(full), If(full, word.eq(Cat(*hist))),
             If(newf, sof.eq(1)).Elif(wv, sof.eq(0)))
        f = x.frame
        a, room, vis, front = queue(self, "pix", "sys", depth, pin(self, Cat(sof, word), width + 1), wv, f.ready)
        self.ensure("word_presented_iff_captured", f.valid == vis)
        self.ensure("words_in_order", Imp(vis, f.pixels == front[1:]))
        self.ensure("start_of_frame_on_first_word", Imp(vis, f.sof == front[0]))
        self.term(word), self.term(pos)
        self.guard(wv)
        # overflow reporting; a clear travels to the pixel side and back before the next one
        lost = pin(self, wv & (room == 0), 1)
        clr = Signal(name_override="clear_no")
        re = x._overflow.re
        self.sync += If(re, clr.eq(clr == 0))
        P = delay(self, clr, 3, cd="pix")
        Q = delay(self, P[3], 4)
        chain = P + Q[1:]
        quiet = pin(self, And(*[c == clr for c in chain]), 1)
        self.require("one_clear_at_a_time", Imp(re, quiet))
        self.hint(pin(self, sum([a ^ b for a, b in zip(chain[1:], chain[2:])], chain[0] ^ chain[1]), 4) <= 1)
        # words lost since the last clear took effect
        L = Signal(name_override="lost_words")
        tick(self, "pix", If(lost, L.eq(1)).Elif(P[2] != P[3], L.eq(0)))
        Ld = delay(self, L, 2)
        self.term(L), self.term(pin(self, Q[3] ^ clr, 1), name="clearing")
        self.ensure("overflow_reported", Imp(And(quiet, *Ld), x._overflow.w))
        self.ensure("no_false_overflow", Imp(And(quiet, *[Not(l) for l in Ld]), Not(x._overflow.w)))
        self.cover("word", f.valid)
        self.cover("sof", And(f.valid, f.sof))
        self.cover("overflow", x._overflow.w)
        if n > 1:
            # pixel i of the word under construction is where the code keeps it
            for i in range(1, n):
                self.guard(pos == i)
                self.term(hist[i])
        self.watch = [x.valid_i, x.vsync, x.de, x.r, x.g, x.b, f.valid, f.ready, f.sof, f.pixels, x._overflow.w]

        def driver(rng, t, put, get):
            if t == 0:
                self.lw, self.lb, self.nl, self.ph = rng.choice([4, 8, 5, 7]), rng.randrange(12, 16), rng.randrange(1, 4), rng.randrange(3)
                self.pr = rng.choice([0, 0.02, 0.5, 1])
                self.pv, self.pc = rng.choice([0, 0, 0.1]), rng.choice([0, 0, 0.01, 0.1])
            n = self.lw + self.lb
            line = (t // n) % (self.nl + 1)
            put(x.valid_i, int(rng.random() >= self.pv))
            put(x.de, int(t % n < self.lw and line < self.nl))
            put(x.vsync, int(line == self.nl))
            put(f.ready, int(rng.random() < self.pr))
            put(x._overflow.re, int(rng.random() < self.pc))
        self.driver = driver


def obligations(tier):
    for w in (32, 64):
        for d in (4, 8) if tier == "quick" else (4, 8, 16):
            yield "ycbcr422/%d/depth%d" % (w, d), lambda w=w, d=d: Extract("ycbcr422", w, d)
    for w in (64, 128):
        for d in (4, 8) if tier == "quick" else (4, 8, 16):
            yield "rgb/%d/depth%d" % (w, d), lambda w=w, d=d: Extract("rgb", w, d)
