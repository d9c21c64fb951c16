"""C27: the terminal shows each character cell with its glyph and colors; its memory is on the bus."""
import os
from .common import *
from .c26 import Screen, LINE, FRAME
import litevideo.terminal.core as terminal

PALETTE = [0x000000, 0x0000aa, 0x00aa00, 0x00aaaa, 0xaa0000, 0xaa00aa, 0xaa5500, 0xaaaaaa,
           0x555555, 0x5555ff, 0x55ff55, 0x55ffff, 0xff5555, 0xff55ff, 0xffff55, 0xffffff]
FONT = 80*30*2
DEPTH = FONT + 16*256
HOLD = 16      # pixels a cell's words must have been left alone to be shown


class Bus:
    def bus(self, x):
        """a Wishbone master that keeps a request until it is acknowledged"""
        b = x.bus
        was = Signal(name_override="was_waiting")
        prev = [delay(self, s, 1)[1] for s in (b.adr, b.dat_w, b.we)]
        self.sync += was.eq(And(b.cyc, b.stb, Not(b.ack)))
        self.require("request_kept", Imp(was, b.cyc, b.stb, b.adr == prev[0], b.dat_w == prev[1], b.we == prev[2]))
        self.require("inside", Imp(And(b.cyc, b.stb), b.adr < DEPTH))

        self.guard(And(was, prev[2])), self.term(And(was, prev[2]), 1), self.term(prev[1])

        def driver(rng, t, put, get):
            if t == 0:
                self.active, self.fresh = False, len(self.words) > 1
                self.rate = rng.choice([0, self.access_rate]) if self.fresh else self.access_rate
            self.active = self.active and get(was)
            if not self.active and self.fresh and t >= self.collect_from - 90:
                # new colors for the cell
                self.active, self.fresh = True, False
                put(b.cyc, 1), put(b.stb, 1), put(b.we, 1), put(b.adr, get(self.words[1])), put(b.dat_w, rng.getrandbits(8))
            elif self.active:
                for s, p in zip((b.adr, b.dat_w, b.we), prev):
                    put(s, get(p))
                put(b.cyc, 1), put(b.stb, 1)
            else:
                self.active = rng.random() < self.rate and t >= self.collect_from - 100
                put(b.cyc, self.active), put(b.stb, self.active)
                if self.active:
                    put(b.adr, rng.choice([get(w) for w in self.words] + [rng.randrange(DEPTH)]))
        self.driver = driver
        return b


class Content(Screen, Bus):
    """one arbitrary line of one arbitrary character cell"""
    learn_implications = False
    sim_traces = 12
    slices = True
    collect_from = 24600
    sim_cycles = 39700
    search_cycles = (39700,)
    search_s = 180
    access_rate = 0.01

    def __init__(self):
        Contract.__init__(self)
        x = self.screen()
        mem, = self.mem
        self.ensure("memory_size", fact(mem.depth >= DEPTH and mem.width >= 8))
        self.ensure("initial_contents", fact(list(mem.init) == data("screen-init.bin", FONT) + data("cp437.bin", DEPTH - FONT)))
        draw = {}

        def choose(rng, what):
            if what == "col":
                edge = self.searching and rng.random() < 0.5
                for _ in range(200):
                    draw.update(col=rng.choice([0, 79, rng.randrange(80)] if edge else [rng.randrange(80)]), row=rng.randrange(2))
                    draw["line"] = rng.randrange(2 if draw["row"] else 16)
                    if edge:
                        draw["line"] = 0 if draw["row"] else rng.choice([0, 15])
                    draw["code"] = 160*draw["row"] + 2*draw["col"]
                    draw["color"] = draw["code"] + 1
                    draw["font"] = FONT + 16*mem.init[draw["code"]] + draw["line"]
                    if edge or mem.init[draw["font"]] not in (0, 255):
                        break
            return draw[what]
        col, row = self.rigid(7, "col", lambda r: choose(r, "col")), self.rigid(5, "row", lambda r: choose(r, "row"))
        line, a_font = self.rigid(4, "line", lambda r: choose(r, "line")), self.rigid(14, "font_address", lambda r: choose(r, "font"))
        self.require("cell_on_screen", And(col < 80, row < 30))
        a_code, a_color = pin(self, 160*row + 2*col, 14, "code_address"), pin(self, 160*row + 2*col + 1, 14, "color_address")
        self.words = [a_code, a_color, a_font]
        words = [self.word(mem, a, lambda r, n=n: mem.init[draw[n]]) for a, n in zip(self.words, ("code", "color", "font"))]
        self.bus(x)
        # contents at the latest pixel clock edge, and for how many edges they have been the same
        seen, held = [], Signal(max=HOLD + 1, name_override="held")
        for w, n in zip(words, ("code", "color", "glyph")):
            s = Signal(8, name_override="seen_" + n)
            tick(self, "vga", s.eq(w))
            seen.append(s)
        same = pin(self, And(*[a == b for a, b in zip(seen, words)]), 1)
        tick(self, "vga", If(Not(same), held.eq(0)).Elif(held != HOLD, held.eq(held + 1)))
        code, color, glyph = seen
        pal = lambda i: Array(Constant(c, 24) for c in PALETTE)[i]
        fg, bg = pin(self, pal(color[:4]), 24, "foreground"), pin(self, pal(color[4:]), 24, "background")
        is_glyph = pin(self, a_font == FONT + 16*code + line, 1, "is_glyph")
        first_x, this_y = LINE["first"] + 8*col, FRAME["first"] + 16*row + line
        o = pin(self, self.x - first_x, 10, "pixel_of_cell")
        shown = pin(self, And(self.on, self.y == this_y, self.x >= first_x, self.x < first_x + 8, held == HOLD, is_glyph), 1, "shown")
        rgb = Cat(x.blue, x.green, x.red)
        self.ensure("pixel_of_the_glyph_in_its_colors", Imp(shown, rgb == Mux((glyph << o[:3])[7], fg, bg)))
        # vocabulary: what is expected, position by position
        nx, ny = self.nx, self.ny
        fetch = pin(self, nx - (LINE["first"] - 8) , 10)
        text = pin(self, And(ny >= FRAME["first"], ny < FRAME["end"]), 1)
        self.guard(text)
        text_row, text_line = pin(self, (ny - FRAME["first"]) >> 4, 5), pin(self, (ny - FRAME["first"])[:4], 4)
        self.term(text_row)
        start = self.term(160*text_row, 16)
        self.term(text_line, 4)
        self.term(nx[:3], 3)
        self.guard(And(ny == FRAME["first"] - 1, nx != 0))
        self.guard(And(text, nx >= LINE["first"] - 8, nx < LINE["end"]))
        ph = nx[:3]
        self.term(start + 2*fetch[3:] + Mux(ph >= 3, 2, Mux(ph == 2, 1, 0)), 16)
        base = pin(self, And(ny == this_y, nx >= first_x - 8), 1)
        at = pin(self, nx - (first_x - 8), 10)
        ok = pin(self, And(base, at < 17, held >= at), 1)
        okg = pin(self, And(ok, is_glyph), 1)
        self.focus = pin(self, Or(ok, And(ny == this_y, nx + 8 >= first_x, at < 20)), 1)
        # the three addresses of a cell, at every phase of the fetch
        fetching = pin(self, And(text, nx >= LINE["first"] - 8, nx < LINE["end"]), 1)
        for j in range(3):
            self.term(start + 2*fetch[3:] + j, 16)
        for i in range(8):
            self.guard(And(fetching, ph == i))
        for i in range(0, 17):
            self.guard(And(ok, at == i)), self.guard(And(okg, at == i))
        self.guard(And(okg, at >= 8, at < 16)), self.guard(And(ok, at >= 8, at < 16))
        self.guard(And(okg, at >= 6, at < 9))
        self.term(a_code), self.term(a_color), self.term(FONT + 16*code + line, 14), self.term(code), self.term(color), self.term(glyph)
        self.term(fg), self.term(bg), self.term(color[:4], 4), self.term(color[4:], 4)
        self.term(glyph << at[:3], 8)
        self.cover("shown", shown), self.cover("shown_pixel_set", And(shown, (glyph << o[:3])[7]))


class Memory_(Screen, Bus):
    """the terminal's memory, from the bus"""
    access_rate = 0.5
    learn_bits = learn_implications = True
    sim_cycles = 400

    def __init__(self):
        Contract.__init__(self)
        x = self.screen()
        mem, = self.mem
        a = self.rigid(14, "address", lambda r: r.randrange(DEPTH))
        self.require("address_inside", a < DEPTH)
        self.words = [a]
        w = self.word(mem, a)
        b = self.bus(x)
        req = pin(self, And(b.cyc, b.stb), 1)
        ack = Signal(name_override="ack_due")
        self.sync += ack.eq(And(req, Not(ack)))
        self.ensure("each_request_acknowledged_once", b.ack == ack)
        # value of the last acknowledged write, else what the memory held at reset
        written, value = Signal(name_override="written"), Signal(8, name_override="value")
        self.sync += If(And(b.ack, req, b.we, b.adr == a), written.eq(1), value.eq(b.dat_w))
        self.ensure("memory_holds_last_write", Imp(written, w == value))
        before = Signal(8, name_override="before")
        known = Signal(name_override="known")
        self.sync += [known.eq(1), before.eq(w)]
        self.ensure("memory_changes_by_writes_only", Imp(And(known, Not(written)), w == before))
        self.ensure("read_returns_the_memory", Imp(And(b.ack, Not(b.we), b.adr == a), b.dat_r == w))
        self.cover("read_back", And(b.ack, Not(b.we), b.adr == a, written))


class Initial(Contract):
    """default and empty initialisation; sizes are checked"""
    learn_implications = False

    def __init__(self):
        Contract.__init__(self)
        self.functions = ["read_ram_init_file"]
        f = terminal.read_ram_init_file
        self.ensure("file", fact(f("cp437.bin", 4096) == data("cp437.bin", 4096)))
        self.ensure("empty", fact(f("", 77) == [0]*77))
        try:
            f("cp437.bin", 4095)
            self.ensure("wrong_size_refused", 0)
        except ValueError:
            self.ensure("wrong_size_refused", 1)


def data(name, size):
    with open(os.path.join(os.path.dirname(os.path.realpath(terminal.__file__)), name), "rb") as f:
        return list(f.read(size))


def obligations(tier):
    yield "content", lambda: Content()
    yield "bus", lambda: Memory_()
    yield "initialisation", lambda: Initial()
