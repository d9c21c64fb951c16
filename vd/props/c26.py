"""C26: the terminal's sync signals and visible area follow the documented VGA timing."""
from .common import *
from migen.fhdl.specials import Memory
from litevideo.terminal.core import Terminal

LINE = dict(sync=96, first=96 + 48, end=96 + 48 + 640, length=800)
FRAME = dict(sync=2, first=2 + 29, end=2 + 29 + 480, length=521)


class Screen(Contract):
    """position on the screen of what the outputs show, from reset"""
    learn_bits = learn_bitc = learn_implications = False
    sim_traces = 2
    sim_cycles = 2500
    search_cycles = (40000, 460000)
    tick_rates = {"vga": 1.0}
    search_s = 240
    xcheck_cycles = 900

    def screen(self, pads=None, **kw):
        self.functions = ["Terminal"]
        x = self.dut = Terminal(pads, **kw)
        self.mem = [s for s in (x.finalize() or x._fragment).specials if isinstance(s, Memory)]
        self.track = {m: [] for m in self.mem}
        self.submodules += x
        self.interface(x.bus)
        nx, ny = self.nx, self.ny = Signal(10, name_override="next_x"), Signal(10, name_override="next_y")
        self.x, self.y, self.on = Signal(10, name_override="x"), Signal(10, name_override="y"), Signal(name_override="started")
        tick(self, "vga", self.on.eq(1), self.x.eq(nx), self.y.eq(ny), nx.eq(nx + 1),
             If(nx == LINE["length"] - 1, nx.eq(0), ny.eq(ny + 1), If(ny == FRAME["length"] - 1, ny.eq(0))))
        self.hint(And(nx < LINE["length"], ny < FRAME["length"]))
        self.hint(Imp(self.on, And(self.x < LINE["length"], self.y < FRAME["length"])))
        self.hint(Imp(And(self.on, Or(nx != 0)), And(self.x == nx - 1, self.y == ny)))
        self.hint(Imp(And(self.on, nx == 0), self.x == LINE["length"] - 1, self.y == Mux(ny == 0, FRAME["length"] - 1, ny - 1)))
        self.hint(Or(self.on, And(nx == 0, ny == 0)))
        self.term(nx), self.term(ny)
        return x


class Timing(Screen):
    def __init__(self, **kw):
        Contract.__init__(self)
        x = self.screen(**kw)
        px, py, on = self.x, self.y, self.on
        self.ensure("hsync", x.hsync == And(on, px >= LINE["sync"]))
        self.ensure("vsync", x.vsync == And(on, py >= FRAME["sync"]))
        inside = And(on, px >= LINE["first"], px < LINE["end"], py >= FRAME["first"], py < FRAME["end"])
        self.ensure("black_outside", Imp(Not(inside), x.red == 0, x.green == 0, x.blue == 0))
        self.cover("line", py == 1)
        self.watch = [px, py, x.hsync, x.vsync, x.red, x.green, x.blue]


def obligations(tier):
    yield "Terminal", lambda: Timing()
    yield "Terminal with pads, no initial contents", lambda: Timing(pads=Record([("red", 8), ("green", 8), ("blue", 8), ("hsync", 1), ("vsync", 1)]),
                                                                    font_filename="", screen_init_filename="")
