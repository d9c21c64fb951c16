"""C14: resolution detection."""
from .common import *
from litevideo.input.analysis import ResolutionDetection


class Res(Contract):
    search_cycles = (150, 3000, 15000)

    def __init__(self, nbits):
        Contract.__init__(self)
        self.functions = ["ResolutionDetection(nbits=%d)" % nbits]
        x = self.submodules.dut = ResolutionDetection(nbits)
        self.interface(x)
        self.port_widths((x._hres.status, nbits), (x._vres.status, nbits))
        dr, vr = delay(self, x.de, 1, cd="pix")[1], delay(self, x.vsync, 1, cd="pix")[1]
        line_end = pin(self, dr & (x.de == 0), 1)
        new_frame = pin(self, x.vsync & (vr == 0), 1)
        # pixels of the line so far, lines of the frame so far, last complete measures
        pix, line, w, h = [Signal(nbits, name_override=n) for n in ("pix", "line", "width", "height")]
        tick(self, "pix",
             pix.eq(Mux(x.valid_i & x.de, pix + 1, 0)),
             If(x.valid_i & new_frame, line.eq(0)).Elif(line_end, line.eq(line + 1)),
             If(Not(x.valid_i), w.eq(0), h.eq(0)).Else(If(line_end, w.eq(pix)), If(new_frame, h.eq(line))))
        self.ensure("width_is_pixels_of_last_line", x._hres.status == delay(self, w, 2)[2])
        self.ensure("height_is_lines_of_last_frame", x._vres.status == delay(self, h, 2)[2])
        self.cover("width", x._hres.status == 3)
        self.cover("height", x._vres.status == 2)
        self.watch = [x.valid_i, x.vsync, x.de, x._hres.status, x._vres.status]

        def driver(rng, t, put, get):
            if t == 0:
                self.w, self.h, self.b = rng.randrange(1, 6), rng.randrange(1, 4), rng.randrange(1, 3)
                self.structured = self.searching or rng.random() < 0.7
                if self.searching and rng.random() < 0.6:
                    big = rng.randrange(1, 2 << nbits)
                    self.w, self.h = (big, self.h) if rng.random() < 0.5 else (1, big)
            if self.structured:
                n = self.w + self.b
                put(x.valid_i, 1 if t > 3 else 0)
                put(x.de, int(t % n < self.w and (t // n) % (self.h + 1) < self.h))
                put(x.vsync, int((t // n) % (self.h + 1) == self.h))
        self.driver = driver


def obligations(tier):
    for n in (11, 4):
        yield "nbits=%d" % n, lambda n=n: Res(n)
