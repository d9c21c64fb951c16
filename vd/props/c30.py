"""C30: HDMIIn connects its parts so that each pixel keeps its own data enable and syncs."""
from .common import *
from .c22 import hdmi_pads
from .tmds import TOKENS
import litevideo.input as hdmi_input
from litevideo.input import HDMIIn, TimingDelayChannel
from litevideo.input.common import channel_layout
from litevideo.output.common import list_signals
from litex.soc.interconnect import stream
from litedram.common import LiteDRAMNativePort
from migen.genlib.record import Record
from contextlib import contextmanager


# Contracts of the parts, as far as their composition needs them (C10-C16, C24, C28 are about the
# real ones): arbitrary symbols, arbitrary synchronization, fixed latencies.

class Part(Module):
    made = None

    def __init__(self, *args, **kw):
        Part.made.setdefault(type(self).__name__, []).append(self)
        self.args = list(args) + [v for _, v in sorted(kw.items())]
        self.build()


class DataCapturePart(Part):
    def build(self):
        self.d = Signal(10)


class DataCapture6Part(DataCapturePart):
    def build(self):
        self.d, self.serdesstrobe = Signal(10), Signal()


class CharSyncPart(Part):
    def build(self):
        self.raw_data, self.synced, self.data = Signal(10), Signal(), Signal(10)
        self.sync.pix += self.data.eq(self.raw_data)


class WERPart(Part):
    def build(self):
        self.data = Signal(10)


class DecodingPart(Part):
    """arbitrary decoding with the latency of the real one"""
    def build(self):
        self.valid_i, self.input, self.valid_o, self.output = Signal(), Signal(10), Signal(), Record(channel_layout)
        self.sync.pix += [self.valid_o.eq(self.valid_i), self.output.raw.eq(self.input)]
        for n, w in channel_layout[1:]:
            s = Signal(w)
            setattr(self, "any_" + n, s)
            self.comb += getattr(self.output, n).eq(s)


class ChanSyncPart(Part):
    def build(self):
        self.valid_i, self.chan_synced = Signal(), Signal()
        for i in range(3):
            a, b = Record(channel_layout), Record(channel_layout)
            setattr(self, "data_in%d" % i, a), setattr(self, "data_out%d" % i, b)
            self.sync.pix += b.raw_bits().eq(a.raw_bits())


class DecodeTERC4Part(Part):
    """data enable of the symbol presented two cycles ago"""
    def build(self):
        self.valid_i, self.de_o, self.active = Signal(), Signal(), Signal()
        for i in range(3):
            setattr(self, "data_in%d" % i, Record(channel_layout))
        d = Signal()
        self.sync += [d.eq(self.active), self.de_o.eq(d)]


class ResolutionDetectionPart(Part):
    def build(self):
        self.valid_i, self.de, self.vsync = Signal(), Signal(), Signal()


class FrameExtractionPart(Part):
    def build(self):
        self.valid_i, self.de, self.vsync, self.r, self.g, self.b = [Signal(w) for w in (1, 1, 1, 8, 8, 8)]
        self.frame = stream.Endpoint([("sof", 1), ("pixels", self.args[0])])


class DMAPart(Part):
    def build(self):
        self.frame = stream.Endpoint([("sof", 1), ("pixels", 64)])
        self.ev = object()


PARTS = dict(CharSync=CharSyncPart, WER=WERPart, Decoding=DecodingPart, ChanSync=ChanSyncPart, DecodeTERC4=DecodeTERC4Part,
             ResolutionDetection=ResolutionDetectionPart, FrameExtraction=FrameExtractionPart, DMA=DMAPart,
             datacapture_cls={"xc6": DataCapture6Part, "xc7": DataCapturePart})


@contextmanager
def parts():
    real = {n: getattr(hdmi_input, n) for n in PARTS}
    Part.made = {}
    for n, v in PARTS.items():
        setattr(hdmi_input, n, v)
    try:
        yield Part.made
    finally:
        for n, v in real.items():
            setattr(hdmi_input, n, v)


class Wiring(Contract):
    learn_implications = False
    k = 2

    def __init__(self, device, hdmi, mode, pads, **kw):
        Contract.__init__(self)
        self.functions = ["HDMIIn(%s, hdmi=%s)" % (device, hdmi), "SyncPolarity", "TimingDelayChannel"]
        port = LiteDRAMNativePort("write", 24, 64)
        with parts() as made:
            x = self.submodules.dut = HDMIIn(pads, port, n_dma_slots=3, fifo_depth=32, device=device, mode=mode, hdmi=hdmi, **kw)
        self.interface(x, *[p for l in made.values() for p in l])
        caps = made["DataCapture6Part" if device == "xc6" else "DataCapturePart"]
        syncs, wers, decs = made["CharSyncPart"], made["WERPart"], made["DecodingPart"]
        cs, rd, fx, dma = [made[n + "Part"][0] for n in ("ChanSync", "ResolutionDetection", "FrameExtraction", "DMA")]
        self.ensure("three_channels", fact(all(len(l) == 3 for l in (caps, syncs, wers, decs))))
        # channel i: pads -> capture -> character sync -> decoding -> channel sync
        of = lambda c: [i for i in range(3) if c.args[0] is getattr(pads, "data%d_p" % i)][0]
        caps = sorted(caps, key=of)
        self.ensure("pads", fact(all(of(c) == i and c.args[1] is getattr(pads, "data%d_n" % i) for i, c in enumerate(caps))))
        raws = [delay(self, c.d, 3, cd="pix") for c in caps]
        if device == "xc6":
            self.ensure("strobe", And(*[c.serdesstrobe == x.clocking.serdesstrobe for c in caps]))
        for i in range(3):
            self.ensure("channel%d_symbols" % i, getattr(cs, "data_in%d" % i).raw == raws[i][2])
        # (the parts are made in channel order)
        synced = [s.synced for s in syncs]
        self.ensure("valid_when_all_channels_are", cs.valid_i == delay(self, pin(self, And(*synced), 1), 1, cd="pix")[1])
        for i, w in enumerate(wers):
            self.ensure("errors_counted_on_channel%d" % i, w.data == syncs[i].data)
        # the pixel stream of the synchronized channels
        L = 3 if hdmi else 1
        out = [getattr(cs, "data_out%d" % i) for i in range(3)]
        D = lambda e, n=L: delay(self, e if isinstance(e, Signal) else pin(self, e), n, cd="pix")[n]
        if hdmi:
            t4 = made["DecodeTERC4Part"][0]
            self.ensure("period_decoder_input", And(t4.valid_i == cs.chan_synced, *[getattr(t4, "data_in%d" % i).raw_bits() == out[i].raw_bits() for i in range(3)]))
            active = t4.active
        else:
            active = out[0].de
        now = D(active, L - 1)
        c = D(out[0].c, L - 1)
        was = D(now, 1)
        idle = Signal(2, name_override="idle")
        ends = pin(self, And(was, Not(now)), 1)
        tick(self, "pix", If(ends, idle.eq(c)))
        sync = D(pin(self, Mux(ends, 0, c ^ idle), 2), 1)
        ok = D(cs.chan_synced, 1)
        self.ensure("data_enable_of_the_pixel", And(fx.de == D(active), rd.de == fx.de))
        self.ensure("components", And(fx.b == D(out[0].d), fx.g == D(out[1].d), fx.r == D(out[2].d)))
        self.ensure("vsync_of_channel_0", And(fx.vsync == sync[1], rd.vsync == fx.vsync))
        self.ensure("hsync_of_channel_0", x.syncpol.hsync == sync[0])
        self.ensure("valid_with_synchronization", And(fx.valid_i == ok, rd.valid_i == ok))
        self.ensure("frame_mode", fact(mode in fx.args and 64 == fx.args[0] and 32 in fx.args))
        f, d = fx.frame, dma.frame
        self.ensure("frames_to_memory", And(d.valid == f.valid, f.ready == d.ready, d.sof == f.sof, d.pixels == f.pixels,
                                            fact(port in dma.args and 3 in dma.args and x.ev is dma.ev)))
        self._open(f.valid, 0), self._open(d.ready, 0), self._open(f.sof, 0), self._open(f.pixels, 0)
        self.ensure("edid", fact(hasattr(x, "edid") == hasattr(pads, "scl")))
        self.cover("pixel", fx.de)


class Delay(Contract):
    """TimingDelayChannel: every field, the same delay"""
    def __init__(self, n):
        Contract.__init__(self)
        self.functions = ["TimingDelayChannel(%d)" % n]
        x = self.submodules.dut = TimingDelayChannel(n)
        self.interface(x)
        for name, w in channel_layout:
            self.ensure(name, getattr(x.source, name) == delay(self, getattr(x.sink, name), n, cd="pix")[n])
        self.cover("pixel", x.source.de)


def obligations(tier):
    edid = [("scl", 1), ("sda", 1)]

    def pads(extra=()):
        p = hdmi_pads()
        q = Record([(n, 1) for n in vars(p) if n.endswith(("_p", "_n"))] + list(extra))
        return q
    for n in (1, 2, 3):
        yield "TimingDelayChannel %d" % n, lambda n=n: Delay(n)
    for d in ("xc7", "xc6"):
        for h in (False, True):
            yield "%s %s" % (d, "HDMI" if h else "DVI"), lambda d=d, h=h: Wiring(d, h, "rgb" if h else "ycbcr422", pads(edid if h else ()))
    yield "xc7 HDMI, split clocking", lambda: Wiring("xc7", True, "ycbcr422", pads(), split_mmcm=True)
