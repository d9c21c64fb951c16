"""C11: channel synchronization (deskew)."""
from .common import *
from litevideo.input.chansync import ChanSync
from litevideo.input.common import channel_layout


class Chan(Contract):
    def __init__(self, nchan=3, depth=8, args=()):
        Contract.__init__(self)
        self.functions = ["ChanSync(nchan=%d,depth=%d)" % (nchan, depth), "_SyncBuffer"]
        x = self.submodules.dut = ChanSync(*args)
        self.interface(x)
        ins = [getattr(x, "data_in%d" % i) for i in range(nchan)]
        self.port_widths(*[(getattr(c, n), b) for c in ins for n, b in (("raw", 10), ("d", 8), ("c", 2), ("de", 1))])
        outs = [getattr(x, "data_out%d" % i) for i in range(nchan)]
        ctl = [pin(self, Not(o.de), 1) for o in outs]
        allc, somec = pin(self, And(*ctl), 1), pin(self, Or(*ctl), 1)
        now = Signal(max=depth, name_override="now")
        tick(self, "pix", now.eq(now + 1))
        for i in range(nchan):
            w = len(ins[i].raw_bits())
            hist = delay(self, ins[i].raw_bits(), depth, cd="pix")
            # lag: how many symbols behind its input the channel is (depth when 0)
            lag = Signal(max=depth, name_override="lag%d" % i)
            held = pin(self, And(ctl[i], Not(allc)), 1)
            tick(self, "pix", If(held, lag.eq(lag + 1)))
            self.ensure("channel%d_is_its_input_delayed" % i,
                        outs[i].raw_bits() == Array([hist[depth]] + hist[1:depth])[lag])
            self.term(pin(self, now - lag, len(now)), name="rd%d" % i)
            for a in range(depth):
                # cell a holds the symbol written (now - a) cycles ago
                ago = pin(self, now - a, len(now))
                self.term(pin(self, Array([hist[depth]] + hist[1:depth])[ago], w))
        self.term(now)
        sy = Signal()
        tick(self, "pix", If(Not(x.valid_i), sy.eq(0)).Elif(somec, sy.eq(allc)))
        self.ensure("synced_flag", x.chan_synced == sy)
        st = delay(self, x.chan_synced, 2, cd="sys")[2]
        self.ensure("status", x._channels_synced.status == st)
        self.cover("synced", x.chan_synced)
        self.learn_bits = False
        self.watch = [x.valid_i, x.chan_synced]

        def driver(rng, t, put, get):
            for i in range(nchan):
                if t == 0:
                    self.skew = [rng.randrange(6) for _ in range(nchan)]
                    self.rand = rng.random() < 0.5
                if not self.rand:
                    put(ins[i].de, int((t + self.skew[i]) % 37 > 14))
            put(x.valid_i, int(rng.random() < 0.98))
        self.driver = driver


def obligations(tier):
    yield "ChanSync", Chan
    yield "ChanSync/2 channels, depth 4", lambda: Chan(2, 4, (2, 4))
