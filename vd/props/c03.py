"""C03: stream discipline of every pipelined actor."""
from .pipe import *
from litevideo.csc.rgb2ycbcr import RGB2YCbCr
from litevideo.csc.ycbcr2rgb import YCbCr2RGB
from litevideo.csc.ycbcr444to422 import YCbCr444to422
from litevideo.csc.rgb2rgb16f import RGB2RGB16f
from litevideo.csc.rgb16f2rgb import RGB16f2RGB
from litevideo.float_arithmetic.floatadd import FloatAdd
from litevideo.float_arithmetic.floatmult import FloatMult

ACTORS = [(RGB2YCbCr, 8), (YCbCr2RGB, 4), (YCbCr444to422, 3), (RGB2RGB16f, 2), (RGB16f2RGB, 2),
          (FloatAdd, 5), (FloatMult, 5)]


class Handshake(PipeContract):
    def __init__(self, cls, latency):
        Contract.__init__(self)
        self.functions = [cls.__name__ + " (valid/ready/first/last)"]
        self.pipe(cls(), latency)
        self.handshake()



def obligations(tier):
    for cls, latency in ACTORS:
        n = cls.__name__
        yield n + "/order", lambda c=cls, l=latency: Handshake(c, l)
        yield n + "/hold", lambda c=cls: HoldContract(c, [c.__name__ + " (source hold)"])
