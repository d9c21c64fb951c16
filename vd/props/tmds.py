"""DVI 1.0 TMDS coding (reference, written from the specification, ghost FHDL)."""
from .common import *

TOKENS = [0b1101010100, 0b0010101011, 0b0101010100, 0b1010101011]   # C1C0 = 0..3


def ones(bits):
    r = bits[0]
    for b in bits[1:]:
        r = r + b
    return r


def q_m(mod, d):
    """transition-minimized 9-bit word"""
    n = pin(mod, ones([d[i] for i in range(8)]), 4)
    xnor = pin(mod, (n > 4) | ((n == 4) & (d[0] == 0)), 1)
    q = [d[0]]
    for i in range(1, 8):
        b = Signal(name_override="q")
        mod.comb += b.eq((q[-1] ^ d[i]) ^ xnor)
        q.append(b)
    return pin(mod, Cat(*q, xnor == 0), 9)


def encode(mod, cd, d, c, de):
    """combinational TMDS symbol for (d,c,de), with its running disparity register"""
    q = q_m(mod, d)
    n1 = pin(mod, ones([q[i] for i in range(8)]), 4)
    bal = pin(mod, 2*n1 - 8, (6, True))            # ones minus zeros of q[0:8]
    cnt = Signal((7, True), name_override="disparity")
    out, nxt = Signal(10), Signal((7, True))
    inv = pin(mod, ~q[:8], 8)
    mod.comb += If(de == 0,
                   out.eq(Array([Constant(t, 10) for t in TOKENS])[c]), nxt.eq(0)
                ).Elif((cnt == 0) | (bal == 0),
                    If(q[8], out.eq(Cat(q[:8], 1, 0)), nxt.eq(cnt + bal)
                    ).Else(out.eq(Cat(inv, 0, 1)), nxt.eq(cnt - bal))
                ).Elif(((cnt > 0) & (bal > 0)) | ((cnt < 0) & (bal < 0)),
                    out.eq(Cat(inv, q[8], 1)), nxt.eq(cnt + Mux(q[8], 2, 0) - bal)
                ).Else(
                    out.eq(Cat(q[:8], q[8], 0)), nxt.eq(cnt - Mux(q[8], 0, 2) + bal))
    tick(mod, cd, cnt.eq(nxt))
    return out, cnt, nxt


def decode(mod, w):
    """(d, is_control, c) of a 10-bit word"""
    d = Signal(8)
    x = pin(mod, Mux(w[9], ~w[:8], w[:8]), 8)
    bits = [x[0]] + [Mux(w[8], x[i] ^ x[i-1], (x[i] ^ x[i-1]) == 0) for i in range(1, 8)]
    mod.comb += d.eq(Cat(*[pin(mod, b, 1) for b in bits]))
    ctl = pin(mod, Or(*[w == t for t in TOKENS]), 1)
    c = pin(mod, Cat((w == TOKENS[1]) | (w == TOKENS[3]), (w == TOKENS[2]) | (w == TOKENS[3])), 2)
    return d, ctl, c
