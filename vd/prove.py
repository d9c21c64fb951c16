"""Discharging the obligations of a contract."""
import os, time, random, collections, json, pickle, select
import z3
from migen import *

from .design import Design, Unsupported
from .sem import Unroller, bv
from .pysim import Sim
from .replay import MigenRun


class Stats:
    def __init__(self):
        self.solver_s = 0.0
        self.queries = 0
        self.backend = collections.Counter()


class Timeout(Exception):
    pass


def new_solver(timeout_s):
    s = z3.SolverFor("QF_FD")
    s.set("timeout", int(timeout_s*1000))
    return s


# ------------------------------------------------------------------ simulation

class Trace:
    """a stimulus: rigid values, per-cycle inputs and ticks"""
    def __init__(self, rigid, cycles):
        self.rigid, self.cycles = rigid, cycles   # cycles: [(inputs list, tickmask)]


def default_draw(rng, s, mode):
    n = s.nbits
    full = (1 << n) - 1
    kind, p = mode
    if n == 1:
        return 1 if rng.random() < p else 0
    if kind == 0:
        v = rng.getrandbits(n)
    elif kind == 1:
        v = rng.choice([0, 1, full, full >> 1, (full >> 1) + 1, rng.getrandbits(n)]) & full
    elif kind == 2:
        v = rng.randrange(0, min(full, 7) + 1)
    else:
        v = None  # hold
    return v


def signed_fix(s, v):
    if s.signed and v >> (s.nbits - 1):
        v -= 1 << s.nbits
    return v


class Runner:
    """random exploration of a Design in the compiled evaluator"""
    def __init__(self, contract, design, sim, seed):
        self.c, self.d, self.sim = contract, design, sim
        self.seed = seed
        self.req = [sim.ix[s] for _, s in contract.requires]
        self.ens = [(n, sim.ix[s]) for n, s in contract.ensures]
        self.cov = [(n, sim.ix[s]) for n, s in contract.covers]
        self.covered = set()
        self.cycles_ok = 0

    def run(self, trace_no, ncycles, collect=None, stop_on_violation=True, end=None, states=None):
        """returns (violation or None, Trace)"""
        d, c, sim = self.d, self.c, self.sim
        rng = random.Random("%s/%s/%d" % (self.seed, type(c).__name__, trace_no))
        rigid = []
        for r in d.rigid:
            ch = c.rigid_choices.get(r)
            v = (ch(rng) if callable(ch) else rng.choice(ch)) if ch is not None else \
                rng.choice([rng.getrandbits(r.nbits), rng.randrange(0, min(1 << r.nbits, 8))])
            rigid.append(signed_fix(r, v & ((1 << r.nbits) - 1)))
        modes = []
        for s in d.inputs:
            modes.append((rng.choice([0, 0, 1, 2, 3]), rng.choice([0.5, 0.5, 0.1, 0.9, 0.02, 0.98, 1.0, 0.0])))
        st = list(sim.reset)
        nd = len(d.domains)
        tickp = [c.tick_rates.get(x) or rng.choice([0.5, 0.9, 0.2, 1.0]) for x in d.domains]
        ins = [signed_fix(s, default_draw(rng, s, (0, m[1]))) for s, m in zip(d.inputs, modes)]
        inix = {s: i for i, s in enumerate(d.inputs)}
        cyc = []
        V = None
        for t in range(ncycles):
            if end is not None and t % 64 == 0 and time.time() > end:
                break
            ok = False
            for attempt in range(60):
                new = list(ins)
                for i, s in enumerate(d.inputs):
                    m = modes[i]
                    if attempt > 20 and rng.random() < 0.3:
                        m = (0, 0.5)
                    v = default_draw(rng, s, m)
                    if v is None:
                        v = ins[i] if rng.random() < 0.9 else rng.getrandbits(s.nbits)
                    new[i] = signed_fix(s, v & ((1 << s.nbits) - 1))
                if c.driver is not None:
                    base = [0]
                    def get(sig):
                        # value with the current choice of inputs
                        if sig in inix:
                            return new[inix[sig]]
                        VV = sim.comb(rigid + new + st)
                        return VV[sim.ix[sig]]
                    def put(sig, v):
                        if sig in inix:
                            new[inix[sig]] = signed_fix(sig, v & ((1 << sig.nbits) - 1))
                    c.driver(rng, t, put, get)
                V = sim.comb(rigid + new + st)
                if all(V[i] for i in self.req):
                    ok = True
                    break
            if not ok:
                break
            ins = new
            tm = 0
            if nd > 1:
                while tm == 0:
                    for i in range(nd):
                        if rng.random() < tickp[i]:
                            tm |= 1 << i
            else:
                tm = 1
            cyc.append((list(ins), tm))
            self.cycles_ok += 1
            for n, i in self.cov:
                if V[i]:
                    self.covered.add(n)
            if collect is not None and t >= c.collect_from:
                collect.append(V)
            for n, i in self.ens:
                if not V[i]:
                    if stop_on_violation:
                        return n, Trace(rigid, cyc)
            st = sim.step(V, tm)
        if states is not None:
            states.append(st)
        return None, Trace(rigid, cyc)


# ------------------------------------------------------------------ candidates

class Cand:
    __slots__ = ("kind", "a", "b", "c", "text", "user")

    def __init__(self, kind, a=None, b=None, c=None, text="", user=None):
        self.kind, self.a, self.b, self.c, self.text, self.user = kind, a, b, c, text, user

    def signals(self):
        if self.kind == "sum":
            yield from (x for x in (*self.a, self.b, self.c[0]) if x is not None)
            return
        for x in (self.a, self.b, self.c):
            if isinstance(x, tuple):
                x = x[0]
            if isinstance(x, Signal):
                yield x

    def z(self, f):
        k = self.kind
        if k == "true":                 # 1-bit signal must be 1
            return f.sig(self.a) == bv(1, 1)
        if k == "eqw":                  # word a == word b (as integers)
            x, y = f.sig(self.a), f.sig(self.b)
            w = max(x.size(), y.size())
            return zx(x, self.a, w) == zx(y, self.b, w)
        if k == "eqc":
            return f.sig(self.a) == bv(self.b, self.a.nbits)
        if k == "bit":                  # bit a == (bit b) ^ c
            x, y = bit(f, self.a), bit(f, self.b)
            return (x != y) if self.c else (x == y)
        if k == "bitc":
            return bit(f, self.a) == bv(self.b, 1)
        if k == "geq":                  # guard c -> a == b
            x, y = f.sig(self.a), f.sig(self.b)
            w = max(x.size(), y.size())
            return z3.Or(f.sig(self.c) == bv(0, 1), zx(x, self.a, w) == zx(y, self.b, w))
        if k == "gsl":                  # guard c -> slice of a == word b
            (r, lo), y = self.a, f.sig(self.b)
            return z3.Or(f.sig(self.c) == bv(0, 1), z3.Extract(lo + y.size() - 1, lo, f.sig(r)) == y)
        if k == "gne":                  # guard c -> a != b
            x, y = f.sig(self.a), f.sig(self.b)
            return z3.Or(f.sig(self.c) == bv(0, 1), x != y)
        if k == "geqc":
            return z3.Or(f.sig(self.c) == bv(0, 1), f.sig(self.a) == bv(self.b, self.a.nbits))
        if k == "le":
            return z3.ULE(f.sig(self.a), bv(self.b, self.a.nbits))
        if k == "ge":
            return z3.UGE(f.sig(self.a), bv(self.b, self.a.nbits))
        if k == "diff":                 # a - b == c mod 2^w
            x, y = f.sig(self.a), f.sig(self.b)
            return x - y == bv(self.c, x.size())
        if k == "in":
            x = f.sig(self.a)
            return z3.Or([x == bv(v, self.a.nbits) for v in self.b])
        if k == "bits":                 # constant bits of a word
            m, v = self.b
            return f.sig(self.a) & bv(m, self.a.nbits) == bv(v, self.a.nbits)
        if k == "sum":                  # guard -> a (+ b) - t == const mod 2^w
            (x, y), (g, n) = self.a, self.c
            e = f.sig(x)
            if y is not None:
                e = e + f.sig(y)
            if self.b is not None:
                e = e - f.sig(self.b)
            e = e == bv(n, x.nbits)
            return e if g is None else z3.Or(f.sig(g) == bv(0, 1), e)
        if k == "imp":                  # 2-clause over bits: (a==va) or (b==vb)
            (s, i, va), (s2, i2, vb) = self.a, self.b
            return z3.Or(bit(f, (s, i)) == bv(va, 1), bit(f, (s2, i2)) == bv(vb, 1))
        if k == "gimp":                 # guard c -> (a==va) or (b==vb), 1-bit words
            (s, va), (s2, vb) = self.a, self.b
            return z3.Or(f.sig(self.c) == bv(0, 1), f.sig(s) == bv(va, 1), f.sig(s2) == bv(vb, 1))
        raise KeyError(k)


def zx(t, s, w):
    if t.size() == w:
        return t
    return z3.SignExt(w - t.size(), t) if s.signed else z3.ZeroExt(w - t.size(), t)


def bit(f, sb):
    s, i = sb
    t = f.sig(s)
    return t if t.size() == 1 else z3.Extract(i, i, t)


def learn(contract, design, sim, samples):
    """candidate invariants suggested by the sampled runs (by value signature, never by name)"""
    d, ix = design, sim.ix
    nm = d.name
    out = []
    if not samples:
        return out
    regs = list(d.regs)
    terms = [t for t in contract.terms if t in ix]
    termset = set(terms)
    words = terms + [r for r in regs if r not in termset] + [r for r in d.rigid if r not in termset]
    if contract.focus is not None:
        fx = ix[contract.focus]
        A = [V for V in samples if V[fx]]
        B = [V for V in samples if not V[fx]]
        samples = samples[:300] + A[::len(A)//12000 + 1] + B[::len(B)//2000 + 1]
    elif len(samples) > 4000:
        step = len(samples)//4000 + 1
        samples = samples[:500] + samples[500::step]
    cols = {s: tuple(V[ix[s]] for V in samples) for s in words}
    # word classes
    cls = collections.OrderedDict()
    for s in words:
        cls.setdefault(cols[s], []).append(s)
    eq_done = set()
    for col, members in cls.items():
        if len(set(col)) == 1:
            for m in members:
                if m in d.sync or m in termset:
                    out.append(Cand("eqc", m, col[0] & ((1 << m.nbits) - 1), text="%s == %d" % (nm(m), col[0])))
            # constants may still be accidental: fall through to bits for words
            continue
        rep = members[0]
        for m in members[1:]:
            out.append(Cand("eqw", m, rep, text="%s == %s" % (nm(m), nm(rep))))
            eq_done.add(m)
    # bit classes
    if contract.learn_bits:
        bits = collections.OrderedDict()
        for s in words:
            if s in eq_done:
                continue
            if s.nbits > 64:
                continue
            for i in range(s.nbits):
                sigv = 0
                col = cols[s]
                b = [(v >> i) & 1 for v in col]
                inv = b[0]
                key = 0
                for x in b:
                    key = (key << 1) | (x ^ inv)
                bits.setdefault(key, []).append((s, i, inv))
        for key, members in bits.items():
            if key == 0:
                for s, i, inv in members:
                    if contract.learn_bitc and len(set(cols[s])) > 1:
                        out.append(Cand("bitc", (s, i), inv, text="%s[%d] == %d" % (nm(s), i, inv)))
                continue
            rs, ri, rinv = members[0]
            for s, i, inv in members[1:]:
                out.append(Cand("bit", (s, i), (rs, ri), inv ^ rinv,
                                text="%s[%d] %s %s[%d]" % (nm(s), i, "!=" if inv ^ rinv else "==", nm(rs), ri)))
    # ranges
    for r in regs + [t for t in terms if t.nbits > 1]:
        if 1 < r.nbits <= 32 and not r.signed:
            hi, lo = max(cols[r]), min(cols[r])
            if hi < (1 << r.nbits) - 1:
                out.append(Cand("le", r, hi, text="%s <= %d" % (nm(r), hi)))
            if lo > 0:
                out.append(Cand("ge", r, lo, text="%s >= %d" % (nm(r), lo)))
    # sets of values (one-hot and sparse encodings)
    for r in regs:
        if 2 <= r.nbits <= 10 and not r.signed:
            vals = set(cols[r])
            if 1 < len(vals) <= 16 and len(vals) < max(vals) - min(vals) + 1:
                out.append(Cand("in", r, tuple(sorted(vals)), text="%s in %s" % (nm(r), sorted(vals))))
    if contract.learn_kbits:
        for r in regs:
            m = (1 << r.nbits) - 1
            one, zero = m, m
            for v in set(cols[r]):
                one, zero = one & v, zero & ~v
            k = (one | zero) & m
            if r.nbits > 1 and k and k != m:
                out.append(Cand("bits", r, (k, one & k), text="%s & %#x == %#x" % (nm(r), k, one & k)))
                for i in range(r.nbits if r.nbits <= 32 else 0):
                    if (k >> i) & 1 and k != 1 << i:
                        out.append(Cand("bits", r, (1 << i, one & (1 << i)), text="%s[%d] == %d" % (nm(r), i, (one >> i) & 1)))
    # constant differences
    byw = collections.defaultdict(list)
    for s in words:
        if s.nbits > 1 and len(set(cols[s])) > 2 and s not in eq_done:
            byw[s.nbits].append(s)
    for w, ss in byw.items():
        m = (1 << w) - 1
        for i in range(len(ss)):
            for j in range(i):
                a, b = cols[ss[i]], cols[ss[j]]
                dlt = (a[0] - b[0]) & m
                if dlt and all(((x - y) & m) == dlt for x, y in zip(a, b)):
                    out.append(Cand("diff", ss[i], ss[j], dlt, text="%s - %s == %d" % (nm(ss[i]), nm(ss[j]), dlt)))
    # guarded slices: words kept as a part of a wider register
    for g in contract.guards if contract.slices else []:
        idx = [i for i, V in enumerate(samples) if V[ix[g]]]
        if len(idx) < 3:
            continue
        for t in terms:
            w, m = t.nbits, (1 << t.nbits) - 1
            ct = cols[t]
            if w < 4 or len(set(ct[i] for i in idx)) < 3:
                continue
            for r in regs:
                if r.nbits <= w:
                    continue
                for lo in range(0, r.nbits - w + 1, w):
                    if all((cols[r][i] >> lo) & m == ct[i] for i in idx):
                        out.append(Cand("gsl", (r, lo), t, g, text="%s -> %s[%d:%d] == %s" % (nm(g), nm(r), lo, lo + w, nm(t))))
    # guarded equalities
    for g in contract.guards:
        idx = [i for i, V in enumerate(samples) if V[ix[g]]]
        if not idx:
            continue
        sub = collections.OrderedDict()
        for s in words:
            sub.setdefault(tuple(cols[s][i] for i in idx), []).append(s)
        for col, members in sub.items():
            if len(set(col)) == 1:
                for m in members:
                    if len(set(cols[m])) > 1:
                        out.append(Cand("geqc", m, col[0] & ((1 << m.nbits) - 1), g,
                                        text="%s -> %s == %d" % (nm(g), nm(m), col[0])))
                continue
            ts = [m for m in members if m in termset]
            reps = ts if ts else members[:1]
            rep = reps[0]
            for m in members:
                if m is not rep and cols[m] != cols[rep]:
                    out.append(Cand("geq", m, rep, g, text="%s -> %s == %s" % (nm(g), nm(m), nm(rep))))
            # bits kept inverted
            if not ts and members[0].nbits == 1 and set(col) <= {0, 1}:
                inv = [m for m in sub.get(tuple(1 - v for v in col), ()) if m in termset and m.nbits == 1]
                for m in members:
                    if inv and m.nbits == 1 and any(x != y for x, y in zip(cols[m], [1 - v for v in cols[inv[0]]])):
                        out.append(Cand("gne", m, inv[0], g, text="%s -> %s != %s" % (nm(g), nm(m), nm(inv[0]))))
    for g, w in contract.ne_guards:
        for r in regs:
            if r.nbits == w.nbits and r is not w and not any(V[ix[g]] and V[ix[r]] == V[ix[w]] for V in samples):
                out.append(Cand("gne", r, w, g, text="%s -> %s != %s" % (nm(g), nm(r), nm(w))))
    # guarded clauses over two bits
    for g in contract.pair_guards:
        idx = [i for i, V in enumerate(samples) if V[ix[g]]]
        ones, seen = [], set()
        for s in words:
            col = tuple(cols[s][i] for i in idx) if s.nbits == 1 else ()
            if len(set(col)) == 2 and col not in seen:
                seen.add(col)
                ones.append((s, int("".join(map(str, col)), 2)))
        full = (1 << len(idx)) - 1
        for i in range(len(ones)):
            for j in range(i):
                for va in (0, 1):
                    for vb in (0, 1):
                        A = ones[i][1] if va else full ^ ones[i][1]
                        B = ones[j][1] if vb else full ^ ones[j][1]
                        if A | B == full:
                            out.append(Cand("gimp", (ones[i][0], va), (ones[j][0], vb), g, text="%s -> %s==%d | %s==%d" % (
                                nm(g), nm(ones[i][0]), va, nm(ones[j][0]), vb)))
    if contract.learn_sums:
        out += learn_sums(contract, ix, nm, samples, words, cols)
    # binary implications
    if contract.learn_implications:
        ones = [(s, 0) for s in words if s.nbits == 1 and len(set(cols[s])) > 1] + \
               [(g, 0) for g in contract.guards if g not in cols]
        for g, _ in ones:
            if g not in cols:
                cols[g] = tuple(V[ix[g]] for V in samples)
        maxb = 70
        small = [s for s in regs if 1 < s.nbits <= 4 and len(set(cols[s])) > 1]
        for s in small:
            if len(ones) + s.nbits <= maxb:
                ones += [(s, i) for i in range(s.nbits)]
        ones = ones[:maxb]
        masks = []
        n = len(samples)
        full = (1 << n) - 1
        for s, i in ones:
            m = 0
            for v in cols[s]:
                m = (m << 1) | ((v >> i) & 1)
            masks.append(m)
        for i in range(len(ones)):
            for j in range(i):
                for va in (0, 1):
                    for vb in (0, 1):
                        A = masks[i] if va else full ^ masks[i]
                        B = masks[j] if vb else full ^ masks[j]
                        if (A | B) == full and A != full and B != full:
                            out.append(Cand("imp", ones[i] + (va,), ones[j] + (vb,),
                                            text="%s[%d]==%d | %s[%d]==%d" % (
                                                nm(ones[i][0]), ones[i][1], va, nm(ones[j][0]), ones[j][1], vb)))
    return out


def learn_sums(contract, ix, nm, samples, words, cols, most=400):
    """linear relations x (+ y) == t + constant between words of one width, under each guard:
    down counters, absolute addresses, remaining lengths..."""
    out, found = [], set()
    byw = collections.defaultdict(list)
    for s in words:
        if s.nbits >= 4:
            byw[s.nbits].append(s)
    for g in [None] + list(contract.guards):
        idx = [i for i, V in enumerate(samples) if g is None or V[ix[g]]]
        if len(idx) < 8:
            continue
        idx = idx[::len(idx)//600 + 1]
        for w, ss in byw.items():
            m = (1 << w) - 1
            sub = collections.OrderedDict()
            for s in ss:
                v = [cols[s][i] & m for i in idx]
                if len(set(v)) > 2:
                    # one representative of each vector, up to a constant
                    sub.setdefault(tuple((x - v[0]) & m for x in v), []).append((s, v[0]))
            for key, members in sub.items():
                (t, t0) = members[0]
                for s, v0 in members[1:]:
                    if g is not None and v0 != t0 and (s, t) not in found:
                        out.append(Cand("sum", (s, None), t, (g, (v0 - t0) & m), text="%s -> %s - %s == %d" % (nm(g), nm(s), nm(t), (v0 - t0) & m)))
            reps = [(k, ms[0]) for k, ms in sub.items()][:40]
            keys = dict(reps)
            ends = set(k[-1] for k in keys) | {0}
            for i in range(len(reps)):
                for j in range(i + 1):
                    (ka, (a, a0)), (kb, (b, b0)) = reps[i], reps[j]
                    if (ka[-1] + kb[-1]) & m not in ends:
                        continue
                    k = tuple((x + y) & m for x, y in zip(ka, kb))
                    if not any(k):
                        t, n, key = None, (a0 + b0) & m, (a, b)
                    elif k in keys:
                        t = keys[k][0]
                        n, key = (a0 + b0 - keys[k][1]) & m, (a, b, t)
                    else:
                        continue
                    if (key, n) in found:
                        continue
                    if g is None:
                        found.add((key, n))
                    out.append(Cand("sum", (a, b), t, (g, n), text="%s%s + %s%s == %d" % (
                        nm(g) + " -> " if g is not None else "", nm(a), nm(b), " - " + nm(t) if t is not None else "", n)))
                    if len(out) >= most:
                        return out
    return out


# ------------------------------------------------------------------ the verifier

class Result:
    def __init__(self):
        self.status = "ok"          # ok | violation | unproved | unknown
        self.obligations = []       # (name, discharged)
        self.failed = []
        self.cex = None
        self.log = []
        self.invariants = 0
        self.info = {}
        self.unreached = []


ESCALATION_S = 220         # second attempts at a failed proof: seconds for each


class Found(Exception):
    """a worker has found a failing input"""


class Blocked(Exception):
    """the environment of the contract cannot go on with the code"""


class Verifier:
    check_deadline = float("inf")
    workers = ()               # forked searches for a failing input
    depth = reached = 0

    def __init__(self, factory, label, seed=1, timeout=300, stats=None, verbose=False, deep=False):
        self.factory, self.label, self.seed = factory, label, seed
        self.timeout, self.stats, self.verbose = timeout, stats or Stats(), verbose
        self.deep = deep

    def log(self, *a):
        if self.verbose:
            print("  [%s]" % self.label, *a, flush=True)

    def check(self, solver, *assumptions):
        if self.workers and self.poll():
            raise Found
        t = time.time()
        solver.set("timeout", int(max(1, self.deadline - t)*1000))
        r = solver.check(*assumptions)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        self.stats.backend["z3 QF_FD"] += 1
        if r == z3.unknown:
            raise Timeout(solver.reason_unknown())
        return r == z3.sat

    def make(self):
        # elaborate at once: signals created by finalization keep the same DUID offsets
        c = self.factory()
        c.frag = c.get_fragment()
        return c

    def discharge(self, hyps, name=""):
        """unsat? of a conjunction, one obligation at a time (lets the solvers preprocess);
        portfolio z3 QF_BV -> z3 QF_FD -> cvc5"""
        hyps = [z3.simplify(h) for h in hyps]
        hyps = [h for h in hyps if not z3.is_true(h)]
        for h in hyps:
            if z3.is_false(h):
                self.stats.backend["z3 rewriter"] += 1
                self.stats.queries += 1
                return True
        left = self.deadline - time.time()
        if left <= 0:
            raise Timeout("time budget")
        for logic, share in (("QF_BV", 0.3), ("QF_FD", 0.4)):
            s = z3.SolverFor(logic)
            s.set("timeout", int(max(1, left*share)*1000))
            s.add(hyps)
            t = time.time()
            r = s.check()
            dt = time.time() - t
            self.stats.solver_s += dt
            self.stats.queries += 1
            if r != z3.unknown:
                self.stats.backend["z3 " + logic] += 1
                if r == z3.unsat and self.deep:
                    self.second_opinion(hyps, name)
                return r == z3.unsat
        r = self.cvc5(hyps, max(1, self.deadline - time.time()))
        if r is None:
            raise Timeout("obligation %s: z3 and cvc5 gave up" % name)
        return r

    def cvc5(self, hyps, limit):
        import subprocess, tempfile
        s = z3.Solver()
        s.add(hyps)
        t = time.time()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2") as fh:
            fh.write("(set-logic QF_BV)\n" + s.to_smt2())
            fh.flush()
            try:
                out = subprocess.run(["cvc5", "--bitblast=eager", "--bv-sat-solver=cadical", fh.name],
                                     capture_output=True, text=True, timeout=limit).stdout
            except subprocess.TimeoutExpired:
                out = ""
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        for l in out.split("\n"):
            if l.strip() in ("sat", "unsat"):
                self.stats.backend["cvc5"] += 1
                return l.strip() == "unsat"
        return None

    def second_opinion(self, hyps, name):
        r = self.cvc5(hyps, min(120, max(1, self.deadline - time.time())))
        if r is False:
            raise RuntimeError("z3 and cvc5 disagree on %s" % name)
        if r:
            self.stats.backend["cvc5 second opinion"] += 1

    def build(self, track=True):
        c = self.make()
        d = Design(c, c.roots(), track=c.track, wide=not track, extra_domains=c.extra_domains, rigid=c.rigids, opened=c.open)
        return c, d

    def run(self):
        t0 = time.time()
        self.deadline = t0 + self.timeout
        res = self.res = Result()
        c, d = self.c, self.d = self.build()
        res.info["functions"] = c.functions
        res.info["abstractions"] = d.abstractions
        res.info["state_bits"] = sum(r.nbits for r in d.regs)
        if not c.ensures:
            raise RuntimeError("no obligations in " + self.label)
        if c.track:
            self.cs, self.ds = self.build(track=False)
        else:
            self.cs, self.ds = c, d
        sim = self.sim = Sim(d)
        sims = sim if self.ds is d else Sim(self.ds)
        # 1. translator cross-check against Migen's simulator, on the search design
        self.crosscheck(sims)
        # 2. random search (also the learning sample)
        run = Runner(self.cs, self.ds, sims, self.seed)
        samples = []
        v = None
        n = c.sim_traces*(4 if self.deep else 1) if self.ds is d else 2
        for t in range(n):
            v, tr = run.run(t, c.sim_cycles, collect=samples if self.ds is d else None)
            if v:
                break
        res.info["sim_cycles"] = run.cycles_ok
        if v:
            return self.violation(v, tr, "random simulation")
        if run.cycles_ok < c.sim_cycles//2:
            raise Blocked("requires of %s are (nearly) unsatisfiable: %d cycles" % (self.label, run.cycles_ok))
        missing = [nme for nme, _ in c.covers if nme not in run.covered]
        if self.ds is not d:
            run2 = Runner(c, d, sim, self.seed)
            for t in range(c.sim_traces):
                run2.run(t, c.sim_cycles, collect=samples, stop_on_violation=False)
        # 3. proof
        self.log("regs", len(d.regs), "bits", res.info["state_bits"], "samples", len(samples), "%.1fs" % (time.time()-t0))
        try:
            self.prove(samples)
            if missing and not c.track:
                missing = self.cover(missing)
        except Timeout as e:
            res.status = "unknown"
            res.log.append("solver gave up: %s" % e)
            todo = set(n for n, _ in c.ensures)
            res.failed = sorted(todo)
        if res.status == "ok" and missing:
            res.status, res.unreached = "vacuous", missing
            res.log.append("cover goals not reached: %s" % missing)
        if res.status in ("unproved", "unknown"):
            self.disprove(samples, missing)
        res.info["wall"] = time.time() - t0
        return res

    def escalate_window(self, samples, missing):
        """second attempt at a proof over a window of k steps: facts of the registers (values,
        constant bits) that hold for all inputs"""
        c, res = self.c, self.res
        left = min(ESCALATION_S, self.check_deadline - time.time())
        if left < 20:
            return
        first = (res.status, res.obligations, res.failed, res.invariants)
        res.status, res.obligations, res.failed = "ok", [], []
        self.deadline = time.time() + left
        c.aux, c.learn_kbits = "all", True
        try:
            self.prove(samples)
            if missing:
                missing = self.cover(missing)
        except Timeout as e:
            res.status = "unknown"
        if res.status == "ok":
            if missing:
                res.status, res.unreached = "vacuous", missing
            res.log = ["proved at the second attempt, register facts"]
        else:
            res.status, res.obligations, res.failed, res.invariants = first

    def escalate(self, missing):
        """second attempts at a failed proof, with a richer vocabulary of candidate facts: linear
        relations first; the conditions the code itself tests, implications; then deeper induction"""
        c, d, res = self.c, self.d, self.res
        for level in (0, 1, 2):
            left = min(ESCALATION_S, self.check_deadline - time.time())
            if left < 20:
                return
            first = (res.status, res.obligations, res.failed, res.invariants)
            res.status, res.obligations, res.failed = "ok", [], []
            self.deadline = time.time() + left
            if level == 0:
                c.learn_sums, c.learn_kbits = True, True
            elif level == 1:
                c.learn_implications, c.learn_sums, c.learn_kbits, c.max_implied = True, True, True, 120
                preds = d.predicates(60)
                self.log("escalation: %d predicates of the code" % len(preds))
                c.guards = list(c.guards) + preds
                self.sim = Sim(d)
            else:
                c.k += 2
            samples = []
            run = Runner(c, d, self.sim, "again%s" % self.seed)
            for t in range(c.sim_traces*4):
                run.run(t, c.sim_cycles, collect=samples, stop_on_violation=False)
                if time.time() > self.deadline - left*0.8:
                    break
            try:
                self.prove(samples)
                if missing:
                    missing = self.cover(missing)
            except Timeout as e:
                res.status = "unknown"
            if res.status == "ok":
                if missing:
                    res.status, res.unreached = "vacuous", missing
                res.log = ["proved at the second attempt, level %d" % level]
                return
            res.status, res.obligations, res.failed, res.invariants = first

    # -- translator validation
    def crosscheck(self, sims):
        # fresh instance for Migen's simulator (it rewrites the fragment)
        cm = self.make()
        run = Runner(self.cs, self.ds, sims, "xcheck%s" % self.seed)
        _, tr = run.run(0, getattr(self.c, "xcheck_cycles", 60), stop_on_violation=False)
        mr = MigenRun(cm.frag, self.ds.domains or ["sys"])
        pairs = list(zip([s for _, s in self.cs.ensures + self.cs.requires] + self.cs.watch,
                         [s for _, s in cm.ensures + cm.requires] + cm.watch))
        inmap = self.inmap(cm)
        st = list(sims.reset)
        for (r, v) in zip([inmap[s] for s in self.ds.rigid], tr.rigid):
            mr.set(r, v)
        for ins, tm in tr.cycles:
            for s, v in zip(self.ds.inputs, ins):
                mr.set(inmap[s], v)
            mr.settle()
            V = sims.comb(tr.rigid + ins + st)
            for a, b in pairs:
                if V[sims.ix[a]] != mr.get(b):
                    raise RuntimeError("translator disagrees with Migen's simulator on %s" % self.ds.name(a))
            st = sims.step(V, tm)
            mr.tick([dn for i, dn in enumerate(self.ds.domains) if tm >> i & 1], self.ds.alias)
        self.res.info["xcheck_cycles"] = len(tr.cycles)

    def inmap(self, cm):
        """inputs/rigids of the search design -> the same signals of a fresh contract instance:
        constructors are deterministic, so the extraction of the fresh instance lists them in
        the same order"""
        base = list(self.ds.rigid) + list(self.ds.inputs)
        # signals get consecutive DUIDs; two instances of the same contract allocate the same
        # sequence, so duid offsets from the contract's first signal coincide
        off_a, off_b = self.cs.duid0, cm.duid0
        want = {s.duid - off_a: s for s in base}
        from migen.fhdl.tools import list_signals
        f = cm.frag
        sigs = set(list_signals(f))
        for cd in f.clock_domains:
            sigs.add(cd.clk)
            if cd.rst is not None:
                sigs.add(cd.rst)
        for sp in f.specials:
            for obj, attr, direction in sp.iter_expressions():
                e = getattr(obj, attr)
                if e is not None:
                    sigs |= set(list_signals(e))
        sigs |= set(cm.rigids) | set(s for _, s in cm.requires + cm.ensures)
        byoff = {s.duid - off_b: s for s in sigs}
        out = {}
        for o, s in want.items():
            t = byoff.get(o)
            if t is None:
                # not part of the fragment before lowering (e.g. created by the extraction)
                t = Signal(s.nbits)
            elif t.nbits != s.nbits:
                raise RuntimeError("non-deterministic elaboration: %s" % self.ds.name(s))
            out[s] = t
        return out

    # -- confirming a violation on the real code
    def violation(self, name, tr, how):
        res = self.res
        ok = self.replay(name, tr)
        res.cex = {"obligation": name, "found_by": how, "confirmed": ok,
                   "domains": self.ds.domains,
                   "rigid": {self.ds.name(s): v for s, v in zip(self.ds.rigid, tr.rigid)},
                   "inputs": [self.ds.name(s) for s in self.ds.inputs],
                   "cycles": [[list(i), t] for i, t in tr.cycles],
                   "rigid_values": list(tr.rigid),
                   "watch": self.last_watch}
        if not ok:
            raise RuntimeError("counterexample to %s/%s does not replay on Migen's simulator" % (self.label, name))
        res.status = "violation"
        res.failed = [name]
        return res

    def replay(self, name, tr):
        cm = self.make()
        mr = MigenRun(cm.frag, self.ds.domains or ["sys"])
        inmap = self.inmap(cm)
        req = [s for _, s in cm.requires]
        ens = dict(cm.ensures)[name]
        for (r, v) in zip([inmap[s] for s in self.ds.rigid], tr.rigid):
            mr.set(r, v)
        self.last_watch = []
        for n, (ins, tm) in enumerate(tr.cycles):
            for s, v in zip(self.ds.inputs, ins):
                mr.set(inmap[s], v)
            mr.settle()
            if not all(mr.get(s) for s in req):
                return False
            if cm.watch:
                self.last_watch.append([mr.get(w) for w in cm.watch])
            if not mr.get(ens):
                return True
            mr.tick([dn for i, dn in enumerate(self.ds.domains) if tm >> i & 1], self.ds.alias)
        return False

    def local_invariants(self, cands):
        """Facts about registers of one clock domain that depend on that domain alone: proved by
        deeper induction over that domain's own edges.  Edges of other domains change nothing such
        a fact depends on, so it holds under every interleaving."""
        c, d = self.c, self.d
        for cd in d.domains:
            def local(*sigs):
                return all(d.sync[r][0] == cd for s in sigs for r in d.cone(s) if r in d.sync)
            sub = [x for x in cands if local(*[s for s in x.signals()])]
            if not sub:
                continue
            n = len(sub)
            req = [(nm, r) for nm, r in c.requires if local(r)]
            save = c.requires
            c.requires = req
            try:
                sub = self.houdini_init(sub, Unroller(d, "reset"), c.k_local, only=cd)
                sub = self.houdini_step(sub, Unroller(d, "any"), c.k_local, only=cd)
            finally:
                c.requires = save
            self.log("domain", cd, "kept", len(sub), "of", n)
            self.inv += sub

    # -- proof
    def prove(self, samples):
        self.local_user = set()
        c, d, res = self.c, self.d, self.res
        user = [Cand("true", s, text=n, user=n) for n, s in c.ensures]
        aux = learn(c, d, self.sim, samples) if c.houdini else []
        extra = [Cand("true", s, text=d.name(s)) for s in c.hints]
        cands = user + extra + aux
        K = c.k
        self.log("candidates", len(cands), "k", K)
        if os.environ.get("VD_CANDS"):
            for x in cands:
                self.log("candidate", x.text)
        self.inv = []
        if c.k_local > 1 and len(d.domains) > 1:
            self.local_invariants(user + extra + aux)
            have = set(id(x) for x in self.inv)
            for x in self.inv:
                if x.user:
                    self.local_user.add(x.user)
            cands = [x for x in cands if id(x) not in have]
        if getattr(c, "aux", False):
            # auxiliary inductive invariant over the control bits, for all inputs (no tick)
            small = [x for x in learn(c, d, self.sim, samples) if x.kind in ("eqw", "eqc") and x.a.nbits == 1 or
                     c.aux == "all" and x.kind in ("eqw", "eqc", "bits", "in", "le", "ge")]
            tick, c.tick, hd, c.houdini = c.tick, None, c.houdini, True
            small = self.houdini_init(small, Unroller(d, "reset"), 1)
            small = self.houdini_step(small, Unroller(d, "any"), 1)
            c.tick, c.houdini = tick, hd
            self.inv = small
            self.log("aux control invariants", len(small))
        # frame obligation: nothing moves when the pipeline does not advance
        if c.tick is not None:
            u = Unroller(d, "any")
            f0 = u.frame(0)
            s = new_solver(self.timeout)
            for _, r in c.requires:
                s.add(f0.sig(r) == 1)
            s.add(f0.sig(c.tick) == 0)
            for x in self.inv:
                s.add(x.z(f0))
            diffs = []
            for r in d.regs:
                n, o = f0.next(r), f0.sig(r)
                if not z3.eq(n, o):
                    diffs.append(n != o)
            if diffs:
                s.add(z3.Or(diffs))
                if self.check(s):
                    m = s.model()
                    bad = [d.name(r) for r in d.regs if z3.is_true(m.eval(f0.next(r) != f0.sig(r), model_completion=True))]
                    res.failed.append("stall_frame")
                    res.status = "unproved"
                    res.log.append("stall frame: state changes while stalled: %s" % bad[:8])
            res.obligations.append(("stall_frame", res.status == "ok"))
        # initial states
        u0 = Unroller(d, "reset")
        cands = self.houdini_init(cands, u0, K)
        # step
        u = Unroller(d, "any")
        cands = self.houdini_step(cands, u, K) if c.houdini else self.direct_step(cands, u, K)
        kept = set(x.user for x in cands if x.user) | self.local_user
        for n, _ in c.ensures:
            good = n in kept
            res.obligations.append((n, good))
            if not good:
                res.failed.append(n)
                res.status = "unproved"
        res.invariants = len([x for x in cands if not x.user]) + len(self.inv)
        self.kept = cands
        self.log("proved" if res.status == "ok" else "NOT proved %s" % res.failed, "aux invariants", res.invariants)

    def houdini_init(self, cands, u0, K, only=None):
        c = self.c
        dropped_user = []
        for k in range(K):
            f = u0.frame(k)
            s = new_solver(self.timeout)
            for j in range(k + 1):
                for _, r in c.requires:
                    s.add(u0.frame(j).sig(r) == 1)
                if c.tick is not None and j < k:
                    s.add(u0.frame(j).sig(c.tick) == 1)
                for x in self.inv:
                    s.add(x.z(u0.frame(j)))
                if only is not None and j < k:
                    u0.frame(j + 1)
                    s.add(u0.tickvars[j][only])
            if c.houdini:
                cands = self.drop_loop(s, cands, lambda x: x.z(f))
            else:
                base = list(s.assertions())
                cands = [x for x in cands if self.discharge(base + [z3.Not(x.z(f))], x.text)]
        return cands

    def drop_loop(self, s, cands, z):
        """removes every candidate that can be false under s (which may not depend on cands)"""
        live = []
        s.push() if False else None
        lits = []
        for i, x in enumerate(cands):
            e = z3.simplify(z(x))
            if z3.is_true(e):
                live.append([x, None, None])
                continue
            b = z3.FreshBool("v")
            s.add(z3.Implies(b, z3.Not(e)))
            live.append([x, b, e])
        while True:
            bs = [l[1] for l in live if l[1] is not None]
            if not bs:
                break
            g = z3.FreshBool("g")
            s.add(z3.Implies(g, z3.Or(bs)))
            if not self.check(s, g):
                break
            m = s.model()
            keep = []
            for l in live:
                if l[1] is not None and z3.is_false(m.eval(l[2], model_completion=True)):
                    continue
                keep.append(l)
            if len(keep) == len(live):
                raise RuntimeError("houdini made no progress")
            live = keep
        return [l[0] for l in live]

    def houdini_step(self, cands, u, K, only=None):
        c = self.c
        s = new_solver(self.timeout)
        for k in range(K + 1):
            f = u.frame(k)
            for _, r in c.requires:
                s.add(f.sig(r) == 1)
            if c.tick is not None and k < K:
                s.add(f.sig(c.tick) == 1)
            for x in self.inv:
                s.add(x.z(f))
            if only is not None and k < K:
                u.frame(k + 1)
                s.add(u.tickvars[k][only])
        fK = u.frame(K)
        live = []
        for x in cands:
            hyp = [z3.simplify(x.z(u.frame(k))) for k in range(K)]
            con = z3.simplify(x.z(fK))
            a = z3.FreshBool("a")
            s.add(z3.Implies(a, z3.And(hyp)))
            if z3.is_true(con):
                b = None
            else:
                b = z3.FreshBool("b")
                s.add(z3.Implies(b, z3.Not(con)))
            live.append((x, a, b, con))
        rounds = 0
        self.counter_state = None
        while True:
            bs = [l[2] for l in live if l[2] is not None]
            if not bs:
                break
            g = z3.FreshBool("g")
            s.add(z3.Implies(g, z3.Or(bs)))
            rounds += 1
            if not self.check(s, g, *[l[1] for l in live]):
                break
            m = s.model()
            keep = []
            for l in live:
                if l[2] is not None and z3.is_false(m.eval(l[3], model_completion=True)):
                    dbg = os.environ.get("VD_DEBUG")
                    if dbg:
                        self.log(rounds, "dropping", l[0].text)
                        if dbg == l[0].text:
                            self.dump_model(m, u, K)
                    continue
                keep.append(l)
            if len(keep) == len(live):
                raise RuntimeError("houdini made no progress")
            live = keep
        self.log("houdini rounds", rounds, "kept", len(live), "of", len(cands))
        return [l[0] for l in live]

    def direct_step(self, cands, u, K):
        """each obligation on its own, all of them as induction hypotheses"""
        c = self.c
        base = []
        for k in range(K + 1):
            f = u.frame(k)
            base += [f.sig(r) == 1 for _, r in c.requires]
            if c.tick is not None and k < K:
                base.append(f.sig(c.tick) == 1)
            base += [x.z(f) for x in self.inv]
        fK = u.frame(K)
        hyps = [x.z(u.frame(k)) for k in range(K) for x in cands] if getattr(c, "use_hyps", False) else []
        return [x for x in cands if self.discharge(base + hyps + [z3.Not(x.z(fK))], x.text)]

    def dump_model(self, m, u, K):
        for k in range(K + 1):
            f = u.frame(k)
            print("   frame", k, {self.d.name(s): m.eval(f.sig(s), model_completion=True).as_long()
                                  for s in self.d.regs + self.d.inputs + self.d.rigid + self.c.terms})

    def cover(self, missing):
        """reachability of the cover goals by bounded unrolling (vacuity guard)"""
        u = Unroller(self.ds, "reset")
        left = list(missing)
        goals = dict(self.cs.covers)
        s = new_solver(self.timeout)
        for k in range(self.c.bmc):
            f = u.frame(k)
            for _, r in self.cs.requires:
                s.add(f.sig(r) == 1)
            for n in list(left):
                s.push()
                s.add(f.sig(goals[n]) == 1)
                if self.check(s):
                    left.remove(n)
                s.pop()
            if not left:
                break
        return left

    def disprove(self, samples, missing):
        """after a failed proof: a search for a failing input, second attempts at the proof while
        random runs go on in other processes, then the rest of the search"""
        c, t0 = self.cs, time.time()
        c.searching = True
        total = min(c.search_s, max(20, self.check_deadline - t0))
        self.workers = [self.worker(n, t0 + 2*total + 2*ESCALATION_S) for n in range(int(os.environ.get("VD_WORKERS", "3")))]
        try:
            if self.search(0.4*total):
                return
            c.searching = False
            if not self.c.track:
                try:
                    (self.escalate if self.c.houdini else lambda m: self.escalate_window(samples, m))(missing)
                except Found:
                    return
            c.searching = True
            if self.res.status in ("unproved", "unknown") and not self.search(0.6*total):
                self.res.log.append("no failing input found: random runs, unrolling from reset to depth %s and from %d reached states" % (self.depth, self.reached))
        finally:
            c.searching = False
            for pid, fd in self.workers:
                try:
                    os.kill(pid, 9)
                except ProcessLookupError:
                    pass
                os.waitpid(pid, 0)
                os.close(fd)
            self.workers = ()

    # -- counterexample search after a failed proof
    def search(self, seconds):
        """random runs in the forked workers; meanwhile bounded unrolling from reset, then from
        states that random runs reach"""
        c = self.cs
        t0 = time.time()
        end = t0 + seconds
        if not c.track and self.unroll(None, [], c.bmc, t0 + 0.6*seconds):
            return True
        while time.time() < end:
            if c.track:
                time.sleep(0.5)
            else:
                self.reached += 1
                if self.hybrid(self.reached, min(end, time.time() + 20)):
                    return True
            if self.poll():
                return True
        return self.poll()

    def worker(self, n, end):
        """a forked process of random runs; reports the first violation on a pipe"""
        c, d = self.cs, self.ds
        r, w = os.pipe()
        pid = os.fork()
        if pid:
            os.close(w)
            return pid, r
        try:
            os.close(r)
            os.nice(19)
            run = Runner(c, d, Sim(d), "search%s/%d" % (self.seed, n))
            t = 0
            while time.time() < end:
                k = t + n
                v, tr = run.run(t, c.search_cycles[k % len(c.search_cycles)] if c.search_cycles else c.sim_cycles*(1 + k % 5), end=end)
                t += 1
                if v:
                    data = pickle.dumps((v, tr.rigid, tr.cycles))
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                    break
        finally:
            os._exit(0)

    def poll(self):
        """True if a worker has found a violation, which becomes the result"""
        for pid, fd in self.workers:
            if select.select([fd], [], [], 0)[0]:
                data = b""
                while True:
                    b = os.read(fd, 1 << 16)
                    if not b:
                        break
                    data += b
                if data:
                    name, rigid, cycles = pickle.loads(data)
                    self.violation(name, Trace(rigid, cycles), "random simulation")
                    return True
        return False

    def hybrid(self, n, end):
        """bounded unrolling from a state that a random run reaches"""
        c, d = self.cs, self.ds
        sim = Sim(d)
        run = Runner(c, d, sim, "hybrid%s" % self.seed)
        states = []
        lengths = c.search_cycles or [c.sim_cycles]
        length = lengths[n % len(lengths)]
        rng = random.Random(n)
        at = rng.randrange(1, length)
        v, tr = run.run(n, at, end=end, states=states)
        if v:
            self.violation(v, tr, "random simulation")
            return True
        return self.unroll((tr, states[-1]), tr.cycles, 60, end)

    def unroll(self, start, prefix, depth, end):
        c, d = self.cs, self.ds
        if start is None:
            u = Unroller(d, "reset")
        else:
            tr, st = start
            u = Unroller(d, dict(zip(d.regs, st)), rigid=dict(zip(d.rigid, tr.rigid)))
        s = new_solver(self.timeout)
        names = [n for n, _ in c.ensures]
        sig = dict(c.ensures)
        for k in range(depth + 1):
            left = end - time.time()
            if left <= 0:
                break
            if self.poll():
                return True
            if start is None:
                self.depth = k
            f = u.frame(k)
            for _, r in c.requires:
                s.add(f.sig(r) == 1)
            if len(d.domains) > 1:
                s.add(z3.Or([t for t in u.tickvars[k].values()]))
            g = z3.FreshBool("bad")
            s.add(z3.Implies(g, z3.Or([f.sig(x) == 0 for x in sig.values()])))
            s.set("timeout", int(max(1, left)*1000))
            t0 = time.time()
            r = s.check(g)
            self.stats.solver_s += time.time() - t0
            self.stats.queries += 1
            if r == z3.unknown:
                break
            if r == z3.unsat and k % 8 == 7 and start is not None:
                # the environment has no continuation from here
                s.set("timeout", int(max(1, end - time.time())*1000))
                if s.check() != z3.sat:
                    break
            if r == z3.sat:
                m = s.model()
                val = lambda sg, t: signed_fix(sg, m.eval(t, model_completion=True).as_long())
                rigid = [val(x, u.rigid[x]) for x in d.rigid]
                cyc = []
                for j in range(k + 1):
                    ins = [val(x, u.inputs[j][x]) for x in d.inputs]
                    tm = 0
                    for i, cd in enumerate(d.domains):
                        if z3.is_true(m.eval(u.tickvars[j][cd], model_completion=True)):
                            tm |= 1 << i
                    cyc.append((ins, tm))
                bad = [n for n in names if m.eval(f.sig(sig[n]), model_completion=True).as_long() == 0]
                self.violation(bad[0], Trace(rigid, list(prefix) + cyc), "bounded unrolling, depth %d%s" % (
                    k, "" if start is None else " from cycle %d of a random run" % len(prefix)))
                return True
        return False
