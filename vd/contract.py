"""Contracts on Migen modules.  A contract is itself an FHDL module that instantiates the real
litevideo class and adds ghost state: `require` (environment), `ensure` (postcondition at every
clock edge), `term`/`guard` (vocabulary offered to the invariant search), `rigid` (universally
quantified constants)."""
from migen import *
from migen.fhdl.structure import _Value
from litex.soc.interconnect.csr import _CSRBase, CSRFieldAggregate


def nz(e):
    """boolean value of an FHDL expression"""
    return e if isinstance(e, Signal) and len(e) == 1 and not e.signed else (e != 0)


def Not(a):
    return a == 0


def And(*a):
    r = nz(a[0])
    for x in a[1:]:
        r = r & nz(x)
    return r


def Or(*a):
    r = nz(a[0])
    for x in a[1:]:
        r = r | nz(x)
    return r


def Imp(a, *b):
    return Or(Not(a), And(*b))


def Iff(a, b):
    return nz(a) == nz(b)


class Wiring(Exception):
    """the vendor primitives are not connected as the contract needs to find them"""


class Contract(Module):
    # tunables
    k = 1                 # induction depth
    k_local = 1           # induction depth of the per-clock-domain facts (multi-clock designs)
    houdini = True        # learn auxiliary invariants
    bmc = 40              # depth of the counterexample search (after a failed proof)
    sim_traces = 24
    sim_cycles = 150
    search_s = 60         # seconds of that search
    searching = False     # set during it: drivers may choose longer runs
    search_cycles = ()    # lengths of the runs of the search after a failed proof
    tick_rates = {}       # probability of an edge of a clock in these runs
    collect_from = 0      # first cycle of a random run offered to the learning
    learn_max_regs = 4000
    learn_bits = True
    learn_bitc = True     # constant bits
    learn_implications = True
    learn_sums = False    # linear relations (second attempts)
    learn_kbits = False    # constant bits of registers (second attempts)
    slices = False        # look for guarded equalities with slices of registers

    def __init__(self):
        self.frag = None
        self.duid0 = Signal().duid
        self.requires, self.ensures, self.terms, self.guards = [], [], [], []
        self.covers = []
        self.rigids = []
        self.hints = []
        self.ne_guards = []        # (guard, word): offer "guard -> register != word"
        self.pair_guards = []      # guard: offer clauses over two 1-bit registers under it
        self.focus = None          # cycles the sampling of candidates keeps by preference
        self.rigid_choices = {}
        self.track = {}
        self.tick = None
        self.open = None
        self.extra_domains = []
        self.functions = []        # functions/modules under contract (reported)
        self.driver = None         # optional: f(rng, t, ins, get) mutating ins
        self.watch = []            # signals shown in counterexamples

    def _sig(self, e, name, boolean=True):
        if isinstance(e, Signal) and (not boolean or (len(e) == 1 and not e.signed)):
            return e
        if boolean:
            s = Signal(name_override=name)
            self.comb += s.eq(e != 0 if not isinstance(e, bool) else int(e))
        else:
            from migen.fhdl.bitcontainer import value_bits_sign
            s = Signal(value_bits_sign(e), name_override=name)
            self.comb += s.eq(e)
        return s

    def require(self, name, e):
        s = self._sig(e, "req_" + name)
        self.requires.append((name, s))
        return s

    def ensure(self, name, e):
        s = self._sig(e, "ens_" + name)
        self.ensures.append((name, s))
        return s

    def cover(self, name, e):
        s = self._sig(e, "cov_" + name)
        self.covers.append((name, s))
        return s

    def term(self, e, width=None, name=None):
        if width is not None:
            s = Signal(width, name_override=name or "term%d" % len(self.terms))
            self.comb += s.eq(e)
        else:
            s = self._sig(e, name or "term%d" % len(self.terms), boolean=False)
        self.terms.append(s)
        return s

    def hint(self, e, name="hint"):
        """candidate auxiliary invariant (kept only if proved inductive)"""
        s = self._sig(e, name)
        self.hints.append(s)
        return s

    def guard(self, e, name=None):
        s = self._sig(e, name or "guard%d" % len(self.guards))
        self.guards.append(s)
        return s

    def guard_ne(self, g, word):
        self.ne_guards.append((self._sig(g, "guard_ne%d" % len(self.ne_guards)), word))

    def guard_pairs(self, g):
        self.pair_guards.append(self._sig(g, "guard_p%d" % len(self.pair_guards)))

    def rigid(self, bits_sign, name="rigid", choices=None):
        s = Signal(bits_sign, name_override=name)
        self.rigids.append(s)
        if choices is not None:
            self.rigid_choices[s] = choices
        return s

    def word(self, mem, adr, choices=None):
        """current contents of a large memory at a constant address (the proof keeps only the words
        asked for, from arbitrary initial values)"""
        p = mem.get_port(async_read=True)
        self.specials += p
        self.comb += p.adr.eq(adr)
        self.track.setdefault(mem, []).append((p.adr, self.rigid(mem.width, "first_value", choices)))
        return p.dat_r

    def set_tick(self, e):
        self.tick = self._sig(e, "tick")

    def port_widths(self, *ports, **named):
        """port_widths(obj, name=bits, ...) or port_widths((signal, bits), ...): the ports hold the
        values the property speaks of (otherwise the contract would only see their remaining bits)"""
        if named:
            ports = [(getattr(ports[0], n), b) for n, b in named.items()]
        self.ensure("port_widths", Constant(int(all(len(s) >= b for s, b in ports))))

    def interface(self, *objs):
        """Declares the free inputs: the undriven signals among the public attributes of these
        objects.  Every other undriven signal keeps its reset value, as in the generated Verilog.
        Without any call, every undriven signal is a free input."""
        if self.open is None:
            self.open = set()
        for o in objs:
            self._open(o, 0)

    def _open(self, o, depth):
        if isinstance(o, Signal):
            self.open.add(o)
        elif isinstance(o, Record):
            for s, _ in o.iter_flat():
                self.open.add(s)
        elif isinstance(o, (list, tuple)):
            for x in o:
                self._open(x, depth)
        elif isinstance(o, dict):
            for x in o.values():
                self._open(x, depth)
        elif isinstance(o, (_CSRBase, CSRFieldAggregate)):
            for x in vars(o).values():
                if isinstance(x, Signal):
                    self.open.add(x)
                elif isinstance(x, CSRFieldAggregate):
                    self._open(x, depth)
        elif depth == 0 and hasattr(o, "__dict__"):
            for k, x in list(vars(o).items()):
                if k.startswith("_submodules") or k in ("_fragment", "get_fragment_called"):
                    continue
                if isinstance(x, (Signal, Record, list, tuple, dict, _CSRBase)):
                    self._open(x, 1)

    def roots(self):
        r = [s for _, s in self.requires + self.ensures + self.covers] + self.hints + self.terms + self.guards + self.pair_guards + ([self.focus] if self.focus is not None else []) + self.watch + [x for g in self.ne_guards for x in g]
        if self.tick is not None:
            r.append(self.tick)
        return r
