"""Runs a stimulus on the real elaborated module inside Migen's own simulator (its evaluator
and statement executor, unmodified), with the contract's monitors attached."""
from migen import *
from migen.sim.core import Simulator
from migen.fhdl.specials import Instance, Tristate
from .design import InstanceOverride, TristateOverride


class MigenRun:
    def __init__(self, contract, domains):
        clocks = {d: 10 for d in sorted(set(domains) | set(contract.sync.keys()) | {"sys"})}
        self.sim = Simulator(contract, {d: [] for d in clocks}, clocks=clocks,
                             special_overrides={Instance: InstanceOverride, Tristate: TristateOverride})
        self.f = self.sim.fragment
        self.ev = self.sim.evaluator
        self.ev.execute(self.f.comb)
        self.sim._commit_and_comb_propagate()

    def set(self, sig, v):
        self.ev.assign(sig, v)

    def settle(self):
        self.sim._commit_and_comb_propagate()

    def get(self, sig):
        return self.ev.eval(sig)

    def tick(self, domains, alias={}):
        for d in list(domains) + [a for a, o in alias.items() if o in domains]:
            if d in self.f.sync:
                self.ev.execute(self.f.sync[d])
        self.sim._commit_and_comb_propagate()
