"""Differential self-check of the execution engine: the same design, the same
random stimulus, once through lib/gw.py and once through migen.sim; every
signal of the fragment is compared after every edge."""
import random, sys, copy
from migen import *
from migen.fhdl.tools import list_signals, list_targets
from migen.fhdl.structure import _Fragment
from migen.fhdl.specials import Memory, Instance
from migen.sim.core import Simulator
import gw


def _order(frag):
    s = list_signals(frag) | list_targets(frag)
    for sp in frag.specials:
        for o, a, d in sp.iter_expressions():
            e = getattr(o, a)
            if e is not None:
                s |= list_signals(e)
    return sorted(s, key=lambda x: x.duid)


def compare(make, clocks, cycles=300, seed=1, poke_prob=0.7, hold=()):
    """make() -> Module; clocks: {name: (period, phase)} -> (#edges, #signals)"""
    rng = random.Random(seed)
    a, b = make(), make()
    fa, fb = a.get_fragment(), b.get_fragment()
    sa, sb = _order(fa), _order(fb)
    assert len(sa) == len(sb)
    targets = list_targets(fa)
    for sp in fa.specials:
        for o, at, d in sp.iter_expressions():
            if d != "i" and getattr(o, at) is not None:
                targets |= list_signals(getattr(o, at))
    cks = set(cd.clk for cd in fa.clock_domains)
    sim = gw.Sim(fa, clocks=())
    targets |= list_targets(fa)     # after lowering
    free = [i for i, s in enumerate(sa) if s not in targets and s not in cks and sim.known(s)]
    bad = []
    stats = [0]
    mask = sim.mask

    vals = {}
    for i in free:
        vals[i] = int(sa[i].reset.value)

    class Stop(Exception):
        pass
    # run migen's evaluator by hand so that the schedule is ours
    s = Simulator(fb, [], clocks={k: 10 for k in clocks})
    ev = s.evaluator
    ev.execute(s.fragment.comb)
    s._commit_and_comb_propagate()
    names = sorted(clocks)
    for t in range(cycles):
        doms = [d for d in names if rng.random() < clocks[d]]
        ch = [(i, rng.getrandbits(sa[i].nbits) if rng.random() < .7 else rng.choice([0, (1 << sa[i].nbits) - 1]))
              for i in free if rng.random() < poke_prob]
        for i, v in ch:
            sim[sa[i]] = v
            ev.assign(sb[i], v)
        sim.settle()
        s._commit_and_comb_propagate()
        sim.tick(*doms) if doms else None
        for d in doms:
            # both sides see clk high during the low->high edge
            ev.assign(s.fragment.clock_domains[d].clk, 1)
            if d in s.fragment.sync:
                ev.execute(s.fragment.sync[d])
        s._commit_and_comb_propagate()
        for i in range(len(sa)):
            if not sim.known(sa[i]) or sa[i] in cks:
                continue
            x = sim[sa[i]]
            y = ev.signal_values[sb[i].duid]
            if y is None:
                y = sb[i].reset.value
            if sa[i].nbits >= 64 and x < 0:
                pass
            if x != int(y):
                bad.append((t, sa[i].backtrace[-1][0] if sa[i].backtrace else i, x, int(y)))
        stats[0] += len(doms)
        if bad:
            break
    return stats[0], len(sa), len(free), bad, sim
