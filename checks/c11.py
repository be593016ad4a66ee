"""TMDS decoding and loopback"""
import numpy as np
from migen import *
import gw, tmds
from streams import *

RULE = ("all 1024 ten-bit words in random order and random valid flags through the decoder, and random active/control sequences through "
        "encoder and decoder back to back; every output is compared with the DVI 1.0 decoding; a case is a distinct symbol or "
        "(value, previous symbol) pair")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics"]
MIN_EVENTS = 200000
MUST_OBSERVE = ("distinct symbols", "loopback pixels", "control symbols")


def jobs(tier, seed):
    n = 8 if tier == "quick" else 100
    return ([dict(name="words-{}".format(k), kind="words", seed=seed + k, n=60000) for k in range(n)] +
            [dict(name="loop-{}".format(k), kind="loop", seed=seed + k, n=60000) for k in range(n)])


class Loop(Module):
    def __init__(self, E, D):
        self.submodules.enc = ClockDomainsRenamer("pix")(E())
        self.submodules.dec = D()
        self.comb += self.dec.input.eq(self.enc.out)


def run(job, ctx):
    from litevideo.output.hdmi.encoder import Encoder
    from litevideo.input.decoding import Decoding
    rng = npr(job)
    n = job["n"]
    loop = job["kind"] == "loop"
    top = ctx.build(Loop, Encoder, Decoding) if loop else ctx.build(Decoding)
    dec = top.dec if loop else top
    sim = ctx.build(gw.Sim, top, clocks=("pix",))
    o = dec.output
    outs = [o.de, o.d, o.c, o.raw, dec.valid_o]
    val = (rng.random(n) < .9).astype(np.int64)
    if loop:
        d, c = rng.integers(0, 256, n), rng.integers(0, 4, n)
        de = np.ones(n, np.int64)
        i = 0
        while i < n:
            a, b = int(rng.integers(1, 60)), int(rng.integers(1, 30))
            de[i + a:i + a + b] = 0
            i += a + b
        out = sim.run_trace(sim.mask("pix"), [top.enc.d, top.enc.c, top.enc.de, dec.valid_i], np.stack([d, c, de, val], 1), outs + [dec.input])
        sym = tmds.encode(d, c, de)
        lat0 = next((l for l in range(1, 13) if (out[l + 8:, 5] == sym[8:-l]).all()), None)
        if not ctx.expect(lat0 is not None, "the encoder's symbols differ from the DVI algorithm"):
            return
        sym = out[:, 5]
        ctx.count("loopback pixels", int(de.sum()))
        edata = np.zeros(n, np.int64)
        edata[lat0:] = np.where(de == 1, d, -1)[:-lat0]
    else:
        sym = np.concatenate([rng.permutation(1024) for _ in range(n//1024 + 1)])[:n]
        sym[::7] = np.array(tmds.CONTROL)[rng.integers(0, 4, len(sym[::7]))]
        out = sim.run_trace(sim.mask("pix"), [dec.input, dec.valid_i], np.stack([sym, val], 1), outs)
    rde, rd, rc = tmds.decode(sym)
    # during active data the control bits keep the value of the last control symbol
    idx = np.where(rde == 0, np.arange(n), -1)
    idx = np.maximum.accumulate(idx)
    hold = np.where(idx >= 0, rc[np.maximum(idx, 0)], -1)
    best = (-1, "")
    ok = None
    for l in range(1, 8):
        g = out[l:]
        r = slice(0, n - l)
        s = 40
        bad = [
            ("data enable", g[:, 0] != rde[r]),
            ("data", (rde[r] == 1) & (g[:, 1] != rd[r])),
            ("control bits", (hold[r] >= 0) & (g[:, 2] != hold[r])),
            ("raw symbol", g[:, 3] != sym[r]),
            ("valid", g[:, 4] != val[r]),
        ]
        first = [(int(np.nonzero(b[s:])[0][0]) + s, w) for w, b in bad if b[s:].any()]
        if not first:
            ok = l
            break
        f = min(first)
        if f[0] > best[0]:
            best = (f[0], "{}: {} wrong for symbol {:010b}: got de={} d={:#x} c={} raw={:#x} valid={}".format(job["name"], f[1], int(sym[f[0]]), *[int(x) for x in g[f[0], :5]]))
    if ok is None:
        ctx.fail(best[1])
        return
    if loop:
        g = out[ok:]
        e = edata[:n - ok]
        bad = (e >= 0) & (g[:, 1] != e) & (np.arange(len(e)) > 40)
        ctx.expect(not bad.any(), "loopback changed a pixel")
    ctx.ev(n)
    ctx.count("control symbols", int((rde == 0).sum()))
    u = set(sym.tolist())
    ctx.count("distinct symbols", len(u))
    ctx.states_bulk((a, b) for a, b in zip(sym[:20000].tolist(), sym[1:20001].tolist()))
    ctx.sample("{}: {} symbols, latency {}".format(job["name"], n, ok))
    ctx.sanitizers(sim)
