"""word error rate"""
import numpy as np
from migen import *
import gw, tmds
from streams import *

RULE = ("word streams (valid TMDS streams, all data and control characters, every 10-bit word, bursts and single errors at every phase of the "
        "measurement period) into the error meter, software updates at random instants, also less often than once in a period and around its end; every value read must be the number of illegal words of "
        "one complete period, the most recent one; a case is a distinct period content")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics", "one word per period may go uncounted",
          "the period is longer than the clock domain crossing (8 cycles of the slower clock)"]
MIN_EVENTS = 300000
MUST_OBSERVE = ("periods", "updates", "values read", "clean periods", "valid words", "illegal words", "full error periods", "seldom updates")
TR = np.array([bin((w ^ (w >> 1)) & 0xff).count("1") for w in range(1024)])
ILLEGAL = (TR > 4) & (tmds.CTL < 0)
VALID = np.array(sorted({s for s, _ in tmds.TABLE.values()}))
BADW = np.nonzero(ILLEGAL)[0]


def jobs(tier, seed):
    n = 40 if tier == "quick" else 400
    j = [dict(name="bits{}-{}".format(b, i), bits=b, seed=seed + i) for i in range(n//5) for b in (6, 7, 8, 10, 12)]
    j += [dict(name="valid-{}".format(i), bits=8, seed=seed + i, kind="valid") for i in range(4)]
    # the real period, with few, many and nothing but illegal words
    j += [dict(name="default-few", bits=None, seed=seed, cost=20, density=(.003, .01, .3)), dict(name="default-many", bits=None, seed=seed + 1, cost=20, density=(.66, 1., .1))]
    return j


def run(job, ctx):
    from litevideo.input.wer import WER
    assert not ILLEGAL[VALID].any()
    rng = npr(job)
    b = job["bits"]
    dut = ctx.build(WER) if b is None else ctx.build(WER, b)
    bits = 24 if b is None else b
    P = 1 << bits
    sim = ctx.build(gw.Sim, dut, clocks=("pix", "sys"))
    sim.set_jitter(int(rng.integers(1, 1 << 31)))
    np_ = 40 if bits <= 8 else (12 if bits <= 12 else 2)
    N = np_*P + P//2
    if bits <= 12:
        w = np.empty(N, np.int64)
        t = 0
        while t < N:
            L = int(rng.integers(1, 2*P))
            x = rng.random()
            kind = "valid" if job.get("kind") == "valid" else str(rng.choice(["valid", "any", "bad", "single", "data"]))
            if kind == "valid":
                q = np.where(rng.random(L) < .3, np.array(tmds.CONTROL)[rng.integers(0, 4, L)], VALID[rng.integers(0, len(VALID), L)])
            elif kind == "any":
                q = rng.integers(0, 1024, L)
            elif kind == "bad":
                L = max(L, P + 8)
                q = BADW[rng.integers(0, len(BADW), L)]
            elif kind == "single":
                q = np.array(tmds.CONTROL)[rng.integers(0, 4, L)]
                q[rng.integers(0, L)] = BADW[rng.integers(0, len(BADW))]
            else:
                q = tmds.encode(rng.integers(0, 256, L), np.zeros(L, int), np.ones(L, int))
            w[t:t + L] = q[:N - t]
            t += L
    else:
        d = np.repeat(job["density"], P)[:N]
        w = np.where(rng.random(N) < d, BADW[rng.integers(0, len(BADW), N)], 0b1101010100)
        del d
    err = ILLEGAL[w].astype(np.int64)
    ctx.count("valid words", int((err == 0).sum()))
    ctx.count("illegal words", int(err.sum()))
    # aligned clocks keep the harness simple: sys ticks at a pattern of the pix cycles, with metastability injected in the crossing
    upd = (rng.random(N) < min(.05, 20/P)).astype(np.int64)
    sysm = rng.random(N) < float(rng.choice([1, 1, .5, .8])) if bits <= 12 else np.ones(N, bool)
    if bits <= 12 and rng.random() < .5:
        # seldom, and close to the end of a period: a lost update is not made up for by the next one
        upd[:] = 0
        k = np.cumsum(rng.integers(1, 4, np_))
        at = k*P + rng.integers(-12, 12, len(k))
        at = at[(at >= 0) & (at < N)]
        upd[at] = 1
        sysm[at] = True
        ctx.count("seldom updates", len(at))
    upd &= sysm
    mp, ms = sim.mask("pix"), sim.mask("sys")
    outs = [dut._value.status]
    ins = [dut.data, dut._update.re]
    if bits <= 12:
        masks = np.where(sysm, mp | ms, mp)
        out = sim.run_sched(masks, ins, np.stack([w, upd], 1), outs)[:, 0]
    else:
        out = sim.run_trace(mp | ms, ins, np.stack([w, upd], 1), outs)[:, 0]
    # the value only changes with an update
    ch = np.nonzero(out[1:] != out[:-1])[0]
    bad = ch[upd[ch] == 0]
    if len(bad):
        ctx.fail("{}: the value changes from {} to {} without an update".format(job["name"], out[bad[0]], out[bad[0] + 1]))
        return
    u = np.nonzero(upd[:-1])[0]
    vals = out[u + 1]
    ctx.count("updates", len(u))
    cum = np.concatenate([[0], np.cumsum(err)])

    def window(end):
        """errors of the period that ends before word `end`"""
        end = np.asarray(end)
        a = np.clip(end - P, 0, N)
        return cum[np.clip(end, 0, N)] - cum[a]
    # the phase of the periods and the age of the value are constants of the design: find the consistent ones
    cands = list(range(-16, 17)) if P > 64 else list(range(-P//2, P//2))
    ok = []
    delay = 6 + (int(8/ max(.05, sysm.mean())) if bits <= 12 else 8)
    for ph in cands:
        good = np.zeros(len(u), bool)
        for age in (0, delay):
            # last period end not after u - age
            k = (u - age - ph)//P
            e = ph + k*P
            wv = window(e)
            one = (vals == wv) | (vals == wv - 1)
            none = (k <= 0) & (vals == 0)
            # at most two periods are candidates (the one just ended may still be crossing)
            good |= one | none | ((k == 1) & (ph < 0) & one)
        # the very first period may be cut by reset
        good |= (u - delay - ph)//P < 1
        if good.all():
            ok.append(ph)
    if not ok:
        ctx.fail("{}: values read {} are not the number of illegal words of complete periods of {} words (periods had {})".format(
            job["name"], vals[:12].tolist(), P, [int(window(k*P)) for k in range(1, min(12, np_))]))
        return
    ctx.count("values read", len(u))
    pe = [int(window(ok[0] + k*P)) for k in range(1, np_)]
    ctx.count("periods", len(pe))
    ctx.count("clean periods", sum(1 for x in pe if x == 0))
    ctx.count("full error periods", sum(1 for x in pe if x == P))
    ctx.states_bulk((bits, k, x, job["seed"]) for k, x in enumerate(pe))
    ctx.ev(N)
    ctx.sample("{}: {} periods of {} words, {} updates, phase {}".format(job["name"], np_, P, len(u), ok))
    ctx.sanitizers(sim)
