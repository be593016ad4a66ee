"""bench and trace checker for the memory-to-video path (VideoOutCore)"""
import numpy as np
from migen import *
from litedram.common import LiteDRAMNativePort
import gw, bench, raster

INV = {}


class CoreBench:
    def __init__(self, ctx, rng, mode="rgb", fifo_depth=32, cd="pix", csr_width=8, periods=None, metastab=.5, aw=None, jitter=.2, genlock=None):
        from litevideo.output.core import VideoOutCore
        self.ctx, self.rng, self.mode = ctx, rng, mode
        self.dw = {"rgb": 32, "raw": 32, "ycbcr422": 16}[mode]
        self.pixbits = {"rgb": 24, "raw": 32, "ycbcr422": 16}[mode]
        self.shift = {32: 2, 16: 1}[self.dw]
        if aw is None:
            aw = int(rng.choice([20, 24, 26, 32 - self.shift]))     # up to 4 GB
        self.cd, self.aw = cd, aw
        self.port = LiteDRAMNativePort("read", aw, self.dw, cd)
        self.core = ctx.build(VideoOutCore, self.port, mode, fifo_depth, **(dict(genlock_stream=genlock) if genlock is not None else {}))
        self.dram = ClockDomainsRenamer(cd)(bench.ReadDRAM(self.port, seed=int(rng.integers(1, 1 << 20))))
        self.top = bench.Host(self.core, csr_width, [self.dram])
        clocks = ("sys",) if cd == "sys" else ("sys", cd)
        self.sim = ctx.build(gw.Sim, self.top, clocks=clocks)
        s = self.core.source
        self.s = s
        p = self.port
        self.trace = [s.valid, s.ready, s.hsync, s.vsync, s.de, s.data, p.cmd.valid, p.cmd.ready, p.cmd.addr]
        if periods is None:
            r = float(rng.choice([.31, .5, .77, 1., 1.01, 1.3, 2., 2.9]))
            periods = {"sys": 10., cd: 10.*r}
        self.b = bench.Bench(self.sim, periods, rng, self.trace, self.top, jitter=jitter, metastab=metastab)
        self.salt = int(rng.integers(0, 1 << 32))
        self.sim[self.dram.salt] = self.salt
        self.sim[s.ready] = 1
        self.sim.settle()
        self.params = dict.fromkeys(raster.NAMES + ["base", "length"], 0)
        self.enabled = 0
        self.cands = []        # [params, first pix cycle, last pix cycle or None]
        self.enables = 0
        self.log = []
        self.names = {n: self._find(n) for n in raster.NAMES + ["base", "length", "enable"]}

    def _find(self, n):
        c = [w for w in self.top.words if w == "initiator_" + n or w.endswith("_" + n)]
        c = [w for w in c if w.startswith("initiator")] or c
        if not c:
            from fw import Bug
            raise Bug("no control register for {}".format(n))
        return c[0]

    @property
    def t(self):
        return self.b.nticks[self.cd]

    def set(self, rest=None, **kw):
        """program parameters; what may be in effect meanwhile becomes a candidate"""
        for k, v in kw.items():
            if self.params[k] == v and self.rng.random() < .7:
                continue
            self.b.write(self.names[k], v, rest)
            new = dict(self.params)
            new[k] = v
            if self.enabled and new != self.params:
                self._close()
                self.cands.append([new, self.t - 200, None])
            self.params = new

    def _close(self):
        if self.cands and self.cands[-1][2] is None:
            self.cands[-1][2] = self.t + 60

    def enable(self, v=1):
        if v and not self.enabled:
            self.cands.append([dict(self.params), self.t - 200, None])
            self.enables += 1
        if not v and self.enabled:
            self._close()
        self.enabled = v
        self.b.write(self.names["enable"], v)

    def backpressure(self, kind):
        """downstream ready schedule"""
        from streams import pattern
        p = pattern(kind, self.rng)
        self.b.drive([self.s.ready], np.roll(p, int(self.rng.integers(len(p))))[:, None], self.cd, cyclic=True)

    def memory(self, cmd=256, dat=256, lat=4):
        self.sim[self.dram.p_cmd], self.sim[self.dram.p_dat], self.sim[self.dram.lat] = cmd, dat, lat
        self.sim.settle()

    def word(self, base, n):
        return self.words((base >> self.shift) + np.arange(n, dtype=np.int64))

    def words(self, a):
        a = a & ((1 << self.aw) - 1)
        return (bench.fold(a)*bench.MULT + self.salt) & ((1 << self.pixbits) - 1)

    def which(self, data, base):
        """the memory word that holds data, for reports"""
        n = np.arange(-200000, 400000)
        k = np.nonzero(self.words((base >> self.shift) + n) == data)[0]
        if not len(k):
            return "{:#x}, not a word near the frame".format(data)
        k = k[np.argmin(np.abs(n[k]))]
        return "word {:#x}".format((base >> self.shift) + int(n[k]))

    def take(self):
        """samples delivered since the last call: [n][hs,vs,de,data,cycle]; remembers the rest"""
        a = self.b.collect(self.cd)
        t0 = self.t - len(a)
        k = np.nonzero((a[:, 0] == 1) & (a[:, 1] == 1))[0]
        # stability while stalled
        st = (a[:-1, 0] == 1) & (a[:-1, 1] == 0)
        care = (a[:-1, 4] == 1) | (self.mode == "raw")        # no data outside the active area
        bad = st & ((a[1:, 0] == 0) | (a[1:, 2:5] != a[:-1, 2:5]).any(axis=1) | (care & (a[1:, 5] != a[:-1, 5])))
        if bad.any():
            i = int(np.nonzero(bad)[0][0])
            self.ctx.fail("output withdrawn or changed while stalled: {} -> {}".format(a[i, :6].tolist(), a[i + 1, :6].tolist()))
        self.log.append(np.concatenate([a[k][:, 2:6], (k + t0)[:, None]], 1))
        self.raw = a
        c = a[(a[:, 6] == 1) & (a[:, 7] == 1)]
        return a

    def cmds(self, a):
        return a[(a[:, 6] == 1) & (a[:, 7] == 1)][:, 8]

    @staticmethod
    def _hist(parent, pos, n):
        """start of the frame n frames before the one at pos"""
        for _ in range(n):
            if parent.get(pos) is None:
                return None
            pos = parent[pos][0]
        return pos

    # -- the trace checker ---------------------------------------------------
    def check(self, what, max_lag=9, data=True):
        """decide the delivered samples against the parameter history -> number of frames"""
        ctx = self.ctx
        T = np.concatenate(self.log) if self.log else np.zeros((0, 5), np.int64)
        # A frame's end is not marked and blank lines look alike, so several readings of the trace may have to be
        # followed: states are (position, candidate, restarts used), the parameter sets used never go backwards.
        import heapq
        cache = {}
        N = len(T)
        best = {0: (0, 0)}
        parent = {0: None}
        heap = [0]
        done = None
        far, why = -1, "no output"
        while heap:
            pos = heapq.heappop(heap)
            ci, leads = best[pos]
            if pos >= N:
                done = pos
                break
            hist = self._hist(parent, pos, max_lag)
            lead_max = 4 if leads < self.enables and not T[pos, :3].any() else 0
            reasons = []
            seen = set()
            for c in range(ci, len(self.cands)):
                p, on, off = self.cands[c]
                if on > T[pos, 4]:
                    break
                if not raster.valid(p):
                    continue
                key = tuple(p[n] for n in raster.NAMES)
                full = key + (p["base"],)
                if full in seen:
                    continue
                if key not in cache:
                    f = raster.frame(p)
                    cache[key] = (f, np.nonzero(f[:, 2])[0])
                ref, act = cache[key]
                for lead in range(lead_max + 1):
                    if lead and T[pos + lead - 1:pos + lead, :3].any():
                        break
                    got = T[pos + lead:pos + lead + len(ref)]
                    n = len(got)
                    bad = np.nonzero((got[:, :3] != ref[:n]).any(axis=1))[0]
                    if len(bad):
                        i = int(bad[0])
                        reasons.append((i, "timing: sample {} (h={},v={}) is hs,vs,de={} expected {} for {}".format(
                            i, i % (p["hscan"] + 1), i//(p["hscan"] + 1), got[i, :3].tolist(), ref[i].tolist(), p)))
                        continue
                    if data and self.mode != "raw":
                        a = act[act < n] if n < len(ref) else act
                        bd = np.nonzero(got[a, 3] != self.word(p["base"], len(a)))[0]
                        if len(bd):
                            i = int(bd[0])
                            w = self.which(int(got[a[i], 3]), p["base"])
                            reasons.append((int(a[i]), "data: pixel {} of the frame (h={},v={}) shows {}, expected word {:#x} for {}; {} of {} pixels differ".format(
                                i, a[i] % (p["hscan"] + 1), a[i]//(p["hscan"] + 1), w, (p["base"] >> self.shift) + i, p, len(bd), len(a))))
                            continue
                    if off is not None and hist is not None and off < T[hist, 4]:
                        # an identical later set may be the one in use
                        reasons.append((len(ref), "the parameter set was replaced more than {} frames ago: {}".format(max_lag, p)))
                        continue
                    seen.add(full)
                    q = pos + lead + n
                    st = (c, leads + (1 if lead else 0))
                    if q not in best:
                        best[q] = st
                        parent[q] = (pos, c, n == len(ref))
                        heapq.heappush(heap, q)
                    elif st < best[q] and q > pos:
                        best[q] = st
                        parent[q] = (pos, c, n == len(ref))
                    break
            if pos not in [parent[q][0] for q in parent if parent[q]] and pos > far:
                far = pos
                reasons.sort(key=lambda r: -r[0])
                why = reasons[0][1] if reasons else "no parameter set was in effect"
        if done is None:
            ctx.fail("{}: the frame at sample {} (cycle {}) matches no parameter set in effect: {}".format(
                what, far, T[far, 4] if far >= 0 and N else None, why))
            return 0
        path = []
        pos = done
        while parent[pos] is not None:
            path.append((parent[pos][0], parent[pos][1], parent[pos][2]))
            pos = parent[pos][0]
        path.reverse()
        frames = sum(1 for x in path if x[2])
        for x in path:
            if x[2]:
                ctx.count("frames")
                ctx.state(tuple(self.cands[x[1]][0].items()), x[0] % 8, what)
        ctx.ev(N)
        self.used = [x[1] for x in path]
        self.starts = [T[x[0], 4] for x in path]
        lost = self.sim[self.dram.lost]
        ctx.expect(lost == 0, "{}: {} memory words arrived with no room for them".format(what, lost))
        ctx.expect(self.sim[self.dram.wrote] == 0, "{}: the reader issued writes".format(what))
        return frames
