"""Check framework: jobs -> monitored executions -> verdict, evidence, replay."""
import os, sys, json, time, random, hashlib, traceback, importlib, signal, collections
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


class Bug(Exception):
    """a violation that makes it pointless to continue the job"""
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.msg, self.key = msg, key


class Inconclusive(Exception):
    pass


def _h(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


class Ctx:
    """what a job's monitors observed"""
    MAXSTATES = 200000

    def __init__(self, job):
        self.job = job
        self.events = 0
        self.states = set()
        self.ndistinct = 0
        self.samples = []
        self.violations = []
        self.counts = collections.Counter()
        self.rng = random.Random(json.dumps(job, sort_keys=True))

    def ev(self, n=1, kind=None):
        self.events += n
        if kind:
            self.counts[kind] += n

    def count(self, kind, n=1):
        self.counts[kind] += n

    def state(self, *x):
        if len(self.states) < self.MAXSTATES:
            self.states.add(_h(x))

    def distinct(self, n):
        """n distinct cases of a space that no other job visits"""
        self.ndistinct += int(n)

    def states_bulk(self, it):
        for x in it:
            if len(self.states) >= self.MAXSTATES:
                return
            self.states.add(_h(x))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(str(s)[:400])

    def fail(self, msg, key=None):
        self.violations.append((str(msg)[:1500], key))
        if len(self.violations) >= 20:
            raise Bug("too many violations in this job; stopping", key=self.violations[-1][1])

    def expect(self, cond, msg, key=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, key)
        return cond

    def build(self, f, *a, **kw):
        """construct/elaborate a design of /repo; failing to is a violation"""
        import gw
        try:
            return f(*a, **kw)
        except (gw.EngineError, MemoryError, KeyboardInterrupt, Bug, Inconclusive):
            raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = any(fr.filename.startswith(REPO + "/") for fr in tb) or isinstance(e, gw.DesignError)
            inmig = any("/migen/" in fr.filename or "/litex/" in fr.filename or "/litedram/" in fr.filename for fr in tb)
            if inrepo or inmig:
                raise Bug("the design cannot be constructed: {}: {} at {}".format(
                    type(e).__name__, e, ["{}:{}".format(os.path.basename(x.filename), x.lineno) for x in tb][-4:]))
            raise

    def sanitizers(self, sim, ignore=()):
        for site, n, v in sim.sanitizer():
            if any(site.startswith(i) for i in ignore):
                self.count("sanitizer-ignored", n)
                continue
            self.fail("sanitizer: {} (value {}), {} times".format(site, v, n))
        self.count("engine cycles", sim.cycles())
        je = sim.jitter_events()
        if je:
            self.count("metastability injections", je)


def _load(pid):
    return importlib.import_module("c" + pid[1:])


def _init():
    import gw
    gw._workdir = None


def _run_job(arg):
    pid, job, limit = arg
    import gw
    mod = _load(pid)
    ctx = Ctx(job)
    err = None
    t0 = time.time()

    def onalarm(*a):
        raise TimeoutError("job watchdog")
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(limit))
    try:
        mod.run(job, ctx)
    except Bug as e:
        ctx.violations.append((e.msg, e.key))
    except Inconclusive as e:
        err = "inconclusive: {}".format(e)
    except BaseException as e:
        err = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    finally:
        signal.alarm(0)
        if gw.COV:
            gw.gwcov.dump(pid, job)
        gw_clean(gw)
    return dict(job=job, events=ctx.events, states=ctx.states, nd=ctx.ndistinct, samples=ctx.samples,
                violations=ctx.violations, counts=ctx.counts, err=err, t=time.time() - t0)


def gw_clean(gw):
    import shutil
    if gw._workdir:
        for f in os.listdir(gw._workdir):
            try:
                os.unlink(os.path.join(gw._workdir, f))
            except OSError:
                pass
        shutil.rmtree(gw._workdir, ignore_errors=True)
        gw._workdir = None


def known_findings(pid):
    r = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            d = json.loads(line)
            if d.get("status") == "known" and d["property"] == pid:
                r[d["key"]] = d["what"]
    return r


def main(pid, tier, seed, replay=None):
    t0 = time.time()
    mod = _load(pid)
    if replay:
        d = json.load(open(replay))
        jobs = [d["job"]]
    else:
        jobs = mod.jobs(tier, seed)
    only = os.environ.get("VERIF_JOBS")
    if only:
        jobs = [j for j in jobs if only in j["name"]]
    limit = 780 if tier == "quick" else 6*3600
    nproc = int(os.environ.get("VERIF_PROCS", min(8, os.cpu_count() or 1)))
    work = [(pid, j, limit) for j in jobs]
    # long jobs first
    work.sort(key=lambda w: -w[1].get("cost", 1))
    results = []
    if nproc == 1 or len(work) == 1:
        results = [_run_job(w) for w in work]
    else:
        with mp.get_context("fork").Pool(min(nproc, len(work)), initializer=_init, maxtasksperchild=8) as pool:
            for r in pool.imap_unordered(_run_job, work, chunksize=1):
                results.append(r)
                if os.environ.get("VERIF_VERBOSE"):
                    print("  {:7.1f}s {} ev={} st={} viol={} {}".format(
                        r["t"], r["job"]["name"], r["events"], len(r["states"]), len(r["violations"]),
                        "ERR" if r["err"] else ""), flush=True)
    results.sort(key=lambda r: json.dumps(r["job"], sort_keys=True))
    states = set()
    ndist = 0
    counts = collections.Counter()
    events = 0
    samples = []
    errs = []
    viols = []
    for r in results:
        states |= r["states"]
        ndist += r["nd"]
        counts.update(r["counts"])
        events += r["events"]
        if r["samples"] and len(samples) < 12:
            samples += ["[{}] {}".format(r["job"]["name"], s) for s in r["samples"][:1]]
        if r["err"]:
            errs.append((r["job"]["name"], r["err"]))
        for m, k in r["violations"]:
            viols.append((r["job"], m, k))
    kf = known_findings(pid)
    seen = {}
    new = []
    for job, m, k in viols:
        if k is not None and k in kf:
            seen[k] = seen.get(k, 0) + 1
        else:
            new.append((job, m, k))
    for k in sorted(seen):
        print("KNOWN-FINDING: property={} {} [{} occurrences]".format(pid, kf[k], seen[k]))
    rule = mod.RULE
    cov = dict(evaluations=events, distinct_nontrivial=len(states) + ndist, rule=rule,
               samples=samples or ["none"], jobs=len(jobs),
               observed={k: counts[k] for k in sorted(counts)})
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
              coverage=cov, assumptions=list(getattr(mod, "ASSUME", [])),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not replay:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("{} {} seed={} jobs={} events={} distinct={} wall={:.1f}s {}".format(
        pid, tier, seed, len(jobs), events, len(states) + ndist, time.time() - t0,
        json.dumps(ev["coverage"]["observed"])))
    if new:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        byjob = {}
        for job, m, k in new:
            byjob.setdefault(json.dumps(job, sort_keys=True), []).append((m, k))
        n = 0
        for js, ms in byjob.items():
            if n >= 5:
                print("... and {} more jobs with violations".format(len(byjob) - n))
                break
            path = os.path.join(VERIF, "replays", "{}-{}.json".format(pid, n))
            with open(path, "w") as f:
                json.dump(dict(property=pid, job=json.loads(js), violations=[dict(msg=m, key=k) for m, k in ms],
                               cmd="./check {} {} --replay {}".format(pid, tier, path)), f, indent=1)
            for m, k in ms[:3]:
                print("  {}: {}".format(json.loads(js)["name"], m))
            print("VIOLATION property={} replay={}".format(pid, path))
            n += 1
        for n, e in errs[:3]:
            print("job error in {}: {}".format(n, e))
        return 1
    if errs:
        for n, e in errs[:5]:
            print("ERROR in job {}: {}".format(n, e))
        return 2
    mins = getattr(mod, "MIN_EVENTS", 1)
    need = getattr(mod, "MUST_OBSERVE", ())
    if not replay and not only:
        if events < mins:
            print("INCONCLUSIVE: only {} events observed (need {})".format(events, mins))
            return 3
        for k in need:
            if not counts.get(k):
                print("INCONCLUSIVE: monitor saw no '{}'".format(k))
                return 3
    print("OK property={}".format(pid))
    return 0


def cli():
    a = sys.argv[1:]
    pid = a[0].upper()
    tier = os.environ.get("VERIF_TIER") or "quick"
    replay = None
    i = 1
    while i < len(a):
        if a[i] in ("quick", "thorough"):
            tier = a[i]
        elif a[i] == "--replay":
            replay = a[i + 1]
            i += 1
        i += 1
    try:
        seed = int(os.environ.get("VERIF_SEED") or 1)
    except ValueError:
        seed = 1
    sys.exit(main(pid, tier, seed, replay))


if __name__ == "__main__":
    sys.modules["fw"] = sys.modules["__main__"]
    cli()
