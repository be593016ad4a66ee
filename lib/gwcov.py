"""Development only: toggle and branch coverage of the gateware, by source line of /repo"""
import sys, os, json, ctypes
from migen.fhdl import structure as st

REPO = os.environ.get("VERIF_REPO", "/repo")
SIMS = []


def _where():
    f = sys._getframe(2)
    last = None
    while f:
        fn = f.f_code.co_filename
        if fn.startswith(REPO + "/litevideo"):
            return "{}:{}".format(fn[len(REPO) + 11:], f.f_lineno)
        f = f.f_back
    return None


for cls in (st.Signal, st.If, st.Case):
    def patch(cls=cls):
        init = cls.__init__

        def __init__(self, *a, **kw):
            init(self, *a, **kw)
            self.gwcov_where = _where()
        cls.__init__ = __init__
    patch()


def where(stmt):
    if isinstance(stmt, st.If):
        c = text(stmt.cond)
    else:
        c = "case " + text(stmt.test)
    return "{} {}".format(getattr(stmt, "gwcov_where", None), c)


def name(s):
    bt = s.backtrace or [("?", None)]
    return str(bt[-1][0])


def text(e):
    if isinstance(e, st.Signal):
        return name(e)
    if isinstance(e, st.Constant):
        return str(e.value)
    if isinstance(e, st._Operator):
        return "({})".format(" {} ".format(e.op).join(text(x) for x in e.operands)) if len(e.operands) > 1 else e.op + text(e.operands[0])
    if isinstance(e, st._Slice):
        return "{}[{}:{}]".format(text(e.value), e.start, e.stop)
    if isinstance(e, st.Cat):
        return "Cat({})".format(",".join(text(x) for x in e.l))
    return type(e).__name__


def register(sim):
    lib = sim.lib
    n = len(sim.S) - sim.nspare
    SIMS.append((sim, (ctypes.c_int64*n).in_dll(lib, "CO"), (ctypes.c_int64*n).in_dll(lib, "CA"),
                 (ctypes.c_char*max(1, len(sim.g.branches))).in_dll(lib, "BR")))


def dump(pid, job):
    sig, br = {}, {}
    for sim, co, ca, b in SIMS:
        for s in sim.g.order:
            w = getattr(s, "gwcov_where", None)
            if w is None or sim.g.idx[s] >= len(co):
                continue
            k = "{} {} [{}]".format(w, name(s), s.nbits)
            i = sim.g.idx[s]
            one = zero = 0
            for j in range((s.nbits + 63)//64):
                one |= (co[i + j] & (2**64 - 1)) << 64*j
                zero |= (ca[i + j] & (2**64 - 1)) << 64*j
            m = (1 << s.nbits) - 1
            o = sig.setdefault(k, [0, 0])
            o[0] |= one & m
            o[1] |= zero & m
        for (k, arm), i in sim.g.branches.items():
            if k.startswith("None "):
                continue
            k = "{} -> {}".format(k, arm)
            br[k] = br.get(k, 0) | (b[i] != b"\0")
    SIMS.clear()
    d = os.environ["GW_COV"]
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "{}-{}.json".format(pid, job["name"].replace("/", "_"))), "w") as f:
        json.dump(dict(sig={k: [hex(x) for x in v] for k, v in sig.items()}, br=br), f)
