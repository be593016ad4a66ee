"""Compiled execution engine for Migen gateware.

The design objects of /repo are constructed by /repo's own Python code and
elaborated with Migen's own finalisation; the resulting fragment (the same
object migen.sim interprets) is translated to C statement by statement, built
with clang and loaded with ctypes.  The semantics are those of
migen.sim.core.Evaluator (unbounded integers, truncation on assignment, ...);
lib/selfcheck.py runs the two against each other.

On top of plain execution the engine carries the instrumentation that makes it
a monitor rather than a simulator:

  * sanitizers: out-of-range Array / Memory index, negative shift amount,
    non-converging combinational logic -> counters per site (Sim.sanitizer())
  * MultiReg metastability injection: a bit that changed since the previous
    edge of the sampling domain resolves old or new at random (Sim.jitter)
  * race monitor: when a register (or primitive output, or asynchronous input) of an
    unrelated clock domain that reaches a domain's registers without a
    synchroniser changed since that domain's last edge, the edge is executed
    with old and new bits mixed as well: if the next state depends on it, this
    is a race (Sim.races()), and, with metastability injection on, the mixed
    outcome is used half of the time
  * Instances of vendor primitives are black boxes: their outputs can be driven
    and their inputs observed by port name; Tristates expose o/oe and a free pad
"""
import os, sys, ctypes, subprocess, hashlib, tempfile, itertools, collections, shutil, atexit

from migen.fhdl.structure import *
from migen.fhdl.structure import (_Value, _Statement, _Operator, _Slice, _Part,
                                  _ArrayProxy, _Assign, _Fragment)
from migen.fhdl.bitcontainer import value_bits_sign
from migen.fhdl.tools import (list_targets, list_signals, insert_resets,
                              lower_specials, list_clock_domains)
from migen.fhdl.specials import (Memory, _MemoryPort, _MemoryLocation, Instance,
                                 Tristate, WRITE_FIRST, READ_FIRST, NO_CHANGE)
from migen.fhdl.module import Module
from migen.genlib.cdc import MultiReg
from migen.genlib.resetsync import AsyncResetSynchronizer
from migen.genlib import io as mio


class EngineError(Exception):
    """The harness (not the design) cannot do what was asked."""


class DesignError(Exception):
    """The design cannot be elaborated."""


_workdir = None

# development: GW_COV=DIR records which bits toggled and which branches ran (tools/cov.py)
COV = os.environ.get("GW_COV")
if COV:
    import gwcov
else:
    gwcov = None


def workdir():
    global _workdir
    if _workdir is None:
        _workdir = tempfile.mkdtemp(prefix="gw.")
        pid = os.getpid()

        def clean(path=_workdir, pid=pid):
            if os.getpid() == pid:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(clean)
    return _workdir


# ---------------------------------------------------------------------------
# lowering of specials

class _AsyncRst(Module):
    def __init__(self, cd, async_reset):
        self.comb += cd.rst.eq(async_reset)


def _isigs(expr):
    return list_signals(expr)


class _CdcNode:
    """reg <= jittered sample of expr, in domain"""
    def __init__(self, reg, expr, domain):
        self.reg, self.expr, self.domain = reg, expr, domain


class InstanceInfo:
    def __init__(self, of, name):
        self.of, self.name = of, name
        self.inputs = {}    # port -> probe Signal
        self.outputs = {}   # port -> free Signal
        self.inouts = {}    # port -> expr
        self.params = {}
        self.in_exprs = {}
        self.out_exprs = {}

    def __repr__(self):
        return "<{} {}>".format(self.of, self.name)


class _Lo:
    """everything the code generator needs from a fragment"""
    def __init__(self, dut, clocks=()):
        frag = dut if isinstance(dut, _Fragment) else dut.get_fragment()
        self.cdc = []
        self.instances = []
        self.tristates = []
        self.extra_roots = []
        cdc = self.cdc

        class MROv:
            @staticmethod
            def lower(dr):
                m = Module()
                w, signed = value_bits_sign(dr.i)
                regs = [Signal((w, signed), reset=dr.reset, reset_less=True)
                        for i in range(dr.n)]
                cdc.append(_CdcNode(regs[0], dr.i, dr.odomain))
                sd = getattr(m.sync, dr.odomain)
                for a, b in zip(regs[1:], regs[:-1]):
                    sd += a.eq(b)
                m.comb += dr.o.eq(regs[-1])
                return m

        self.syncrst = syncrst = []

        class AsyncRstOv:
            @staticmethod
            def lower(dr):
                syncrst.append(dr.cd)
                return _AsyncRst(dr.cd, dr.async_reset)

        overrides = {AsyncResetSynchronizer: AsyncRstOv, MultiReg: MROv}
        frag, _ = lower_specials(overrides, frag)
        rest = set()
        self.memories = []
        self.memports = []
        for sp in sorted(frag.specials, key=lambda x: x.duid):
            if isinstance(sp, Memory):
                self.memories.append(sp)
            elif isinstance(sp, _MemoryPort):
                self.memports.append(sp)
            elif isinstance(sp, Tristate):
                w = len(sp.target)
                o, oe, pad = Signal(w, name="ts_o"), Signal(name="ts_oe"), Signal(w, name="ts_pad", reset=2**w-1)
                frag.comb += [o.eq(sp.o), oe.eq(sp.oe)]
                if sp.i is not None:
                    frag.comb += [sp.i.eq(Mux(oe, o, pad))]
                self.tristates.append((sp.target, o, oe, pad))
            elif isinstance(sp, Instance):
                self._instance(frag, sp)
            elif isinstance(sp, mio.DDROutput):
                info = InstanceInfo("DDROutput", "ddro")
                for n in ("i1", "i2", "clk"):
                    e = getattr(sp, n)
                    s = Signal(len(e), name="inst_" + n)
                    frag.comb += [s.eq(e)]
                    info.inputs[n] = s
                    info.in_exprs[n] = e
                info.out_exprs["o"] = sp.o
                self.instances.append(info)
            elif isinstance(sp, (mio.DifferentialInput, mio.DifferentialOutput)):
                if isinstance(sp, mio.DifferentialInput):
                    frag.comb += [sp.o.eq(sp.i_p)]
                else:
                    frag.comb += [sp.o_p.eq(sp.i), sp.o_n.eq(~sp.i)]
            else:
                rest.add(sp)
        if rest:
            raise DesignError("cannot lower specials: {}".format(rest))
        self.frag = frag
        # clock domains
        names = set(list(frag.sync.keys())) | set(c.domain for c in cdc) | set(clocks)
        names |= set(list_clock_domains(frag))
        for p in self.memports:
            names.add(p.clock.cd)
        for n in sorted(names):
            if n not in frag.clock_domains:
                frag.clock_domains.append(ClockDomain(name=n, reset_less=(n not in clocks)))
        insert_resets(frag)

    def _instance(self, frag, sp):
        info = InstanceInfo(sp.of, sp.name_override)
        for it in sp.items:
            if isinstance(it, Instance.Input):
                w, sg = value_bits_sign(it.expr)
                s = Signal((w, sg), name="inst_i_" + it.name)
                frag.comb += [s.eq(it.expr)]
                info.inputs[it.name] = s
                info.in_exprs[it.name] = it.expr
            elif isinstance(it, Instance.Output):
                w, sg = value_bits_sign(it.expr)
                s = Signal((w, sg), name="inst_o_" + it.name)
                e = it.expr
                info.outputs[it.name] = s
                info.out_exprs[it.name] = e
                # clock outputs are driven by ticking the domain
                clk = isinstance(e, ClockSignal) or any(
                    e is cd.clk for cd in frag.clock_domains)
                if not clk:
                    frag.comb += [e.eq(s)]
            elif isinstance(it, Instance.InOut):
                info.inouts[it.name] = it.expr
            else:
                v = it.value
                if isinstance(v, Constant):
                    v = v.value
                info.params[it.name] = v
        self.instances.append(info)


# ---------------------------------------------------------------------------
# code generation

def _slots(sig):
    n = sig.nbits
    if n <= 63 or (n == 64 and sig.signed):
        return 1
    return max(2, (n + 63)//64)     # one slot always means "fits an int64"


def _bits_for(lo, hi):
    """bits of a signed two's complement container of [lo, hi]"""
    n = max(hi.bit_length(), (-lo - 1).bit_length() if lo < 0 else 0)
    return n + 1


def _ctype(bits):
    if bits <= 64:
        return "i64"
    if bits <= 128:
        return "i128"
    if bits > 65536:
        raise EngineError("expression too wide: {}".format(bits))
    return "_BitInt({})".format(((bits + 63)//64)*64)


def _cw(bits):
    if bits <= 64:
        return 64
    if bits <= 128:
        return 128
    return ((bits + 63)//64)*64


def _lit(v):
    bits = _bits_for(v, v)
    if bits <= 32:
        return "((i64){})".format(v)
    if bits <= 64:
        return "((i64)0x{:x}ull)".format(v & (2**64 - 1))
    t = _ctype(bits)
    neg = v < 0
    a = -v if neg else v
    t = _ctype(_bits_for(0, a))
    parts = []
    k = 0
    while a:
        parts.append("(({})0x{:x}ull << {})".format(t, a & 0x7fffffff, k))
        a >>= 31
        k += 31
    s = "(" + "|".join(parts) + ")"
    return "(-{})".format(s) if neg else s


class _Gen:
    def __init__(self, lo):
        self.lo = lo
        self.frag = lo.frag
        self.cds = lo.frag.clock_domains
        self.idx = {}        # Signal -> slot
        self.order = []
        self.nslots = 0
        self.sites = []
        self.tmp = 0
        self.branches = collections.OrderedDict()
        self.memid = {m: i for i, m in enumerate(lo.memories)}

    def slot(self, s):
        i = self.idx.get(s)
        if i is None:
            i = self.nslots
            self.idx[s] = i
            self.order.append(s)
            self.nslots += _slots(s)
        return i

    def site(self, text):
        self.sites.append(text)
        return len(self.sites) - 1

    def br(self, out, stmt, arm):
        if COV:
            out.append("BR[{}]=1;".format(self.branches.setdefault((gwcov.where(stmt), arm), len(self.branches))))

    def t(self):
        self.tmp += 1
        return "t{}".format(self.tmp)

    # -- loads -------------------------------------------------------------
    def load(self, s, arr):
        i = self.slot(s)
        n = s.nbits
        if s.signed:
            lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        else:
            lo, hi = 0, (1 << n) - 1
        if _slots(s) == 1:
            return "{}[{}]".format(arr, i), lo, hi
        t = _ctype(_bits_for(lo, hi))
        return "LD{}(&{}[{}])".format(self.wide(s), arr, i), lo, hi

    wides = None

    def wide(self, s):
        """id of the load/store helper of this (slots, signed) shape"""
        if self.wides is None:
            self.wides = {}
        k = (_slots(s), s.signed, s.nbits)
        if k not in self.wides:
            self.wides[k] = len(self.wides)
        return self.wides[k]

    # -- expressions ---------------------------------------------------------
    def ev(self, node, post=None):
        """-> (c expression, lo, hi); post: array name for targets of the
        current process, or None for pre-commit values"""
        if isinstance(node, Constant):
            v = int(node.value)
            return _lit(v), v, v
        if isinstance(node, Signal):
            if post is not None and post[0](node):
                return self.load(node, post[1])
            return self.load(node, "S")
        if isinstance(node, ClockSignal):
            return self.ev(self.cds[node.cd].clk, post)
        if isinstance(node, ResetSignal):
            rst = self.cds[node.cd].rst
            if rst is None:
                if node.allow_reset_less:
                    return _lit(0), 0, 0
                raise DesignError("reset of reset-less domain {}".format(node.cd))
            return self.ev(rst, post)
        if isinstance(node, _Operator):
            return self.ev_op(node, post)
        if isinstance(node, _Slice):
            e, lo, hi = self.ev(node.value, post)
            w = node.stop - node.start
            return self.slice_(e, lo, hi, node.start, w)
        if isinstance(node, _Part):
            e, lo, hi = self.ev(node.value, post)
            o, ol, oh = self.ev(node.offset, post)
            e, lo, hi = self.shr(e, lo, hi, o, ol, oh)
            return self.slice_(e, lo, hi, 0, node.width)
        if isinstance(node, Cat):
            total = sum(len(x) for x in node.l)
            t = _ctype(total + 1)
            parts = []
            sh = 0
            for x in node.l:
                n = len(x)
                e, lo, hi = self.ev(x, post)
                if lo < 0 or hi >= (1 << n):
                    e, lo, hi = self.slice_(e, lo, hi, 0, n)
                parts.append("((({}){})<<{})".format(t, e, sh) if sh else "(({}){})".format(t, e))
                sh += n
            if not parts:
                return _lit(0), 0, 0
            return "(" + "|".join(parts) + ")", 0, (1 << total) - 1
        if isinstance(node, Replicate):
            n = len(node.v)
            e, lo, hi = self.ev(node.v, post)
            e, lo, hi = self.slice_(e, lo, hi, 0, n)
            total = n*node.n
            t = _ctype(total + 1)
            k = sum(1 << i*n for i in range(node.n))
            if n == 1 and total <= 62:
                return "({}?{}:0)".format(e, _lit((1 << total) - 1)), 0, (1 << total) - 1
            return "((({}){})*(({}){}))".format(t, e, t, _lit(k)), 0, hi*k
        if isinstance(node, _ArrayProxy):
            key, kl, kh = self.ev(node.key, post)
            n = len(node.choices)
            outs = [self.ev(c, post) for c in node.choices]
            lo = min(o[1] for o in outs)
            hi = max(o[2] for o in outs)
            t = _ctype(_bits_for(lo, hi))
            k = self.t()
            st = self.site("array index")
            # statement expression with a switch
            body = "".join("case {}:r=({}){};break;".format(i, t, o[0])
                           for i, o in enumerate(outs[:-1]))
            chk = ""
            if kh > n - 1:
                chk = "if({k}>{m}){{SAN({s},{k});{k}={m};}}".format(k=k, m=n - 1, s=st)
            neg = ""
            if kl < 0:
                # python: negative index counts from the end
                neg = "if({k}<0){{SAN({s},{k});{k}+={n};if({k}<0){k}=0;}}".format(k=k, s=st, n=n)
            return "({{i64 {k}=(i64)({key});{chk}{neg}{t} r;switch({k}){{{body}default:r=({t}){last};}}r;}})".format(
                k=k, key=key, chk=chk, neg=neg, t=t, body=body, last=outs[-1][0]), lo, hi
        raise EngineError("cannot evaluate {}".format(node))

    def slice_(self, e, lo, hi, start, w):
        if lo >= 0 and start == 0 and hi < (1 << w):
            return e, lo, hi
        src = _bits_for(lo, hi)
        cw = _cw(src)
        # result [0, 2^w-1]
        if start >= cw:
            if lo >= 0:
                return "({}*0)".format(_lit(0)), 0, 0
            start = cw - 1
        rt_bits = w + 1
        if w >= cw and lo < 0:
            # sign extension into a wider positive mask
            t = _ctype(rt_bits)
            return "(((({}){})>>{})&{})".format(t, e, start, _lit((1 << w) - 1)), 0, (1 << w) - 1
        sh = "(({})>>{})".format(e, start) if start else "({})".format(e)
        rhi = (1 << w) - 1
        if lo >= 0:
            rhi = min(rhi, hi >> start)
        if cw > 64 and w <= 63:
            return "(((i64){})&{})".format(sh, _lit((1 << w) - 1)), 0, rhi
        mask = (1 << w) - 1
        if lo >= 0 and (hi >> start) <= mask:
            return sh, 0, rhi
        t = _ctype(max(rt_bits, 1))
        return "(({})({}&{}))".format(t, sh, _lit(mask)), 0, rhi

    def shr(self, a, al, ah, b, bl, bh):
        st = self.site("shift amount")
        cw = _cw(_bits_for(al, ah))
        t = _ctype(_bits_for(al, ah))
        k = self.t()
        neg = "if({k}<0){{SAN({s},{k});{k}=0;}}".format(k=k, s=st) if bl < 0 else ""
        clamp = "if({k}>{m}){k}={m};".format(k=k, m=cw - 1) if bh > cw - 1 else ""
        lo = al if al < 0 else (al >> max(bh, 0) if bh < 4096 else 0)
        hi = ah if ah >= 0 and bl <= 0 else (ah >> max(bl, 0) if ah >= 0 else -1 if bh > 0 else ah)
        if ah < 0:
            hi = -1
        if al < 0:
            lo = al
        else:
            lo = 0
        if not neg and not clamp:
            return "((({t}){a})>>({b}))".format(t=t, a=a, b=b), lo, hi
        return "({{i64 {k}=(i64)({b});{neg}{clamp}(({t}){a})>>{k};}})".format(
            k=k, b=b, neg=neg, clamp=clamp, t=t, a=a), lo, hi

    def ev_op(self, node, post):
        op = node.op
        ops = node.operands
        a, al, ah = self.ev(ops[0], post)
        if op == "~":
            return "(~{})".format(a), -ah - 1, -al - 1
        if op == "-" and len(ops) == 1:
            lo, hi = -ah, -al
            t = _ctype(max(_bits_for(lo, hi), _bits_for(al, ah)))
            return "(-({}){})".format(t, a), lo, hi
        if op == "m":
            b, bl, bh = self.ev(ops[1], post)
            c, cl, ch = self.ev(ops[2], post)
            lo, hi = min(bl, cl), max(bh, ch)
            t = _ctype(_bits_for(lo, hi))
            return "({}?({}){}:({}){})".format(a, t, b, t, c), lo, hi
        b, bl, bh = self.ev(ops[1], post)
        if op in ("+", "-", "*"):
            if op == "+":
                lo, hi = al + bl, ah + bh
            elif op == "-":
                lo, hi = al - bh, ah - bl
            else:
                c = [al*bl, al*bh, ah*bl, ah*bh]
                lo, hi = min(c), max(c)
            t = _ctype(max(_bits_for(lo, hi), _bits_for(al, ah), _bits_for(bl, bh)))
            return "((({t}){a}){op}(({t}){b}))".format(t=t, a=a, b=b, op=op), lo, hi
        if op == ">>>":
            return self.shr(a, al, ah, b, bl, bh)
        if op == "<<<":
            st = self.site("shift amount")
            m = max(bh, 0)
            if m > 8192:
                raise EngineError("shift too wide")
            lo = al << m if al < 0 else al
            hi = ah << m if ah >= 0 else ah
            if ah < 0:
                hi = -1
            if al >= 0:
                lo = 0
            t = _ctype(max(_bits_for(lo, hi), _bits_for(al, ah)))
            if bl < 0:
                k = self.t()
                return "({{i64 {k}=(i64)({b});if({k}<0){{SAN({s},{k});{k}=0;}}(({t}){a})<<{k};}})".format(
                    k=k, b=b, s=st, t=t, a=a), lo, hi
            return "((({t}){a})<<({b}))".format(t=t, a=a, b=b), lo, hi
        if op in ("&", "|", "^"):
            n = max(_bits_for(al, ah), _bits_for(bl, bh))
            t = _ctype(n)
            if op == "&":
                if al >= 0 and bl >= 0:
                    lo, hi = 0, min(ah, bh)
                elif al >= 0:
                    lo, hi = 0, ah
                elif bl >= 0:
                    lo, hi = 0, bh
                else:
                    lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
            else:
                if al >= 0 and bl >= 0:
                    lo, hi = 0, (1 << (n - 1)) - 1
                else:
                    lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
            return "((({t}){a}){op}(({t}){b}))".format(t=t, a=a, b=b, op=op), lo, hi
        if op in ("<", "<=", "==", "!=", ">", ">="):
            t = _ctype(max(_bits_for(al, ah), _bits_for(bl, bh)))
            return "((i64)((({t}){a}){op}(({t}){b})))".format(t=t, a=a, b=b, op=op), 0, 1
        raise EngineError("operator {}".format(op))

    # -- assignment ----------------------------------------------------------
    def assign(self, node, val, post, only, out):
        """val = (c expr of a variable, lo, hi); post = (pred, array);
        only = None or the single signal to store to"""
        e, lo, hi = val
        if isinstance(node, Signal):
            if only is not None and node is not only:
                return
            self.store(node, val, post[1], out)
        elif isinstance(node, ClockSignal):
            self.assign(self.cds[node.cd].clk, val, post, only, out)
        elif isinstance(node, ResetSignal):
            rst = self.cds[node.cd].rst
            self.assign(rst, val, post, only, out)
        elif isinstance(node, Cat):
            sh = 0
            for x in node.l:
                n = len(x)
                if only is None or only in list_signals(x) or True:
                    self.assign(x, self.slice_(e, lo, hi, sh, n), post, only, out)
                sh += n
        elif isinstance(node, _Slice):
            if only is not None and only not in self.tsignals(node.value):
                return
            f, fl, fh = self.ev(node.value, post)
            w = node.stop - node.start
            n = max(len(node.value), node.stop)
            f, fl, fh = self.slice_(f, fl, fh, 0, n)
            v, vl, vh = self.slice_(e, lo, hi, 0, w)
            t = _ctype(n + 1)
            m = ((1 << w) - 1) << node.start
            k = self.t()
            out.append("{t} {k}=((({t}){f})&{m})|((({t}){v})<<{s});".format(
                t=t, k=k, f=f, m=_lit(((1 << n) - 1) & ~m), v=v, s=node.start))
            self.assign(node.value, (k, 0, (1 << n) - 1), post, only, out)
        elif isinstance(node, _Part):
            f, fl, fh = self.ev(node.value, post)
            o, ol, oh = self.ev(node.offset, post)
            n = len(node.value)
            tot = n + node.width + max(oh, 0)
            f, fl, fh = self.slice_(f, fl, fh, 0, n)
            v, vl, vh = self.slice_(e, lo, hi, 0, node.width)
            t = _ctype(tot + 1)
            k, q = self.t(), self.t()
            out.append("i64 {q}=(i64)({o});{t} {k}=((({t}){f})&~(({t}){m}<<{q}))|((({t}){v})<<{q});".format(
                t=t, k=k, q=q, o=o, f=f, m=_lit((1 << node.width) - 1), v=v))
            self.assign(node.value, (k, -(1 << tot), (1 << tot) - 1), post, only, out)
        elif isinstance(node, _ArrayProxy):
            key, kl, kh = self.ev(node.key)
            n = len(node.choices)
            k = self.t()
            st = self.site("array write index")
            out.append("{{i64 {k}=(i64)({key});".format(k=k, key=key))
            if kh > n - 1:
                out.append("if({k}>{m}){{SAN({s},{k});{k}={m};}}".format(k=k, m=n - 1, s=st))
            if kl < 0:
                out.append("if({k}<0){{SAN({s},{k});{k}+={n};}}".format(k=k, n=n, s=st))
            out.append("switch({}){{".format(k))
            for i, c in enumerate(node.choices):
                out.append("case {}:{{".format(i))
                self.assign(c, val, post, only, out)
                out.append("}break;")
            out.append("}}")
        else:
            raise EngineError("cannot assign {}".format(node))

    def store(self, s, val, arr, out):
        e, lo, hi = val
        n = s.nbits
        i = self.slot(s)
        if _slots(s) == 1:
            if s.signed:
                if lo >= -(1 << (n - 1)) and hi < (1 << (n - 1)):
                    out.append("{}[{}]={};".format(arr, i, e))
                else:
                    out.append("{}[{}]=(i64)((u64)((i64)({}))<<{})>>{};".format(arr, i, e, 64 - n, 64 - n))
            else:
                e, lo, hi = self.slice_(e, lo, hi, 0, n)
                out.append("{}[{}]={};".format(arr, i, e))
        else:
            e, lo, hi = self.slice_(e, lo, hi, 0, n)
            out.append("ST{}(&{}[{}],{});".format(self.wide(s), arr, i, e))

    _ts_cache = None

    def tsignals(self, node):
        """signals that are written when node is an assignment target"""
        r = set()

        def rec(x):
            if isinstance(x, Signal):
                r.add(x)
            elif isinstance(x, Cat):
                for y in x.l:
                    rec(y)
            elif isinstance(x, (_Slice, _Part)):
                rec(x.value)
            elif isinstance(x, _ArrayProxy):
                for y in x.choices:
                    rec(y)
            elif isinstance(x, ClockSignal):
                r.add(self.cds[x.cd].clk)
            elif isinstance(x, ResetSignal):
                r.add(self.cds[x.cd].rst)
            else:
                raise EngineError("target {}".format(x))
        rec(node)
        return r

    # -- statements ------------------------------------------------------------
    def stmts(self, sl, post, only, out):
        for s in sl:
            if isinstance(s, _Assign):
                if only is not None and only not in self.tsignals(s.l):
                    continue
                v, lo, hi = self.ev(s.r)
                k = self.t()
                out.append("{{{} {}={};".format(_ctype(_bits_for(lo, hi)), k, v))
                self.assign(s.l, (k, lo, hi), post, only, out)
                out.append("}")
            elif isinstance(s, If):
                t, f = [], []
                self.stmts(s.t, post, only, t)
                self.stmts(s.f, post, only, f)
                if not t and not f:
                    continue
                e, lo, hi = self.ev(s.cond)
                n = len(s.cond)
                e, lo, hi = self.slice_(e, lo, hi, 0, n)
                out.append("if({}){{".format(e))
                self.br(out, s, "then")
                out += t
                if f or COV:
                    out.append("}else{")
                    self.br(out, s, "else")
                    out += f
                out.append("}")
            elif isinstance(s, Case):
                n, sg = value_bits_sign(s.test)
                bodies = []
                dflt = []
                seen = set()
                anyb = False
                for k, v in s.cases.items():
                    b = []
                    self.stmts(v if isinstance(v, (list, tuple)) else [v], post, only, b)
                    if isinstance(k, str):
                        dflt = b
                    else:
                        kv = int(k.value)
                        if kv in seen:
                            continue
                        seen.add(kv)
                        bodies.append((kv, b))
                    anyb = anyb or bool(b)
                if not anyb and not dflt:
                    continue
                e, lo, hi = self.ev(s.test)
                if sg:
                    if lo < -(1 << (n - 1)) or hi >= (1 << (n - 1)):
                        e = "((i64)((u64)((i64)({}))<<{})>>{})".format(e, 64 - n, 64 - n)
                else:
                    e, lo, hi = self.slice_(e, lo, hi, 0, n)
                if n <= 62:
                    out.append("switch((i64)({})){{".format(e))
                    for kv, b in bodies:
                        if _bits_for(kv, kv) > 64:
                            continue
                        out.append("case {}:{{".format(_lit(kv)))
                        self.br(out, s, kv)
                        out += b
                        out.append("}break;")
                    if dflt:
                        out.append("default:{")
                        self.br(out, s, "default")
                        out += dflt
                        out.append("}")
                    out.append("}")
                else:
                    raise EngineError("wide case")
            elif isinstance(s, Display) or s.__class__.__name__ in ("Finish", "Monitor"):
                continue
            elif isinstance(s, (list, tuple)) or hasattr(s, "__iter__"):
                self.stmts(s, post, only, out)
            else:
                raise EngineError("statement {}".format(s))

    # reads of the statements that (may) write `only`
    def reads(self, sl, only):
        r = set()
        hit = False

        def exprs(x):
            if isinstance(x, ClockSignal):
                r.add(self.cds[x.cd].clk)
                return
            if isinstance(x, ResetSignal):
                rst = self.cds[x.cd].rst
                if rst is not None:
                    r.add(rst)
                return
            r.update(list_signals(x))
            # list_signals does not resolve clock/reset signals
            self._walk_clk(x, r)

        def keys(x):
            if isinstance(x, (_Slice,)):
                keys(x.value)
            elif isinstance(x, _Part):
                keys(x.value)
                exprs(x.offset)
            elif isinstance(x, _ArrayProxy):
                exprs(x.key)
                for c in x.choices:
                    keys(c)
            elif isinstance(x, Cat):
                for y in x.l:
                    keys(y)
        for s in sl:
            if isinstance(s, _Assign):
                if only in self.tsignals(s.l):
                    hit = True
                    exprs(s.r)
                    keys(s.l)
            elif isinstance(s, If):
                rt, ht = self.reads(s.t, only)
                rf, hf = self.reads(s.f, only)
                if ht or hf:
                    hit = True
                    r |= rt | rf
                    exprs(s.cond)
            elif isinstance(s, Case):
                hh = False
                for k, v in s.cases.items():
                    rv, hv = self.reads(v if isinstance(v, (list, tuple)) else [v], only)
                    if hv:
                        hh = True
                        r |= rv
                if hh:
                    hit = True
                    exprs(s.test)
            elif isinstance(s, Display) or s.__class__.__name__ in ("Finish", "Monitor"):
                pass
            elif hasattr(s, "__iter__"):
                rv, hv = self.reads(s, only)
                if hv:
                    hit = True
                    r |= rv
        return r, hit

    def _walk_clk(self, x, r):
        if isinstance(x, ClockSignal):
            r.add(self.cds[x.cd].clk)
        elif isinstance(x, ResetSignal):
            rst = self.cds[x.cd].rst
            if rst is not None:
                r.add(rst)
        elif isinstance(x, _Operator):
            for o in x.operands:
                self._walk_clk(o, r)
        elif isinstance(x, (_Slice,)):
            self._walk_clk(x.value, r)
        elif isinstance(x, Cat):
            for o in x.l:
                self._walk_clk(o, r)
        elif isinstance(x, Replicate):
            self._walk_clk(x.v, r)
        elif isinstance(x, _ArrayProxy):
            self._walk_clk(x.key, r)
            for o in x.choices:
                self._walk_clk(o, r)


def _flatten_top(sl):
    r = []
    for s in sl:
        if isinstance(s, (_Assign, If, Case)) or s.__class__.__name__ in ("Display", "Finish", "Monitor"):
            r.append(s)
        elif hasattr(s, "__iter__"):
            r += _flatten_top(s)
        else:
            r.append(s)
    return r


def _tarjan(nodes, succ):
    index, low, onst, st, out = {}, {}, set(), [], []
    cnt = [0]
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(succ[root]))]
        index[root] = low[root] = cnt[0]
        cnt[0] += 1
        st.append(root)
        onst.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in index:
                    index[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    st.append(w)
                    onst.add(w)
                    work.append((w, iter(succ[w])))
                    adv = True
                    break
                elif w in onst:
                    low[v] = min(low[v], index[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == index[v]:
                c = []
                while True:
                    w = st.pop()
                    onst.discard(w)
                    c.append(w)
                    if w is v:
                        break
                out.append(c)
    return out   # reverse topological order w.r.t. succ


_PRE = r"""
#include <stdint.h>
#include <string.h>
typedef int64_t i64; typedef uint64_t u64; typedef __int128 i128;
typedef unsigned __int128 u128;
extern i64 S[]; extern i64 N[];
i64 san_cnt[NSITES+1]; i64 san_val[NSITES+1];
#define SAN(site,v) do{san_cnt[site]++; san_val[site]=(i64)(v);}while(0)
u64 rng=88172645463325252ull;
static inline u64 rnd(void){rng^=rng<<13;rng^=rng>>7;rng^=rng<<17;return rng;}
i64 jitter=0; i64 jitter_events=0;
"""


class Sim:
    """Compiled instance of a design.

    clocks: names of clock domains the harness owns a reset for (created with
    a reset when the design does not define them)"""
    registry = None             # a list: simulations register here and watch for races

    def __init__(self, dut, clocks=("sys",), signals=(), opt="-O1", keep_c=None, async_inputs=(), async_pads=False, extra_c=""):
        lo = _Lo(dut, clocks)
        self.lo, self.dut = lo, dut
        self.async_inputs, self.async_pads = list(async_inputs), async_pads
        g = _Gen(lo)
        self.g = g
        frag = lo.frag
        for cd in frag.clock_domains:
            g.slot(cd.clk)
            if cd.rst is not None:
                g.slot(cd.rst)
        for info in lo.instances:
            for s in list(info.inputs.values()) + list(info.outputs.values()):
                g.slot(s)
        for s in signals:
            g.slot(s)
        self.instances = lo.instances
        self.tristates = lo.tristates
        self.extra_c = extra_c
        self._codegen(opt, keep_c)
        self.reset()

    # ------------------------------------------------------------------
    def _codegen(self, opt, keep_c):
        g, lo, frag = self.g, self.lo, self.lo.frag
        # --- domains and aliases
        self.domains = [cd.name for cd in frag.clock_domains]
        clk2dom = {}
        for cd in frag.clock_domains:
            clk2dom.setdefault(cd.clk, cd.name)
        self.alias = {}
        comb = _flatten_top(frag.comb)
        rest = []
        for s in comb:
            if isinstance(s, _Assign) and isinstance(s.l, (Signal, ClockSignal)):
                l = frag.clock_domains[s.l.cd].clk if isinstance(s.l, ClockSignal) else s.l
                r = frag.clock_domains[s.r.cd].clk if isinstance(s.r, ClockSignal) else s.r
                if l in clk2dom and isinstance(r, Signal) and r in clk2dom and not (l is r):
                    self.alias[clk2dom[l]] = clk2dom[r]
                    continue
            rest.append(s)
        comb = rest
        drivenclk = set()
        # --- comb targets
        bytarget = collections.OrderedDict()
        for s in comb:
            for t in self._targets(s):
                bytarget.setdefault(t, []).append(s)
        for t in list(bytarget):
            if t in clk2dom:
                # a clock computed from other signals (e.g. from a black box
                # output): the harness ticks the domain
                drivenclk.add(clk2dom[t])
                del bytarget[t]
        units = []     # (target, reads, code lines)
        nodes = []
        reads = {}
        code = {}
        for t, sl in bytarget.items():
            r, _ = g.reads(sl, t)
            out = []
            post = (lambda x, t=t: x is t, "N")
            ns = _slots(t)
            i = g.slot(t)
            self._store_const(out, t, int(t.reset.value), "N")
            g.stmts(sl, post, t, out)
            if ns == 1:
                out.append("ch|=(S[{i}]!=N[{i}]);S[{i}]=N[{i}];".format(i=i))
            else:
                out.append("ch|=!!memcmp(&S[{i}],&N[{i}],{b});memcpy(&S[{i}],&N[{i}],{b});".format(i=i, b=8*ns))
            nodes.append(t)
            reads[t] = r
            code[t] = out
        # --- memory read nodes
        self.memdecl = []
        memread = {}
        syncm = {}
        for m in lo.memories:
            k = g.memid[m]
            fake = _FakeSig(m.width)
            w = _slots(fake)
            self.memdecl.append((k, m, w))
        for p in lo.memports:
            mem = next(m for m in lo.memories if p in m.ports)
            k = g.memid[mem]
            w = _slots(_FakeSig(mem.width))
            dom = p.clock.cd
            pre = []

            def addr(a, var, out, tag):
                e, l, h = g.ev(a)
                out.append("i64 {}=(i64)({});".format(var, e))
                if h > mem.depth - 1:
                    st = g.site("memory {} {} address".format(mem.name_override, tag))
                    out.append("if({v}>{d}){{SAN({s},{v});{v}={d};}}".format(v=var, d=mem.depth - 1, s=st))

            def loadinto(sig, var, out, arr):
                i = g.slot(sig)
                n = _slots(sig)
                if n == 1:
                    out.append("{}[{}]=M{}[{}];".format(arr, i, k, var))
                else:
                    out.append("memcpy(&{a}[{i}],&M{k}[{v}*{w}],{b});".format(a=arr, i=i, k=k, v=var, w=w, b=8*n))
            if p.dat_r is not None and not isinstance(p.dat_r, Signal):
                raise EngineError("memory port dat_r")
            if p.dat_r is not None and (p.async_read or p.mode == WRITE_FIRST):
                if p.async_read:
                    a = p.adr
                else:
                    a = Signal(len(p.adr), name="adr_reg")
                    g.slot(a)
                    out = syncm.setdefault(dom, [])
                    c = ""
                    if p.re is not None:
                        c = "if({})".format(g.ev(p.re)[0])
                    out.append("{}N[{}]={};".format(c, g.slot(a), g.slice_(*g.ev(p.adr), 0, len(p.adr))[0]))
                    self._memtargets = getattr(self, "_memtargets", {})
                    self._memtargets.setdefault(dom, set()).add(a)
                out = ["{"]
                addr(a, "ad", out, "read")
                i = g.slot(p.dat_r)
                n = _slots(p.dat_r)
                loadinto(p.dat_r, "ad", out, "N")
                if n == 1:
                    out.append("ch|=(S[{i}]!=N[{i}]);S[{i}]=N[{i}];".format(i=i))
                else:
                    out.append("ch|=!!memcmp(&S[{i}],&N[{i}],{b});memcpy(&S[{i}],&N[{i}],{b});".format(i=i, b=8*n))
                out.append("}")
                if p.dat_r in bytarget:
                    raise EngineError("memory read data also driven")
                nodes.append(p.dat_r)
                reads[p.dat_r] = list_signals(a)
                code[p.dat_r] = out
            elif p.dat_r is not None:
                out = syncm.setdefault(dom, [])
                cond = []
                if p.re is not None:
                    cond.append(g.ev(p.re)[0])
                if p.mode == NO_CHANGE and p.we is not None:
                    cond.append("!({})".format(g.ev(p.we)[0]))
                out.append("if({}){{".format("&&".join(cond) if cond else "1"))
                addr(p.adr, "ad", out, "read")
                loadinto(p.dat_r, "ad", out, "N")
                out.append("}")
                self._memtargets = getattr(self, "_memtargets", {})
                self._memtargets.setdefault(dom, set()).add(p.dat_r)
            if p.we is not None:
                out = syncm.setdefault(dom, [])
                we, wl, wh = g.ev(p.we)
                gr = p.we_granularity or mem.width
                nb = mem.width//gr
                out.append("if({}){{".format(we))
                addr(p.adr, "ad", out, "write")
                # pending write: store masked data
                dw, dl, dh = g.slice_(*g.ev(p.dat_w), 0, mem.width)
                fk = _FakeSig(mem.width)
                out.append("struct pw*p=&PW[npw++]; p->m=M{k}+ad*{w}; p->n={w};".format(k=k, w=w))
                if w == 1:
                    out.append("p->d[0]={};".format(dw))
                else:
                    out.append("ST{}(p->d,{});".format(g.wide(fk), dw))
                if p.we_granularity:
                    t = _ctype(mem.width + 1)
                    out.append("{t} mk=0;i64 we=(i64)({we});".format(t=t, we=we))
                    for i in range(nb):
                        out.append("if((we>>{i})&1)mk|=(({t}){m}<<{s});".format(i=i, t=t, m=_lit((1 << gr) - 1), s=i*gr))
                    if w == 1:
                        out.append("p->k[0]=mk;")
                    else:
                        out.append("ST{}(p->k,mk);".format(g.wide(fk)))
                else:
                    out.append("for(int q=0;q<{};q++)p->k[q]=-1;".format(w))
                out.append("}")
        # --- order the comb nodes
        nodeset = set(nodes)
        self.combsigs = nodeset
        pos = {n: i for i, n in enumerate(nodes)}
        succ = {n: sorted((x for x in reads[n] if x in nodeset), key=lambda x: pos[x]) for n in nodes}
        sccs = _tarjan(nodes, succ)     # dependencies first
        combsrc = []
        fns = []
        buf = []
        nfn = 0
        sizes = 0

        def flush():
            nonlocal buf, nfn, sizes
            if buf:
                combsrc.append("static void comb{}(void){{i64 ch=0;(void)ch;\n{}\n}}".format(nfn, "\n".join(buf)))
                fns.append("comb{}();".format(nfn))
                nfn += 1
                buf = []
                sizes = 0
        self.loops = []
        for c in sccs:
            selfloop = len(c) == 1 and c[0] in reads[c[0]]
            if len(c) == 1 and not selfloop:
                buf += ["{"] + code[c[0]] + ["}"]
                sizes += len(code[c[0]])
            else:
                c = sorted(c, key=lambda x: pos[x])
                self.loops.append([x.backtrace[-1][0] if x.backtrace else "?" for x in c])
                st = g.site("combinational loop does not settle: " + ",".join(
                    str(x.backtrace[-1][0]) if x.backtrace else "?" for x in c[:6]))
                buf.append("{int it=0;i64 ch;do{ch=0;")
                for x in c:
                    buf += ["{"] + code[x] + ["}"]
                    sizes += len(code[x])
                buf.append("}}while(ch&&++it<200);if(ch)SAN({},it);}}".format(st))
            if sizes > 1500:
                flush()
        flush()
        # --- sync
        syncsrc = ["i64 cdc_chg[%d];" % max(1, len(lo.cdc))]
        self.synctargets = {}
        names = list(self.domains)
        memt = getattr(self, "_memtargets", {})
        cdcby = {}
        for c in lo.cdc:
            cdcby.setdefault(c.domain, []).append(c)
        prevs = []
        for d in names:
            sl = frag.sync.get(d, [])
            sl = _flatten_top(sl)
            targets = collections.OrderedDict()
            for s in sl:
                for t in self._targets(s):
                    targets[t] = 1
            for t in sorted(memt.get(d, ()), key=lambda s: s.duid):
                targets[t] = 1
            cds = cdcby.get(d, [])
            for c in cds:
                targets[c.reg] = 1
            out = []
            commit = []
            tset = set(targets)
            for t in targets:
                i, n = g.slot(t), _slots(t)
                for j in range(n):
                    out.append("N[{0}]=S[{0}];".format(i + j))
                    commit.append("S[{0}]=N[{0}];".format(i + j))
            post = (lambda x, ts=tset: x in ts, "N")
            # chunk statements into functions
            chunks = []
            cur = []
            for s in sl:
                g.stmts([s], post, None, cur)
                if len(cur) > 1500:
                    chunks.append(cur)
                    cur = []
            mcode = syncm.get(d, [])
            cur += ["{"] + mcode + ["}"] if mcode else []
            for c in cds:
                e, l, h = g.ev(c.expr)
                i = g.slot(c.reg)
                if _slots(c.reg) != 1:
                    raise EngineError("wide MultiReg")
                pv = Signal(c.reg.nbits, name="cdc_prev")
                prevs.append((pv, c))
                p = g.slot(pv)
                w = c.reg.nbits
                cur.append("{i64 v=(i64)(%s);i64 o=S[%d];i64 df=(v^o)&%s; cdc_chg[%d]+=!!df;if(jitter&&df&&(i64)(rnd()&1023)<jitter){i64 m=(i64)(rnd()>>1)&df;v=(v&~m)|(o&m);jitter_events+=!!m;}" % (
                    g.slice_(e, l, h, 0, w)[0], p, _lit((1 << w) - 1), lo.cdc.index(c)))
                g.store(c.reg, ("v", -(1 << 62), (1 << 62)), "N", cur)
                cur.append("}")
                # previous sample is recorded after use
                cur.append("N[{p}]={e};".format(p=p, e=g.slice_(e, l, h, 0, w)[0]))
                commit.append("S[{0}]=N[{0}];".format(p))
            chunks.append(cur)
            for j, c in enumerate(chunks):
                syncsrc.append("static void sync_{}_{}(void){{\n{}\n}}".format(_cn(d), j, "\n".join(c)))
            calls = "".join("sync_{}_{}();".format(_cn(d), j) for j in range(len(chunks)))
            syncsrc.append("static void sync_{}(void){{{}\n{}}}".format(_cn(d), "".join(out), calls))
            syncsrc.append("static void commit_{}(void){{{}}}".format(_cn(d), "".join(commit)))
            self.synctargets[d] = tset
        # multiple-driver sanity
        drv = {}
        self.multidriven = []
        for d, ts in self.synctargets.items():
            for t in ts:
                if t in drv or t in nodeset:
                    self.multidriven.append((t, d))
                drv[t] = d
        # closure of aliases
        groups = {}
        for i, d in enumerate(names):
            r = d
            seen = set()
            while r in self.alias and r not in seen:
                seen.add(r)
                r = self.alias[r]
            groups.setdefault(r, []).append(d)
        self.root = {d: r for r, ds in groups.items() for d in ds}
        self.roots = sorted(groups)
        self.rbit = {r: 1 << i for i, r in enumerate(self.roots)}
        racesrc = self._races(groups, reads, nodeset)
        tick = ["void tick(i64 mask){npw=0;"]
        for r in self.roots:
            b = self.rbit[r]
            calls = "".join("sync_{}();".format(_cn(d)) for d in groups[r])
            rel = "".join("if(RR[{k}]&&!S[{s}])rst_rel[{k}]++;RR[{k}]=S[{s}];".format(k=k, s=g.slot(frag.clock_domains[d].rst)) for k, (q, d, _) in enumerate(self.rstforeign) if q == r)
            if self.foreign.get(r):
                c = _cn(r)
                calls = "int rc=race_{c}();{calls}if(rc)judge_{c}();".format(c=c, calls=calls)
            tick.append("if(mask&{}){{{}{}}}".format(b, rel, calls))
        for r in self.roots:
            b = self.rbit[r]
            tick.append("if(mask&{}){{{}{}}}".format(
                b, "".join("commit_{}();".format(_cn(d)) for d in groups[r]),
                "".join("S[{}]=1;".format(g.slot(frag.clock_domains[d].clk)) for d in groups[r])))
        tick.append("for(int i=0;i<npw;i++){struct pw*p=&PW[i];for(int q=0;q<p->n;q++)p->m[q]=(p->m[q]&~p->k[q])|(p->d[q]&p->k[q]);}")
        tick.append("cycles++;settle();{}}}".format("for(int i=0;i<NCOV;i++){CO[i]|=S[i];CA[i]|=~S[i];}" if COV else ""))
        tick.append("void fall(i64 mask){")
        for r in self.roots:
            tick.append("if(mask&{}){{{}}}".format(
                self.rbit[r], "".join("S[{}]=0;".format(g.slot(frag.clock_domains[d].clk)) for d in groups[r])))
        tick.append("settle();}")
        self.nspare = 256
        spare0 = g.nslots
        g.nslots += self.nspare
        self.spare0 = spare0
        # --- text
        maxw = max([1] + [w for _, _, w in self.memdecl])
        src = ["#define NSITES {}".format(len(g.sites)), _PRE]
        if COV:
            src.append("#define NCOV {0}\ni64 CO[NCOV],CA[NCOV];char BR[{1}];".format(spare0, len(g.branches) + 1))
        src.append("i64 S[{0}]; i64 N[{0}];".format(g.nslots))
        for (ns, sg, nb), k in (g.wides or {}).items():
            t = _ctype(nb + 1)
            if sg:
                raise EngineError("wide signed signal")
            src.append("static inline {t} LD{k}(const i64*p){{unsigned {u} v=0;memcpy(&v,p,{b});return ({t})v;}}".format(
                t=t, k=k, b=8*ns, u=("__int128" if t == "i128" else t)))
            src.append("static inline void ST{k}(i64*p,{t} x){{unsigned {u} v=(unsigned {u})x;memcpy(p,&v,{b});}}".format(
                t=t, k=k, b=8*ns, u=("__int128" if t == "i128" else t)))
        for k, m, w in self.memdecl:
            src.append("i64 M{}[{}];".format(k, m.depth*w + 1))
        src.append("struct pw{i64*m;int n;i64 d[%d];i64 k[%d];}; static struct pw PW[%d]; static int npw; i64 cycles=0;" % (
            maxw, maxw, max(1, len(lo.memports))))
        src += combsrc
        src.append("void settle(void){" + "".join(fns) + "}")
        src += syncsrc
        src += racesrc
        src += tick
        src.append(_RUNTIME)
        src.append(self.extra_c)
        text = "\n".join(src)
        if keep_c:
            with open(keep_c, "w") as f:
                f.write(text)
        h = hashlib.sha256((text + opt).encode()).hexdigest()[:24]
        base = os.path.join(workdir(), "g{}_{}".format(h, next(_uniq)))
        with open(base + ".c", "w") as f:
            f.write(text)
        cmd = ["clang", opt, "-w", "-fPIC", "-shared", "-fbracket-depth=4096", "-fwrapv", "-o", base + ".so", base + ".c"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise EngineError("compile: " + p.stdout.decode()[:3000])
        self.csize = len(text)
        lib = ctypes.CDLL(base + ".so")
        os.unlink(base + ".so")
        os.unlink(base + ".c")
        self.lib = lib
        self.S = (ctypes.c_int64*g.nslots).in_dll(lib, "S")
        self._N = (ctypes.c_int64*g.nslots).in_dll(lib, "N")
        self._san_cnt = (ctypes.c_int64*(len(g.sites) + 1)).in_dll(lib, "san_cnt")
        self._san_val = (ctypes.c_int64*(len(g.sites) + 1)).in_dll(lib, "san_val")
        self._jit = ctypes.c_int64.in_dll(lib, "jitter")
        self._jev = ctypes.c_int64.in_dll(lib, "jitter_events")
        self._rng = ctypes.c_uint64.in_dll(lib, "rng")
        self._cyc = ctypes.c_int64.in_dll(lib, "cycles")
        self._tick = lib.tick
        self._tick.argtypes = [ctypes.c_int64]
        self._tick.restype = None
        self._fall = lib.fall
        self._fall.argtypes = [ctypes.c_int64]
        self._fall.restype = None
        self.settle = lib.settle
        self.settle.argtypes = []
        self.settle.restype = None
        nt = max(1, len(self.racetargets))
        self._rc_cnt = (ctypes.c_int64*nt).in_dll(lib, "race_cnt")
        self._rc_src = (ctypes.c_int64*nt).in_dll(lib, "race_src")
        self._cdc_chg = (ctypes.c_int64*max(1, len(lo.cdc))).in_dll(lib, "cdc_chg")
        self._rst_rel = (ctypes.c_int64*max(1, len(self.rstforeign))).in_dll(lib, "rst_rel")
        self._rc_on = ctypes.c_int64.in_dll(lib, "race_on")
        self._rc_epoch = ctypes.c_int64.in_dll(lib, "race_epoch")
        self._rc_chk = ctypes.c_int64.in_dll(lib, "race_checked")
        self._rc_inj = ctypes.c_int64.in_dll(lib, "race_injected")
        self.mems = {}
        for k, m, w in self.memdecl:
            self.mems[m] = ((ctypes.c_int64*(m.depth*w)).in_dll(lib, "M{}".format(k)), w)
        self.prevs = [g.slot(p) for p, _ in prevs]
        # reset image
        img = [0]*g.nslots
        for s in g.order:
            v = int(s.reset.value) if s.reset is not None else 0
            for j in range(_slots(s)):
                pass
            self._img_set(img, g.idx[s], s, v)
        for p, c in prevs:
            img[g.slot(p)] = int(c.reg.reset.value) & ((1 << c.reg.nbits) - 1)
        self._img = (ctypes.c_int64*g.nslots)(*img)
        if COV:
            gwcov.register(self)
        if Sim.registry is not None:
            Sim.registry.append(self)
            self.race_monitor(True)

    def _races(self, groups, creads, nodeset):
        """C code of the race monitor"""
        g, lo, frag = self.g, self.lo, self.lo.frag
        owner = {}
        for d, ts in self.synctargets.items():
            for t in ts:
                owner[t] = {self.root[d]}
        # outputs of primitives belong to the domains that clock them
        for info in lo.instances:
            doms = set()
            for e in info.in_exprs.values():
                x = set()
                g._walk_clk(e, x)
                for cd in frag.clock_domains:
                    if cd.clk in x and cd.name in self.root:
                        doms.add(self.root[cd.name])
            if doms:
                for s in info.outputs.values():
                    owner.setdefault(s, doms)
            # lock indications follow no clock
            for p in ("LOCKED", "LOCK"):
                if p in info.outputs:
                    owner[info.outputs[p]] = set()
        for s in self.async_inputs + ([x[3] for x in self.tristates] if self.async_pads else []):
            owner[s] = set()
        # a bus master lives in the sys domain
        bus = getattr(self.dut, "bus", None)
        for n in ("adr", "we", "dat_w", "cyc", "stb", "sel"):
            x = getattr(bus, n, None)
            if isinstance(x, Signal) and x not in owner and x not in nodeset:
                owner[x] = {self.root.get("sys", "sys")}
        portreads = [set(list_signals(x)) for p in lo.memports for x in (p.adr, p.we, p.re, p.dat_w) if x is not None]
        rsts = set(cd.rst for cd in frag.clock_domains if cd.rst is not None)
        # resets of a domain that come from elsewhere without a synchroniser: (root, domain, sources)
        self.rstforeign = []
        own = dict(owner)
        for cd in lo.syncrst:
            if cd.name in self.root:
                own[cd.rst] = {self.root[cd.name]}
        for cd in frag.clock_domains:
            if cd.rst is None or cd.name not in self.root:
                continue
            r, vis, st, f = self.root[cd.name], set(), [cd.rst], []
            while st:
                x = st.pop()
                if x in vis:
                    continue
                vis.add(x)
                if x in own:
                    o = own[x]
                    if r not in o and (not o or ("sys" in o) != (r == self.root.get("sys"))):
                        f.append(x)
                elif x in nodeset:
                    st += list(creads[x])
            if f:
                self.rstforeign.append((r, cd.name, f))
        cdcregs = set(c.reg for c in lo.cdc)

        def sources(x):
            """registers and inputs an expression depends on"""
            vis, st, r = set(), list(list_signals(x)), set()
            while st:
                x = st.pop()
                if x not in vis:
                    vis.add(x)
                    if x in nodeset and x not in owner:
                        st += list(creads[x])
                    elif x in owner:
                        r.add(x)
            return r
        # synchronisers whose first stage is used by logic: (index, domain, register)
        self.short = []
        allrd = None
        for k, c in enumerate(lo.cdc):
            r = self.root[c.domain]
            if all(r in owner[x] or owner[x] and ("sys" in owner[x]) == (r == self.root.get("sys")) for x in sources(c.expr)):
                continue
            if allrd is None:
                st_ = {d: _flatten_top(frag.sync.get(d, [])) for d in self.synctargets}
                allrd = [(t, g.reads(st_[d], t)[0] - rsts) for d in st_ for t in self.synctargets[d]]
            alias, more = {c.reg}, True
            while more:
                more = [y for y, z in creads.items() if y not in alias and z and z <= alias]
                alias |= set(more)
            if any(z & alias and not z <= alias for y, z in creads.items()) or any(z & alias and not z <= alias for t, z in allrd) or \
                    any(z & alias for z in portreads):
                self.short.append((k, c.domain, ", ".join(sorted(_path(x) for x in sources(c.expr)))))
        self.foreign = {}
        self.racetargets = []
        self.capture = set()
        src = ["i64 race_on=0,race_checked=0,race_injected=0,race_epoch=1;",
               "i64 rst_rel[{0}];static i64 RR[{0}];".format(max(1, len(self.rstforeign)))]
        tdecl = len(src)
        base = 0
        for r in self.roots:
            targets, start = [], set()
            for d in groups[r]:
                sl = _flatten_top(frag.sync.get(d, []))
                for t in self.synctargets[d]:
                    if t not in cdcregs:
                        targets.append(t)
                        start |= g.reads(sl, t)[0]
                for p in lo.memports:
                    if p.clock.cd == d:
                        for x in (p.adr, p.we, p.re) + ((p.dat_w,) if p.we is not None else ()):
                            if x is not None:
                                start |= set(list_signals(x))
            vis, f = set(), set()
            st = list(start)
            while st:
                x = st.pop()
                if x in vis or x in rsts:
                    continue
                vis.add(x)
                if x in owner:
                    o = owner[x]
                    if r not in o and (not o or ("sys" in o) != (r == self.root.get("sys"))):
                        f.add(x)
                elif x in nodeset:
                    st += list(creads[x])
            f = sorted(f, key=lambda x: x.duid)[:62]
            self.foreign[r] = f
            # hand-written synchronisers: a bit captured as it is, into registers that only capture it again
            st_ = {d: _flatten_top(frag.sync.get(d, [])) for d in groups[r]}
            rd = {t: g.reads(st_[d], t)[0] - rsts for d in groups[r] for t in self.synctargets[d]}
            plain = set(q.l for d in groups[r] for q in st_[d] if isinstance(q, _Assign) and isinstance(q.l, Signal))
            for t, x in rd.items():
                if len(x) == 1 and x <= set(f) and (len(t) == 1 or t in plain):
                    users = [u for u, y in rd.items() if t in y]
                    if all(rd[u] == {t} and (len(u) == 1 or u in plain) for u in users) and not any(t in y for y in creads.values()) and \
                            not any(t in rd2 for rd2 in portreads):
                        self.capture.add(t)
            if not f:
                continue
            targets = sorted(set(targets), key=lambda t: t.duid)
            c = _cn(r)
            fs = [(k, g.slot(x) + j, x) for k, x in enumerate(f) for j in range(_slots(x))]
            ts = [(base + k, g.slot(t) + j) for k, t in enumerate(targets) for j in range(_slots(t))]
            self.racetargets += [(r, t) for t in targets]
            base += len(targets)
            calls = "".join("sync_{}();".format(_cn(d)) for d in groups[r])
            src.append("static i64 RP_{c}[{n}],RO_{c}[{n}],RA_{c}[{m}];static i64 RI_{c}=0,RS_{c};".format(c=c, n=len(fs), m=len(ts)))
            o = ["static int race_{c}(void){{i64 ch=0;if(race_on&&RI_{c}==race_epoch){{".format(c=c)]
            for i, (k, sl, x) in enumerate(fs):
                o.append("if(S[{s}]!=RP_{c}[{i}])ch|=(i64)1<<{k};".format(s=sl, c=c, i=i, k=k))
            o.append("if(ch){race_checked++;RS_%s=ch;i64 all=rnd()&1,j0=jitter;int n0=npw;jitter=0;" % c)
            for i, (k, sl, x) in enumerate(fs):
                o.append("RO_{c}[{i}]=S[{s}];".format(c=c, i=i, s=sl))
                if x.signed:
                    o.append("if(all||(rnd()&1))S[{s}]=RP_{c}[{i}];".format(c=c, i=i, s=sl))
                else:
                    o.append("S[{s}]^=(S[{s}]^RP_{c}[{i}])&(all?-1:(i64)(rnd()>>1));".format(c=c, i=i, s=sl))
            o.append("settle();")
            o.append(calls)
            for i, (t, sl) in enumerate(ts):
                o.append("RA_{c}[{i}]=N[{s}];".format(c=c, i=i, s=sl))
            for i, (k, sl, x) in enumerate(fs):
                o.append("S[{s}]=RO_{c}[{i}];".format(c=c, i=i, s=sl))
            o.append("npw=n0;jitter=j0;settle();}}")
            for i, (k, sl, x) in enumerate(fs):
                o.append("RP_{c}[{i}]=S[{s}];".format(c=c, i=i, s=sl))
            o.append("RI_{c}=race_epoch;return ch!=0;}}".format(c=c))
            src.append("".join(o))
            o = ["static void judge_{c}(void){{int bad=0,inj=jitter&&(rnd()&1);".format(c=c)]
            for i, (t, sl) in enumerate(ts):
                o.append("if(RA_{c}[{i}]!=N[{s}]){{race_cnt[{t}]++;race_src[{t}]|=RS_{c};bad=1;if(inj)N[{s}]=RA_{c}[{i}];}}".format(c=c, i=i, s=sl, t=t))
            o.append("if(bad&&inj)race_injected++;}")
            src.append("".join(o))
        src.insert(tdecl, "i64 race_cnt[{0}],race_src[{0}];".format(max(1, base)))
        return src

    def races(self):
        """-> [(domain, register, count, registers of other domains that had changed)]"""
        r = []
        for i, (d, t) in enumerate(self.racetargets):
            if self._rc_cnt[i] and t not in self.capture:
                f = self.foreign[d]
                r.append((d, _path(t), self._rc_cnt[i], [_path(f[k]) for k in range(len(f)) if (self._rc_src[i] >> k) & 1]))
        return r

    def short_syncs(self):
        """-> [(domain, sources, changes)]: bits of other clocks used by logic behind a single synchroniser stage"""
        return [(d, t, self._cdc_chg[k]) for k, d, t in self.short if self._cdc_chg[k]]

    def rst_releases(self):
        """-> [(domain, count, sources)]: resets of domains that were released at any moment, unsynchronised"""
        return [(d, self._rst_rel[k], [_path(x) for x in f]) for k, (_, d, f) in enumerate(self.rstforeign) if self._rst_rel[k]]

    def race_monitor(self, on=True):
        self._rc_on.value = int(on)

    @staticmethod
    def _img_set(img, i, s, v):
        n = _slots(s)
        if n == 1:
            img[i] = _trunc(v, s.nbits, s.signed)
        else:
            v &= (1 << s.nbits) - 1
            for j in range(n):
                w = (v >> (64*j)) & (2**64 - 1)
                img[i + j] = w - 2**64 if w >> 63 else w

    def _store_const(self, out, s, v, arr):
        self.g.store(s, (_lit(v), v, v), arr, out)

    def _targets(self, s):
        r = []
        if isinstance(s, _Assign):
            r += sorted(self.g.tsignals(s.l), key=lambda x: x.duid)
        elif isinstance(s, If):
            for x in list(s.t) + list(s.f):
                r += self._targets(x)
        elif isinstance(s, Case):
            for k, v in s.cases.items():
                for x in (v if isinstance(v, (list, tuple)) else [v]):
                    r += self._targets(x)
        elif hasattr(s, "__iter__"):
            for x in s:
                r += self._targets(x)
        return list(collections.OrderedDict.fromkeys(r))

    # ------------------------------------------------------------------ API
    def reset(self):
        """power-on state"""
        self._rc_epoch.value += 1
        ctypes.memmove(self.S, self._img, ctypes.sizeof(self._img))
        for m, (arr, w) in self.mems.items():
            ctypes.memset(arr, 0, ctypes.sizeof(arr))
            for a, v in enumerate(m.init or []):
                self._mem_set(arr, w, a, v)
        self.settle()

    @staticmethod
    def _mem_set(arr, w, a, v):
        for j in range(w):
            x = (v >> (64*j)) & (2**64 - 1)
            arr[a*w + j] = x - 2**64 if x >> 63 else x

    def mem_read(self, mem, a):
        arr, w = self.mems[mem]
        v = 0
        for j in range(w):
            v |= (arr[a*w + j] & (2**64 - 1)) << (64*j)
        return v

    def mem_write(self, mem, a, v):
        arr, w = self.mems[mem]
        self._mem_set(arr, w, a, v)

    def idx(self, sig):
        i = self.g.idx.get(sig)
        if i is None:
            if not isinstance(sig, Signal):
                raise EngineError("not a signal: {}".format(sig))
            n = _slots(sig)
            if n > self.nspare:
                raise EngineError("no spare slots")
            i = self.spare0
            self.spare0 += n
            self.nspare -= n
            self.g.idx[sig] = i
            self._wr(i, sig, int(sig.reset.value))
        return i

    def known(self, sig):
        return sig in self.g.idx

    def _wr(self, i, sig, v):
        n = _slots(sig)
        if n == 1:
            self.S[i] = _trunc(v, sig.nbits, sig.signed)
        else:
            v &= (1 << sig.nbits) - 1
            for j in range(n):
                w = (v >> (64*j)) & (2**64 - 1)
                self.S[i + j] = w - 2**64 if w >> 63 else w

    def __getitem__(self, sig):
        if isinstance(sig, ClockSignal):
            sig = self.lo.frag.clock_domains[sig.cd].clk
        i = self.idx(sig)
        n = _slots(sig)
        if n == 1:
            return self.S[i]
        v = 0
        for j in range(n):
            v |= (self.S[i + j] & (2**64 - 1)) << (64*j)
        return v

    def __setitem__(self, sig, v):
        self._wr(self.idx(sig), sig, v)

    def getter(self, sig):
        i = self.idx(sig)
        if _slots(sig) == 1:
            return lambda S=self.S, i=i: S[i]
        return lambda: self[sig]

    def setter(self, sig):
        i = self.idx(sig)
        if _slots(sig) == 1:
            m = (1 << sig.nbits) - 1
            if sig.signed:
                return lambda v: self._wr(i, sig, v)

            def f(v, S=self.S, i=i, m=m):
                S[i] = v & m
            return f
        return lambda v: self._wr(i, sig, v)

    def mask(self, *doms):
        m = 0
        for d in doms:
            if d not in self.root:
                continue
            m |= self.rbit[self.root[d]]
        return m

    def tick(self, *doms):
        self._tick(self.mask(*(doms or ("sys",))))

    def tickm(self, mask):
        self._tick(mask)

    def fall(self, *doms):
        self._fall(self.mask(*doms))

    def rst(self, dom):
        return self.lo.frag.clock_domains[dom].rst

    def set_jitter(self, prob, seed=1):
        """prob in [0,1]: chance that a changing MultiReg input is caught in
        its metastability window (each changed bit then resolves at random)"""
        self._jit.value = int(prob*1024)
        self._rng.value = (seed*0x9E3779B97F4A7C15 + 88172645463325252) & (2**64 - 1) or 1

    def jitter_events(self):
        return self._jev.value

    def cycles(self):
        return self._cyc.value

    def sanitizer(self):
        return [(self.g.sites[i], self._san_cnt[i], self._san_val[i])
                for i in range(len(self.g.sites)) if self._san_cnt[i]]

    def sanitizer_clear(self):
        ctypes.memset(self._san_cnt, 0, ctypes.sizeof(self._san_cnt))

    # bulk open loop execution -------------------------------------------------
    def run_trace(self, mask, ins, stim, outs):
        """for every row of stim: poke ins, settle, sample outs, tick(mask).
        ins/outs: lists of narrow signals; stim: int64 array [n][len(ins)].
        -> int64 array [n][len(outs)]"""
        import numpy as np
        stim = np.ascontiguousarray(stim, dtype=np.int64)
        n = stim.shape[0]
        ii = (ctypes.c_int64*max(1, len(ins)))(*[self.idx(s) for s in ins])
        oi = (ctypes.c_int64*max(1, len(outs)))(*[self.idx(s) for s in outs])
        res = np.empty((n, len(outs)), dtype=np.int64)
        f = self.lib.run_trace
        f.restype = None
        f(ctypes.c_int64(mask), ctypes.c_int64(n), ctypes.c_int64(len(ins)), ii,
          ctypes.c_void_p(stim.ctypes.data), ctypes.c_int64(len(outs)), oi,
          ctypes.c_void_p(res.ctypes.data))
        return res

    def run_sched(self, masks, ins, stim, outs):
        """like run_trace with one clock mask per row"""
        import numpy as np
        stim = np.ascontiguousarray(stim, dtype=np.int64)
        masks = np.ascontiguousarray(masks, dtype=np.int64)
        n = len(masks)
        ii = (ctypes.c_int64*max(1, len(ins)))(*[self.idx(s) for s in ins])
        oi = (ctypes.c_int64*max(1, len(outs)))(*[self.idx(s) for s in outs])
        res = np.empty((n, len(outs)), dtype=np.int64)
        f = self.lib.run_sched
        f.restype = None
        f(ctypes.c_void_p(masks.ctypes.data), ctypes.c_int64(n), ctypes.c_int64(len(ins)), ii,
          ctypes.c_void_p(stim.ctypes.data), ctypes.c_int64(len(outs)), oi,
          ctypes.c_void_p(res.ctypes.data))
        return res

    def run_stream(self, mask, sink, source, tokens, vpat, rpat, maxcyc, drain=64,
                   in_fields=(), out_fields=(), rst=None, garbage=True, seed=1, stable=True, cap=None):
        """Drive `tokens` (int64 [n][len(in_fields)]) into stream endpoint sink
        (valid held until accepted, offered when vpat[cycle]) and log what
        source delivers with source.ready=rpat[cycle] (patterns repeat).
        When the sink is not valid its fields carry garbage if asked.
        -> dict(out=array [m][fields+1 (cycle)], accepted=[cycle...],
                stab=number of stability violations, cycles=…)"""
        import numpy as np
        tokens = np.ascontiguousarray(tokens, dtype=np.int64)
        nt = tokens.shape[0]
        vp = np.ascontiguousarray(vpat, dtype=np.uint8)
        rp = np.ascontiguousarray(rpat, dtype=np.uint8)
        cap = cap or nt*2 + 64
        out = np.zeros((cap, len(out_fields) + 1), dtype=np.int64)
        acc = np.zeros(nt + 1, dtype=np.int64)
        ii = (ctypes.c_int64*max(1, len(in_fields)))(*[self.idx(s) for s in in_fields])
        im = (ctypes.c_int64*max(1, len(in_fields)))(*[(1 << s.nbits) - 1 for s in in_fields])
        oi = (ctypes.c_int64*max(1, len(out_fields)))(*[self.idx(s) for s in out_fields])
        info = (ctypes.c_int64*8)()
        f = self.lib.run_stream
        f.restype = None
        L = ctypes.c_int64
        f(L(mask), L(self.idx(sink.valid)), L(self.idx(sink.ready)), L(self.idx(source.valid)), L(self.idx(source.ready)),
          L(nt), L(len(in_fields)), ii, im, ctypes.c_void_p(tokens.ctypes.data),
          L(len(vp)), ctypes.c_void_p(vp.ctypes.data), L(len(rp)), ctypes.c_void_p(rp.ctypes.data),
          L(maxcyc), L(drain), L(len(out_fields)), oi, L(cap), ctypes.c_void_p(out.ctypes.data),
          ctypes.c_void_p(acc.ctypes.data), info, L(1 if garbage else 0), L(seed), L(1 if stable else 0))
        return dict(out=out[:info[1]], accepted=acc[:info[0]], stab=info[2], cycles=info[3],
                    stab_cycle=info[4], overflow=info[5])


def _path(s):
    """name of a signal by where it was made (without instance numbers)"""
    bt = s.backtrace or [("?", None)]
    out = []
    for n, k in bt[-3:]:
        if n not in out:
            out.append(str(n))
    return ".".join(out)


class _FakeSig:
    def __init__(self, nbits):
        self.nbits = nbits
        self.signed = False


def _trunc(v, n, s):
    v &= (1 << n) - 1
    if s and v >> (n - 1):
        v -= 1 << n
    return v


def _cn(d):
    return "".join(c if c.isalnum() else "_" for c in d)


_uniq = itertools.count()

_RUNTIME = r"""
void run_trace(i64 mask,i64 n,i64 ni,i64*ii,i64*st,i64 no,i64*oi,i64*res){
  for(i64 k=0;k<n;k++){
    for(i64 j=0;j<ni;j++)S[ii[j]]=st[k*ni+j];
    settle();
    for(i64 j=0;j<no;j++)res[k*no+j]=S[oi[j]];
    tick(mask);
  }
}
void run_sched(i64*masks,i64 n,i64 ni,i64*ii,i64*st,i64 no,i64*oi,i64*res){
  for(i64 k=0;k<n;k++){
    for(i64 j=0;j<ni;j++)S[ii[j]]=st[k*ni+j];
    settle();
    for(i64 j=0;j<no;j++)res[k*no+j]=S[oi[j]];
    tick(masks[k]);
  }
}
void run_stream(i64 mask,i64 siv,i64 sir,i64 sov,i64 sor,i64 nt,i64 ni,i64*ii,i64*im,i64*tok,
  i64 nv,unsigned char*vp,i64 nr,unsigned char*rp,i64 maxcyc,i64 drain,i64 no,i64*oi,i64 cap,i64*out,
  i64*acc,i64*info,i64 garbage,i64 seed,i64 stable){
  i64 na=0,nout=0,stab=0,stabc=-1,c=0,quiet=0,held=0,over=0; i64 prev[64]; i64 pend=0;
  u64 g=(u64)seed*0x9E3779B97F4A7C15ull+1;
  for(c=0;c<maxcyc;c++){
    if(!held && na<nt && vp[c%nv]) held=1;
    if(held){S[siv]=1;for(i64 j=0;j<ni;j++)S[ii[j]]=tok[na*ni+j];}
    else{S[siv]=0;if(garbage)for(i64 j=0;j<ni;j++){g^=g<<13;g^=g>>7;g^=g<<17;S[ii[j]]=(i64)g&im[j];}}
    S[sor]=rp[c%nr];
    settle();
    i64 v=S[sov];
    if(pend && stable){
      i64 bad=!v;
      for(i64 j=0;j<no&&!bad;j++)if(S[oi[j]]!=prev[j])bad=1;
      if(bad){if(!stab)stabc=c;stab++;}
    }
    pend=0;
    if(v&&S[sor]){
      if(nout<cap){for(i64 j=0;j<no;j++)out[nout*(no+1)+j]=S[oi[j]];out[nout*(no+1)+no]=c;nout++;}else over=1;
      quiet=0;
    }else if(v){pend=1;for(i64 j=0;j<no&&j<64;j++)prev[j]=S[oi[j]];}
    i64 took=held&&S[sir];
    tick(mask);
    if(took){acc[na++]=c;held=0;quiet=0;}
    if(na>=nt){ if(++quiet>drain)break; }
  }
  S[siv]=0;
  info[0]=na;info[1]=nout;info[2]=stab;info[3]=c;info[4]=stabc;info[5]=over;
}
"""
