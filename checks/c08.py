"""half-precision multiplication"""
import numpy as np
import gw, golden
from csc_common import *

RULE = ("every pair of exponents with corner and random mantissas, plus random operand pairs (zero, subnormal, normal) "
        "streamed back to back with a different pair every cycle and under random schedules, and every pair of non-negative "
        "finite operands there is, in scattered order; the result must be the "
        "exact product truncated to half precision; a case is a distinct operand pair whose product is in range")
ASSUME = ["the execution engine (lib/gw.py) has migen.sim semantics",
          "operands are non-negative and finite and the exact result is below 65536 (sign, infinity and NaN are not implemented by these units)"]
MIN_EVENTS = 10**8
GOLD_C = "v=((u128)fx(a)*fx(b))>>24;"
NV = 31*1024                # non-negative finite values
PARTS = 64

# every operand pair once, in scattered order (neighbours in the pipeline differ in both operands)
SWEEP = r"""
static u64 fx(u64 h){u64 e=h>>10,f=h&1023;return e?(f+1024)<<(e-1):f;}
static u64 xf(u64 v){if(v<1024)return v;int n=63-__builtin_clzll(v);u64 e=n-10;return (e+1)<<10|((v>>e)&1023);}
void sweep(i64 iv,i64 ir,i64 ia,i64 ib,i64 ov,i64 orr,i64 oo,i64 nv,i64 t0,i64 t1,i64 mul,i64 add,i64 maxcyc,i64*info){
  enum{R=4096}; static u64 qa[R],qb[R],qe[R]; i64 head=0,tail=0,t=t0; u64 nn=(u64)nv*nv; int have=0; u64 a=0,b=0,e=0; i64 idle=0;
  for(int i=0;i<12;i++)info[i]=0;
  S[orr]=1;
  for(i64 c=0;c<maxcyc;c++){
    while(!have&&t<t1){u64 p=((u64)t*mul+add)%nn;t++;a=p/nv;b=p%nv;u128 v;GOLD if(v<((u128)65536<<24)){e=xf((u64)v);have=1;}else info[2]++;}
    S[iv]=have;S[ia]=a;S[ib]=b;settle();
    if(S[ov]){idle=0;
      if(tail==head){info[7]++;}
      else{int k=tail%R;info[1]++;
        if((u64)S[oo]!=qe[k]&&!info[3]++){info[4]=qa[k];info[5]=qb[k];info[6]=S[oo];info[8]=qe[k];}
        info[9]+=qe[k]<1024;tail++;}
    }else idle++;
    if(have&&S[ir]){if(head-tail>=R){info[7]++;break;}int k=head%R;qa[k]=a;qb[k]=b;qe[k]=e;head++;info[0]++;have=0;}
    tick(1);
    if(!have&&t>=t1&&(head==tail?idle>64:idle>4000))break;
    if(idle>100000)break;
  }
  info[10]=head-tail;info[11]=t>=t1&&!have;
}
"""


def jobs(tier, seed):
    reps = 8 if tier == "quick" else 160
    j = [dict(name="rand-{}".format(k), kind="rand", n=400000, seed=seed + 7*k) for k in range(reps)]
    j += [dict(name="exp-{}".format(k), kind="exp", part=k, seed=seed, n=0) for k in range(8)]
    j += [dict(name="all-{}".format(k), kind="all", part=k, seed=seed, n=0, cost=5) for k in range(PARTS)]
    j += [dict(name="sched-{}".format(k), kind="sched", n=20000, seed=seed + 7*k) for k in range(4 if tier == "quick" else 40)]
    return j


def block():
    from litevideo.float_arithmetic.floatmult import FloatMult
    return FloatMult()


def gold(a, b):
    """-> (expected, in range)"""
    x, y = golden.f16_to_int(a), golden.f16_to_int(b)
    # x*y in units 2^-48; x,y < 2^41: split to stay inside int64
    hi, lo = x >> 20, x & 0xfffff
    # floor(x*y / 2^24)
    p = np.array([(int(i)*int(j)) >> 24 for i, j in zip(x, y)], dtype=np.object_) if (np.log2(x + 1.) + np.log2(y + 1.)).max() > 62 else (x*y) >> 24
    ok = np.array([v < (65536 << 24) for v in p]) if p.dtype == object else p < (65536 << 24)
    p = np.where(ok, p, 0).astype(np.int64)
    return golden.int_to_f16(p), ok


def operands(rng, n):
    v = rng.integers(0, 0x7c00, n)
    k = rng.random(n)
    v = np.where(k < .05, 0, v)
    v = np.where((k >= .05) & (k < .2), rng.integers(0, 0x400, n), v)       # subnormal
    v = np.where((k >= .2) & (k < .55), rng.integers(0x2000, 0x4400, n), v)  # around [2^-7, 4]
    v = np.where((k >= .55) & (k < .65), v & 0x7c00, v)                      # powers of two
    v = np.where((k >= .65) & (k < .75), v | 0x3ff, v)                       # all ones
    v = np.where((k >= .75) & (k < .8), v & 0x7c00 | (1 << rng.integers(0, 10, n)), v)
    return v.astype(np.int64)


def sweep(job, ctx, block, gold_c):
    import ctypes
    dut = ctx.build(block)
    sim = ctx.build(gw.Sim, dut, opt="-O2", extra_c=SWEEP.replace("GOLD", gold_c))
    r = np.random.default_rng(job["seed"])
    mul = int(r.integers(1 << 28, 1 << 30))
    while np.gcd(mul, 62) != 1:
        mul += 1
    add = int(r.integers(NV*NV))
    t0, t1 = job["part"]*NV*NV//PARTS, (job["part"] + 1)*NV*NV//PARTS
    info = (ctypes.c_int64*12)()
    s, o = dut.sink, dut.source
    L = ctypes.c_int64
    f = sim.lib.sweep
    f.restype = None
    f(*[L(sim.idx(x)) for x in (s.valid, s.ready, s.in1, s.in2, o.valid, o.ready, o.out)], L(NV), L(t0), L(t1), L(mul), L(add), L(4*(t1 - t0)), info)
    acc, got, _, bad, a, b, v, extra, e, sub, left, done = info
    ctx.ev(got)
    ctx.count("accepted", acc)
    ctx.count("delivered", got)
    ctx.count("subnormal or zero results", sub)
    n = type(dut).__name__
    if bad:
        ctx.fail("{}: operands {:#06x} and {:#06x} give {:#06x}, exact result is {:#06x} ({} results differ)".format(n, a, b, v, e, bad))
    if extra:
        ctx.fail("{}: {} results nobody asked for".format(n, extra))
    if left or not done:
        ctx.fail("{}: {} operand pairs accepted and never answered{}".format(n, left, "" if done else ", and input refused for good"))
    ctx.distinct(got)
    ctx.sanitizers(sim)


def run(job, ctx, block=None, gold=None, gold_c=GOLD_C):
    block = block or globals()["block"]
    if job["kind"] == "all":
        return sweep(job, ctx, block, gold_c)
    gold = gold or globals()["gold"]
    rng = npr(job)
    dut = ctx.build(block)
    sim = ctx.build(gw.Sim, dut)
    if job["kind"] == "exp":
        mant = np.array([0, 1, 2, 0x1ff, 0x200, 0x201, 0x2aa, 0x3fe, 0x3ff] + rng.integers(0, 1024, 3).tolist())
        e = np.arange(31)
        A = (e[:, None] << 10 | mant[None, :]).ravel()
        A = A[job["part"]::8]
        B = (e[:, None] << 10 | mant[None, :]).ravel()
        a, b = (x.ravel() for x in np.meshgrid(A, B))
        p = rng.permutation(len(a))
        a, b = a[p], b[p]
        vk = rk = "full"
    else:
        a, b = operands(rng, job["n"]), operands(rng, job["n"])
        vk = rk = "full"
        if job["kind"] == "sched":
            vk, rk = PATTERNS[int(rng.integers(len(PATTERNS)))], PATTERNS[int(rng.integers(len(PATTERNS)))]
    e, ok = gold(a, b)
    a, b, e = a[ok], b[ok], e[ok]
    tok = np.stack([a, b], 1)
    vp, rp = pattern(vk, rng), pattern(rk, rng, 3989)
    r = sim.run_stream(1, dut.sink, dut.source, tok, vp, rp, int(len(tok)*3/min(vp.mean(), rp.mean()) + 3000),
                       in_fields=fields(dut.sink, ["in1", "in2"]), out_fields=fields(dut.source, ["out"]),
                       seed=job["seed"], drain=int(40/rp.mean()) + 60)
    compare(ctx, r, tok, [e], ["out"], "{} valid={} ready={}".format(type(dut).__name__, vk, rk))
    ctx.count("subnormal or zero results", int((e < 0x400).sum()))
    ctx.sanitizers(sim)
