#!/usr/bin/env python3
"""Development tool: what the checks' executions never toggled / never branched to.
usage: GW_COV=/tmp/cov ./check Cxx quick ...; cov.py /tmp/cov [file substring]"""
import sys, os, json, glob, collections
d = sys.argv[1]
sub = sys.argv[2] if len(sys.argv) > 2 else ""
sig, br, who = {}, {}, collections.defaultdict(set)
for f in glob.glob(d + "/*.json"):
    j = json.load(open(f))
    pid = os.path.basename(f).split("-")[0]
    for k, v in j["sig"].items():
        o = sig.setdefault(k, [0, 0])
        o[0] |= int(v[0], 16)
        o[1] |= int(v[1], 16)
        who[k].add(pid)
    for k, v in j["br"].items():
        br[k] = br.get(k, 0) | v
        who[k].add(pid)


def loc(k):
    a, b = k.split(" ")[0].rsplit(":", 1)
    return a, int(b)


def ranges(m):
    r = [i for i in range(m.bit_length()) if m >> i & 1]
    return ",".join(map(str, r)) if len(r) < 12 else "{}..{} ({})".format(r[0], r[-1], len(r))


print("== bits never seen both ways")
n = t = 0
for k in sorted(sig, key=loc):
    w = int(k.rsplit("[", 1)[1][:-1])
    m = (1 << w) - 1
    t += w
    miss = m & ~(sig[k][0] & sig[k][1])
    if miss:
        n += bin(miss).count("1")
        if sub in k:
            print("{}  bits {} (stuck at {})  {}".format(k, ranges(miss), "0" if not sig[k][0] & miss else "1" if not sig[k][1] & miss else "?", " ".join(sorted(who[k]))))
print("   {} of {}".format(n, t))
print("== branches never taken")
n = 0
for k in sorted(br, key=loc):
    if not br[k]:
        n += 1
        if sub in k:
            print(k, " ", " ".join(sorted(who[k])))
print("   {} of {}".format(n, len(br)))
