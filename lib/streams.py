"""stream workloads: valid/ready schedules and token helpers"""
import numpy as np

PATTERNS = ["full", "half", "sparse", "burst", "alt", "almost", "runs"]


def pattern(kind, rng, n=4099):
    """a 0/1 schedule (numpy rng) with at least one 1"""
    if kind == "full":
        return np.ones(1, np.uint8)
    if kind == "half":
        p = rng.random(n) < .5
    elif kind == "sparse":
        p = rng.random(n) < .08
    elif kind == "almost":
        p = rng.random(n) < .93
    elif kind == "alt":
        p = (np.arange(n - 1) % 2) == 0
    elif kind == "burst":
        p = np.zeros(n, bool)
        i = 0
        while i < n:
            a, b = rng.integers(1, 40), rng.integers(1, 40)
            p[i:i + a] = True
            i += a + b
    elif kind == "runs":
        p = np.zeros(n, bool)
        i = 0
        while i < n:
            a, b = rng.integers(1, 5), rng.integers(1, 4)
            p[i:i + a] = True
            i += a + b
    else:
        raise ValueError(kind)
    p[0] = True
    return p.astype(np.uint8)


def npr(job):
    import json, hashlib
    h = hashlib.sha256(json.dumps(job, sort_keys=True).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


def framing(n, rng, maxlen=80):
    """first/last columns of packets of random length"""
    f = np.zeros(n, np.int64)
    l = np.zeros(n, np.int64)
    i = 0
    while i < n:
        k = int(rng.integers(1, maxlen))
        f[i] = 1
        l[min(n, i + k) - 1] = 1
        i += k
    return f, l


def corner_values(rng, n, w, extra=()):
    """mixture of uniform, corner and walking values of w bits"""
    v = rng.integers(0, 1 << w, n)
    c = np.array(sorted(set([0, 1, 2, (1 << w) - 1, (1 << w) - 2, 1 << (w - 1), (1 << (w - 1)) - 1,
                             (1 << w)//16, (1 << w)//16 - 1] + list(extra))))
    m = rng.random(n)
    v = np.where(m < .25, rng.choice(c, n), v)
    # slowly varying stretches, as real pictures have
    st = np.cumsum(rng.integers(-2, 3, n)) % (1 << w)
    v = np.where((m > .25) & ((np.arange(n)//64) % 3 == 0), st, v)
    return v.astype(np.int64)
