"""Reference models (oracles) written from the standards and the documented
equations, independent of the gateware."""
import numpy as np
from fractions import Fraction

# --- colour space conversion -------------------------------------------------
CA, CB, CC, CD = 0.1819, 0.0618, 0.5512, 0.6495


def rgb2ycbcr(r, g, b, w=8, cw=8):
    """XAPP930 equations, coefficients quantised to cw fractional bits,
    products rounded down, clamped"""
    q = lambda x: int(x*2**cw)
    ca, cb, cc, cd = q(CA), q(CB), q(CC), q(CD)
    r, g, b = (np.asarray(x, np.int64) for x in (r, g, b))
    yr = ((ca*(r - g) + cb*(b - g)) >> cw) + g
    y = yr + 2**(w - 4)
    pb = ((cc*(b - yr)) >> cw) + 2**(w - 1)
    pr = ((cd*(r - yr)) >> cw) + 2**(w - 1)
    m = 2**w - 1
    return np.clip(y, 0, m), np.clip(pb, 0, m), np.clip(pr, 0, m)


def rgb2ycbcr_real(r, g, b, w=8):
    r, g, b = (np.asarray(x, float) for x in (r, g, b))
    yr = CA*(r - g) + CB*(b - g) + g
    m = 2**w - 1
    return (np.clip(yr + 2**(w - 4), 0, m), np.clip(CC*(b - yr) + 2**(w - 1), 0, m),
            np.clip(CD*(r - yr) + 2**(w - 1), 0, m))


def _xc(cw):
    q = lambda x: int(x*2**(cw - 2))
    k = 1 - CA - CB
    return q(1/CD), q(-CB/(CC*k)), q(-CA/(CD*k)), q(1/CC)


def ycbcr2rgb(y, cb, cr, w=8, cw=8):
    a, b_, c, d = _xc(cw)
    s = cw - 2
    y, cb, cr = (np.asarray(x, np.int64) for x in (y, cb, cr))
    y0 = y - 2**(w - 4)
    u, v = cb - 2**(w - 1), cr - 2**(w - 1)
    m = 2**w - 1
    return (np.clip(y0 + ((v*a) >> s), 0, m),
            np.clip(y0 + ((u*b_) >> s) + ((v*c) >> s), 0, m),
            np.clip(y0 + ((u*d) >> s), 0, m))


def ycbcr2rgb_real(y, cb, cr, w=8):
    k = 1 - CA - CB
    y, cb, cr = (np.asarray(x, float) for x in (y, cb, cr))
    y0 = y - 2**(w - 4)
    u, v = cb - 2**(w - 1), cr - 2**(w - 1)
    m = 2**w - 1
    return (np.clip(y0 + v/CD, 0, m),
            np.clip(y0 - u*CB/(CC*k) - v*CA/(CD*k), 0, m),
            np.clip(y0 + u/CC, 0, m))


# --- half precision -------------------------------------------------------------
def f16_to_int(h):
    """finite non-negative half float -> integer in units of 2**-24"""
    h = np.asarray(h, np.int64)
    e, f = h >> 10, h & 1023
    return np.where(e == 0, f, (f + 1024) << np.maximum(e - 1, 0))


def int_to_f16(v):
    """integer in units of 2**-24 (< 2**40) -> half float, truncated"""
    v = np.asarray(v, np.int64)
    out = np.zeros(v.shape, np.int64)
    n = np.zeros(v.shape, np.int64)
    t = v.copy()
    for s in (32, 16, 8, 4, 2, 1):
        b = t >= (1 << s)
        n = np.where(b, n + s, n)
        t = np.where(b, t >> s, t)
    e = np.maximum(n - 10, 0)
    out = np.where(v < 1024, v, ((e + 1) << 10) | ((v >> e) & 1023))
    return out


def pix_to_f16(p):
    """pixel p -> half float of p/256"""
    return int_to_f16(np.asarray(p, np.int64) << 16)


def f16_to_pix(h):
    """half float in [0,1] -> floor(256*value) saturated to 255"""
    return np.minimum(f16_to_int(h) >> 16, 255)
