"""DVI 1.0 transition-minimised differential signalling, from the specification (section 3.2/3.3)"""
import numpy as np

CONTROL = [0b1101010100, 0b0010101011, 0b0101010100, 0b1010101011]    # by (c1,c0)


def qm(d):
    n1 = bin(d).count("1")
    xnor = n1 > 4 or (n1 == 4 and not d & 1)
    q = d & 1
    b = q
    for i in range(1, 8):
        b ^= (d >> i) & 1
        if xnor:
            b ^= 1
        q |= b << i
    return q, 0 if xnor else 1      # q_m[7:0], q_m[8]


QM = [qm(d) for d in range(256)]


def table():
    """(data, disparity) -> (symbol, next disparity), for the disparities that can occur (even, -16..16)"""
    t = {}
    for d in range(256):
        q, q8 = QM[d]
        n1 = bin(q).count("1")
        n0 = 8 - n1
        for cnt in range(-16, 17):
            if cnt == 0 or n1 == n0:
                s = ((1 - q8) << 9) | (q8 << 8) | (q if q8 else q ^ 0xff)
                c = cnt + (n1 - n0 if q8 else n0 - n1)
            elif (cnt > 0 and n1 > n0) or (cnt < 0 and n0 > n1):
                s = (1 << 9) | (q8 << 8) | (q ^ 0xff)
                c = cnt + 2*q8 + n0 - n1
            else:
                s = (q8 << 8) | q
                c = cnt - 2*(1 - q8) + n1 - n0
            t[d, cnt] = (s, c)
    return t


TABLE = table()


def encode(d, c, de):
    """sequences -> list of symbols, starting with zero disparity"""
    out = []
    cnt = 0
    for x, y, z in zip(d, c, de):
        if z:
            s, cnt = TABLE[int(x), cnt]
        else:
            s, cnt = CONTROL[int(y)], 0
        out.append(s)
    return np.array(out, np.int64)


def _dec(s):
    q = s & 0xff
    if s & 0x200:
        q ^= 0xff
    d = q & 1
    for i in range(1, 8):
        b = ((q >> i) ^ (q >> (i - 1))) & 1
        if not s & 0x100:
            b ^= 1
        d |= b << i
    return d


DATA = np.array([_dec(s) for s in range(1024)], np.int64)
CTL = np.full(1024, -1, np.int64)
for _i, _s in enumerate(CONTROL):
    CTL[_s] = _i
assert all(DATA[TABLE[d, c][0]] == d for d in range(256) for c in range(-16, 17))


def decode(sym):
    """-> (de, data, control)"""
    sym = np.asarray(sym)
    ctl = CTL[sym]
    return (ctl < 0).astype(np.int64), np.where(ctl < 0, DATA[sym], 0), np.where(ctl < 0, 0, ctl)


# TERC4 code words of HDMI data islands
TERC4 = [0b1010011100, 0b1001100011, 0b1011100100, 0b1011100010, 0b0101110001, 0b0100011110, 0b0110001110, 0b0100111100,
         0b1011001100, 0b0100111001, 0b0110011100, 0b1011000110, 0b1010001110, 0b1001110001, 0b0101100011, 0b1011000011]
