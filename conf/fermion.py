"""Independent oracle for fermionic operator strings: plain Python integers."""
import numpy as np
from HamiltonianPy.quantumoperator.constant import CREATION, ANNIHILATION


def act(string, ket):
    """string: [(index, is_creation)], acts from the right; returns (ket, sign) or None."""
    sign = 1
    for idx, cr in reversed(string):
        occ = (ket >> idx) & 1
        if occ == (1 if cr else 0):
            return None
        below = ket & ((1 << idx) - 1)
        if bin(below).count("1") % 2:
            sign = -sign
        ket ^= 1 << idx
    return ket, sign


class Missing(Exception):
    pass


def matrix(string, right, left, coeff):
    """dict {(row, col): value}; Missing if an image is not in left."""
    pos = {int(b): i for i, b in enumerate(left)}
    out = {}
    for c, ket in enumerate(right):
        r = act(string, int(ket))
        if r is None:
            continue
        if r[0] not in pos:
            raise Missing()
        out[(pos[r[0]], c)] = coeff * r[1]
    return out


def otype(cr):
    return CREATION if cr else ANNIHILATION


def u64(xs):
    return np.array(sorted(xs), dtype=np.uint64)


def rand_basis(rng, bits, n, full=False):
    if full:
        out = set()
        k = len(bits)
        for m in range(1 << k):
            v = 0
            for i, b in enumerate(bits):
                if m >> i & 1:
                    v |= 1 << b
            out.add(v)
        return sorted(out)
    out = set()
    for _ in range(n):
        v = 0
        for b in bits:
            if rng.random() < 0.5:
                v |= 1 << b
        out.add(v)
    return sorted(out)


COEFFS = [1.0, -2.5, 3, 0.125 + 2j, -1j, np.float64(0.7), np.complex128(1.5 - 0.25j), np.int64(-3), 1, np.float32(2.0), 1e-13, 3e-15j, -4e14, 5e-200]


def same_csr(m, want, shape, tol=1e-12):
    if tuple(m.shape) != tuple(shape):
        return "shape %r != %r" % (m.shape, shape)
    c = m.tocoo()
    got = {}
    for r, k, v in zip(c.row, c.col, c.data):
        got[(int(r), int(k))] = got.get((int(r), int(k)), 0) + complex(v)
    for key in set(got) | set(want):
        if abs(got.get(key, 0) - complex(want.get(key, 0))) > tol * abs(complex(want.get(key, 0))):
            return "entry %r is %r, expected %r" % (key, got.get(key, 0), want.get(key, 0))
    return None


def same_triple(res, want, tol=1e-12):
    try:
        entries, (rows, cols) = res
    except Exception as e:
        return "not a triple: %s" % e
    if not (len(entries) == len(rows) == len(cols)):
        return "lengths differ"
    got = {}
    for v, r, c in zip(entries, rows, cols):
        if v == 0:
            return "explicit zero entry at %r" % ((int(r), int(c)),)
        k = (int(r), int(c))
        if k in got:
            return "duplicate entry %r" % (k,)
        got[k] = complex(v)
    if set(got) != set(want):
        return "entries at %r, expected %r" % (sorted(got)[:10], sorted(want)[:10])
    for k in want:
        if abs(got[k] - complex(want[k])) > tol * abs(complex(want[k])):
            return "entry %r is %r, expected %r" % (k, got[k], want[k])
    return None


def rand_bits(rng, k):
    top = rng.choice([k + 1, 12, 33, 40, 63, 63])
    top = max(top, k)
    pool = list(range(top + 1)) if top < 63 else list(range(64))
    bits = rng.sample(pool, k)
    if rng.random() < 0.5:
        # include values across the 32- and 53-bit limits
        extra = [b for b in (0, 31, 32, 53, 62, 63) if b <= top and b not in bits]
        if extra:
            bits[0] = rng.choice(extra)
    return sorted(bits)


def rand_string(rng, bits, L):
    mode = rng.random()
    if mode < 0.3:
        return [(rng.choice(bits), rng.random() < 0.5) for _ in range(L)]
    # strings that often survive: simulate from the right on a random ket
    ket = 0
    for b in bits:
        if rng.random() < 0.5:
            ket |= 1 << b
    s = []
    for _ in range(L):
        b = rng.choice(bits)
        cr = not (ket >> b & 1)
        if rng.random() < 0.05:
            cr = not cr
        else:
            ket ^= 1 << b
        s.append((b, cr))
    return s[::-1]
