#!/usr/bin/env python3
"""Hard inputs, computed from the number theory alone (nothing from the repository is read).

For every binary exponent and for the decimal scales near its ulp, finds significands f for which
f*2^e, the two rounding boundaries (f +- 1/2)*2^e or the neighbours (f +- 1)*2^e fall extremely close to,
but not on, a multiple of a power of ten, from either side.  These are the inputs on which fixed-precision
arithmetic is decided by its last bits.  Output: corpus/hard_{float,double}.bin, little-endian u64 patterns.
"""
import struct, sys, os
from concurrent.futures import ProcessPoolExecutor

def first(a, m, lo, hi):
    """least x >= 0 with lo <= a*x mod m <= hi (0 <= lo <= hi < m), or None"""
    # iterative version of the standard Euclid-like recursion
    st = []
    a %= m
    while True:
        if lo == 0:
            r = 0
            break
        if a == 0:
            return None
        q = -(-lo // a)
        if q * a <= hi:
            r = q
            break
        # need y with  (m y + lo.. ) : reduce
        st.append((a, m, lo))
        a, m, lo, hi = (-m) % a, a, lo % a, hi % a
        if lo > hi:
            return None
    while st:
        a, m, lo = st.pop()
        # r = y with  (-m*y) mod a in [lo%a,hi%a]  ->  x = ceil((lo + m*y)/a)
        r = -(-(lo + m * r) // a)
    return r

def hits(p, e, E, num, off, lowf, highf):
    """f in [lowf,highf] with ((num*f+off) * 2^(e)/10^E) mod 1 closest to 0 from above and below.
    value = (num*f+off)*2^e/10^E"""
    A = 2 ** max(e, 0) * 10 ** max(-E, 0)
    M = 2 ** max(-e, 0) * 10 ** max(E, 0)
    if M == 1:
        return []
    n = highf - lowf
    a = (A * num) % M
    b = (A * (num * lowf + off)) % M
    res = []
    for side in (0, 1):
        # want residue t in [1, T] (side 0) or [M-T, M-1] (side 1), smallest T (power of two search)
        best = None
        hiT = max(M >> max(p - 8, 1), 1)
        T = hiT
        while T >= 1:
            L, R = (1, T) if side == 0 else (M - T, M - 1)
            L2, R2 = L - b, R - b
            cand = []
            segs = []
            L2m, R2m = L2 % M, R2 % M
            if L2m <= R2m: segs = [(L2m, R2m)]
            else: segs = [(L2m, M - 1), (0, R2m)]
            for (x, y) in segs:
                r = first(a, M, x, y)
                if r is not None and r <= n:
                    cand.append(r)
            if not cand:
                break
            best = min(cand)
            # tighten to just below the residue found
            t = (a * best + b) % M
            t = t if side == 0 else M - t
            if best is not None: last = lowf + best
            res_f = lowf + best
            keep = res_f
            T = (t - 1) if t > 1 else 0
            if T == 0: break
        if best is not None:
            res.append(keep)
    return res

def work(args):
    p, eb, be = args
    bias = (1 << (eb - 1)) - 1
    e = (be if be else 1) - bias - p
    lowf, highf = ((1 << p), (1 << (p + 1)) - 1) if be else (1, (1 << p) - 1)
    out = set()
    import math
    base = math.floor(e * math.log10(2))
    for E in range(base - 1, base + 3):
        for num, off, sh in ((1, 0, 0), (2, 1, -1), (2, -1, -1), (2, 0, 0)):
            # (f)*2^e ; (2f+1)*2^(e-1) ; (2f-1)*2^(e-1) ; 2f*2^e, i.e. twice the value
            for f in hits(p, e + sh, E, num, off, lowf, highf):
                frac = f - (1 << p) if be else f
                out.add((be << p) | frac)
    return out

def run(name, p, eb, step=1):
    s = set()
    with ProcessPoolExecutor() as ex:
        for r in ex.map(work, [(p, eb, be) for be in range(0, (1 << eb) - 1, step)], chunksize=8):
            s |= r
    v = sorted(s)
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'corpus', 'hard_%s.bin' % name)
    with open(path, 'wb') as f:
        f.write(struct.pack('<%dQ' % len(v), *v))
    print(name, len(v))

if __name__ == '__main__':
    # self-test of first()
    import random
    rng = random.Random(1)
    for _ in range(3000):
        m = rng.randint(1, 60); a = rng.randint(0, 80); lo = rng.randint(0, m - 1); hi = rng.randint(lo, m - 1)
        want = next((x for x in range(m + 1) if lo <= a * x % m <= hi), None)
        assert first(a, m, lo, hi) == want, (a, m, lo, hi, want, first(a, m, lo, hi))
    run('float', 23, 8)
    run('double', 52, 11)
