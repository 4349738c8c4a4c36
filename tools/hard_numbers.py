#!/usr/bin/env python3
"""Writes harness/hard_numbers.h: numbers whose conversion between decimal and binary is decided by the last bits of an exact computation.

* decimal to binary: m * 10^e that is as close as any m of so many digits gets to the middle between two neighbouring floating-point numbers;
* binary to decimal: numbers of which a half-way point to a neighbour (or which themselves) are as close as any to a multiple of a power of ten.

An error in the last bits of a table of powers, or an intermediate result that is a little too short, shows here and hardly anywhere else."""
from fractions import Fraction
import os


def first(a, b, lo, hi):
    """The least n >= 0 with lo <= a*n mod b <= hi, or None (0 <= lo <= hi < b)."""
    if lo == 0:
        return 0
    a %= b
    if a == 0:
        return None
    if 2 * a > b:
        return first(b - a, b, b - hi, b - lo)
    n = -(-lo // a)
    if a * n <= hi:
        return n
    # a*n - b*k in [lo, hi]  =>  b*k mod a in [-hi, -lo] mod a
    k = first(b % a, a, (-hi) % a, (-lo) % a)
    if k is None:
        return None
    return -(-(lo + b * k) // a)


def first_from(a, b, n0, lo, hi):
    """The least n >= n0 with (a*n mod b) in [lo, hi]."""
    c = a * n0 % b
    lo, hi = (lo - c) % b, (hi - c) % b
    if lo > hi:
        return n0
    n = first(a, b, lo, hi)
    return None if n is None else n0 + n


def closest(a, b, n0, n1, target, side):
    """The n in [n0, n1) with a*n mod b closest to target on this side of it (not on it)."""
    def hit(eps):
        lo, hi = (target + 1, target + eps) if side > 0 else (target - eps, target - 1)
        n = first_from(a, b, n0, lo % b, hi % b)
        return n if n is not None and n < n1 else None
    if b <= 4:
        return None
    lo, hi = 0, b // 4
    best = hit(hi)
    if best is None:
        return None
    while hi - lo > 1 and hi > lo + lo // 16:
        mid = (lo + hi) // 2 if lo else max(1, int(hi) >> max(1, hi.bit_length() // 2)) if hi > 4 else (lo + hi) // 2
        n = hit(mid)
        if n is None:
            lo = mid
        else:
            best, hi = n, mid
    return best


def decimals(digits, bits, emin, emax, lowest):
    """(m, e) with m of at most so many digits, for a format of so many bits whose subnormals are multiples of 2^lowest."""
    out = set()
    top = 10 ** digits
    for e in range(emin, emax + 1):
        x = Fraction(10) ** e
        # the binades that m * x crosses for the largest m
        y = top * x
        k = y.numerator.bit_length() - y.denominator.bit_length() + 1
        seen = 0
        while seen < 5:
            # values in [2^(k-1), 2^k): unit in the last place 2^q
            q = max(k - bits, lowest)
            n0 = -(-(Fraction(2) ** (k - 1)) // x)
            n1 = -(-(Fraction(2) ** k) // x)
            n0, n1 = max(1, n0), min(n1, top)
            k -= 1
            if n1 <= 1 or q < lowest:
                break
            if n0 >= n1:
                if seen:
                    break
                continue
            seen += 1
            r = x / Fraction(2) ** q
            a, b = r.numerator, r.denominator
            if b % 2:
                a, b = 2 * a, 2 * b
            for side in (1, -1):
                n = closest(a % b, b, n0, n1, b // 2, side)
                if n:
                    out.add((int(n), e))
            n = first_from(a % b, b, n0, b // 2, b // 2)
            if n is not None and n < n1:
                out.add((int(n), e))
            if k < lowest:
                break
    return sorted(out, key=lambda t: (t[1], t[0]))


def binaries(bits, lowest, highest):
    """(m, e2): values m * 2^e2, m of so many bits, whose neighbourhood is closest to a multiple of a power of ten."""
    out = set()
    for e2 in range(lowest, highest + 1):
        # halves: n * 2^(e2-1), n = 2m - 1, 2m, 2m + 1
        n0, n1 = 2 ** bits - 1, 2 ** (bits + 1) + 2
        if e2 == lowest:
            n0 = 1
        unit = Fraction(2) ** (e2 - 1)
        x = (2 ** bits) * unit
        p = len(str(x.numerator)) - len(str(x.denominator))
        for q in range(p - (bits * 30103 // 100000) - 1, p - (bits * 30103 // 100000) + 2):
            r = unit / Fraction(10) ** q
            a, b = r.numerator, r.denominator
            if b == 1:
                continue
            for side in (1, -1):
                n = closest(a % b, b, n0, n1, 0, side)
                if n:
                    for m in ((n // 2,) if n % 2 == 0 else (n // 2, n // 2 + 1)):
                        if 0 < m < 2 ** bits and (e2 == lowest or m >= 2 ** (bits - 1)):
                            out.add((int(m), e2))
    return sorted(out, key=lambda t: (t[1], t[0]))


def bits64(m, e):
    return (m if m < 1 << 52 else ((e + 1075) << 52 | (m - (1 << 52))))


def bits32(m, e):
    return (m if m < 1 << 23 else ((e + 150) << 23 | (m - (1 << 23))))


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'harness', 'hard_numbers.h'), 'w') as f:
        f.write('// Written by tools/hard_numbers.py: conversions that the last bits of an exact computation decide.\n#ifndef VERIF_HARD_NUMBERS_H_\n#define VERIF_HARD_NUMBERS_H_\n#include <cstdint>\nnamespace hard {\n')
        f.write('struct Decimal {\n  uint64_t m;\n  int e;\n};\n')
        for name, t in (('D17', decimals(17, 53, -342, 308, -1074)), ('D19', decimals(19, 53, -344, 308, -1074)), ('F9', decimals(9, 24, -56, 38, -149)), ('F19', decimals(19, 24, -66, 38, -149))):
            f.write('static const Decimal %s[] = {\n' % name)
            for i in range(0, len(t), 8):
                f.write(' '.join('{%dull,%d},' % x for x in t[i:i + 8]) + '\n')
            f.write('};\n')
            print(name, len(t))
        for name, ty, t in (('DOUBLES', 'uint64_t', [bits64(m, e) for m, e in binaries(53, -1074, 971)]), ('FLOATS', 'uint32_t', [bits32(m, e) for m, e in binaries(24, -149, 104)])):
            t = sorted(set(t))
            f.write('static const %s %s[] = {\n' % (ty, name))
            for i in range(0, len(t), 8):
                f.write(' '.join('%#xull,' % x for x in t[i:i + 8]) + '\n')
            f.write('};\n')
            print(name, len(t))
        f.write('}  // namespace hard\n#endif\n')


main()
