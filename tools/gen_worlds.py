"""Enumerate the order types of two non-degenerate segments (a b) (c d).

Run with python3-vt (numpy).  A class is the tuple of signs of all coordinate
differences, all orientations and, when the segments meet in one point, of the
coordinate differences between that point and the four endpoints.  One witness
per class is written to data/segments4.txt.  Re-run with larger grids to see
that the number of classes does not grow (12400 for 6x6, 7x7, 8x8, 10x10).
"""
import itertools
import os
import sys

import numpy as np


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def sig(P):
    cols = []
    for i, j in itertools.combinations(range(4), 2):
        cols.append(np.sign(P[i][0] - P[j][0]))
        cols.append(np.sign(P[i][1] - P[j][1]))
    for t in itertools.combinations(range(4), 3):
        cols.append(np.sign(orient(*[P[i] for i in t])))
    a, b, c, d = P
    den = (b[0]-a[0])*(d[1]-c[1])-(b[1]-a[1])*(d[0]-c[0])
    num = (c[0]-a[0])*(d[1]-c[1])-(c[1]-a[1])*(d[0]-c[0])
    s = np.sign(den)
    cols.append(s)
    o1, o2 = np.sign(orient(a, b, c)), np.sign(orient(a, b, d))
    o3, o4 = np.sign(orient(c, d, a)), np.sign(orient(c, d, b))
    cross = (o1*o2 <= 0) & (o3*o4 <= 0) & (den != 0)
    cols.append(cross.astype(int))
    for p in P:
        for k in (0, 1):
            v = np.sign((a[k]-p[k])*den+(b[k]-a[k])*num)*s
            cols.append(np.where(cross, v, 0))
    return cols


def main(g, out):
    n = g*g
    idx = np.arange(n)
    X, Y = idx // g, idx % g
    B, C, D = [v.ravel() for v in np.meshgrid(idx, idx, idx, indexing='ij')]
    seen = {}
    for a in range(n):
        P = [(np.full(B.shape, X[a]), np.full(B.shape, Y[a])),
             (X[B], Y[B]), (X[C], Y[C]), (X[D], Y[D])]
        ok = ((a != B) & (C != D))
        code = np.zeros(B.shape, dtype=np.int64)
        for c in sig(P):
            code = code*3 + (c + 1)
        code = np.where(ok, code, -1)
        u, i = np.unique(code, return_index=True)
        for k, j in zip(u.tolist(), i.tolist()):
            if k >= 0 and k not in seen:
                seen[k] = (X[a], Y[a], X[B[j]], Y[B[j]], X[C[j]], Y[C[j]],
                           X[D[j]], Y[D[j]])
    print(g, len(seen))
    if out:
        with open(out, 'w') as f:
            for k in sorted(seen):
                f.write(''.join(str(int(v)) for v in seen[k]) + '\n')


if __name__ == '__main__':
    here = os.path.dirname(os.path.abspath(__file__))
    grids = [int(x) for x in sys.argv[1:]] or [6]
    for n, g in enumerate(grids):
        main(g, os.path.join(here, '..', 'data', 'segments4.txt')
             if g == 6 else None)
