"""C20: every labeling is a bijection between indices and bit blocks, agrees with its definition, and its soft
marginals are the log-ratios of the sums they stand for."""

import itertools
import math

import numpy as np

import komm

from . import ref, trellis
from .core import short

ASSUMPTIONS = ["metrics of marginalize() are non-negative and not all zero within a block"]


def msb(i, m):
    return tuple((i >> (m - 1 - j)) & 1 for j in range(m))


def gray(m):
    """Reflect and prefix."""
    rows = [()]
    for _ in range(m):
        rows = [(0,) + r for r in rows] + [(1,) + r for r in reversed(rows)]
    return rows


def lvalues(rows, metrics):
    m = len(rows[0])
    out = []
    for j in range(m):
        s = [math.fsum(x for r, x in zip(rows, metrics) if r[j] == b) for b in (0, 1)]
        out.append(math.inf if s[1] == 0 else -math.inf if s[0] == 0 else math.log(s[0]) - math.log(s[1]))
    return out


def judge(ctx, key, lab, rows, blocks, grid, full=True):
    """rows: the labels in index order."""
    M, m = len(rows), len(rows[0])
    ctx.state()
    R = np.array(rows)
    ctx.eq(lab.matrix, R, key, "matrix")
    ctx.eq((lab.num_bits, lab.cardinality), (m, M), key, "num_bits, cardinality")
    ctx.ok(lab.inverse_mapping == {r: i for i, r in enumerate(rows)}, key, "inverse_mapping")
    for n in range(1, blocks + 1):
        seqs = np.array(list(itertools.product(range(M), repeat=n)))
        bits = R[seqs].reshape(len(seqs), n * m)
        ctx.trace(len(seqs))
        ctx.eq(lab.indices_to_bits(seqs), bits, key, f"indices_to_bits of all sequences of length {n}")
        ctx.eq(lab.bits_to_indices(bits), seqs, key, f"bits_to_indices of all sequences of length {n}")
    allx = np.arange(M)
    allb = R.reshape(-1)
    for shape in ((M,), (1, M), (2, M // 2), (M // 2, 1, 2), (1, 2, M // 2), (M, 1)):
        x, b = allx.reshape(shape), allb.reshape(*shape[:-1], -1)
        ctx.eq(lab.indices_to_bits(x), b, key, f"indices_to_bits, shape {shape}")
        ctx.eq(lab.bits_to_indices(b), x, key, f"bits_to_indices, shape {shape}")
        ctx.eq(lab.indices_to_bits(x.tolist()), b, key, f"indices_to_bits, nested lists, shape {shape}")
        ctx.step(3)
    one = [lab.indices_to_bits([i]) for i in range(M)]
    ctx.eq(np.array(one), R, key, "indices_to_bits one at a time")
    if grid:
        mets = [t for t in itertools.product(grid, repeat=M) if any(t)] if len(grid) ** M <= 5000 else [
            tuple(grid[(a * i + b + (i == c)) % len(grid)] + (i == c) for i in range(M))
            for a in range(len(grid)) for b in range(len(grid)) for c in range(M)
        ]
        A = np.array(mets, dtype=float)
        want = np.array([lvalues(rows, t) for t in mets])
        with ctx.guard(key, "marginalize"):
            ctx.close(lab.marginalize(A), want, key, "marginalize, a block per row")
            k = len(mets) // 2 * 2
            ctx.close(lab.marginalize(A[:k].reshape(2, -1)), want[:k].reshape(2, -1), key, "marginalize, blocks in a row")
            ctx.close(lab.marginalize(A[0]), want[0], key, "marginalize, one block")
        ctx.step(len(mets))
    # rejections
    for bad in ([M], [-1], [0, M], [[0], [-M]]):
        ctx.raises(ValueError, lambda: lab.indices_to_bits(bad), key, f"indices_to_bits({bad})")
    for v in (2, -1, 3):
        ctx.raises(ValueError, lambda: lab.bits_to_indices([0] * (m - 1) + [v]), key, f"bits_to_indices with symbol {v}")
    if m > 1:
        for n in (1, m - 1, m + 1, 2 * m - 1):
            if n % m:
                ctx.raises(ValueError, lambda: lab.bits_to_indices([0] * n), key, f"bits_to_indices of {n} bits")
                ctx.raises(ValueError, lambda: lab.bits_to_indices([[0] * n] * m), key, f"bits_to_indices of {m} rows of {n} bits")
    if M > 1 and full:
        ctx.raises(ValueError, lambda: lab.marginalize([1.0] * (M + 1)), key, "marginalize of a partial block")


GRID = (0.0, 1.0, 0.25, 3.0)


def t_matrices(ctx, m, part=0, parts=1):
    ctx.bound("matrices", f"m={m}: " + ("all 0/1 matrices of the shape" if m < 3 else "all permutations of the labels"))
    labels = [msb(i, m) for i in range(2**m)]
    if m < 3:
        for rows in itertools.product(labels, repeat=2**m):
            key = f"labeling/{short(rows)}"
            ctx.at(key)
            if len(set(rows)) < len(rows):
                ctx.raises(ValueError, lambda: komm.Labeling(rows), key, "repeated rows")
                ctx.state()
            else:
                with ctx.guard(key):
                    judge(ctx, key, komm.Labeling(rows), rows, 3, GRID)
    else:
        for no, rows in enumerate(itertools.permutations(labels)):
            if no % parts != part:
                continue
            key = f"labeling/{short(rows)}"
            ctx.at(key)
            with ctx.guard(key):
                judge(ctx, key, komm.Labeling(rows), rows, 1, (0.0, 1.0) if no % 64 == part else ())


def t_shapes(ctx):
    ctx.bound("matrices", "all shapes up to 9x4 with distinct-row fillings where possible; one foreign entry at every position")
    for r in range(1, 10):
        for c in range(1, 5):
            rows = [msb(i % 2**c, c) for i in range(r)]
            key = f"shape/{r}x{c}"
            ctx.state()
            ctx.trace()
            if r == 2**c:
                with ctx.guard(key):
                    judge(ctx, key, komm.Labeling(rows), rows, 1, ())
                for i in range(r):
                    for j in range(c):
                        for v in (2, -1, 0.5, 3, 1e-9):
                            R = np.array(rows, dtype=float)
                            R[i, j] = v
                            ctx.raises(ValueError, lambda: komm.Labeling(R), f"{key}/{i}/{j}/{v}", f"entry {v}")
            else:
                ctx.raises(ValueError, lambda: komm.Labeling(rows), key, "shape")
    for bad in ([0, 1], [[[0], [1]]], 3):
        ctx.raises(ValueError, lambda: komm.Labeling(bad), f"dim/{bad}", "not a 2D array")


def t_natural_reflected(ctx, top):
    ctx.bound("widths", f"all widths up to {top}; widths up to 40 without the matrix at all neighbours of powers of two")
    for m in range(1, top + 1):
        for cls, rows in ((komm.NaturalLabeling, [msb(i, m) for i in range(2**m)]), (komm.ReflectedLabeling, gray(m))):
            for pre in (True, False):
                key = f"{cls.__name__}/{m}/{pre}"
                ctx.at(key)
                with ctx.guard(key):
                    judge(ctx, key, cls(m, pre), rows, 2 if m < 5 else 1, GRID if m < 5 else ())
    for m in range(top + 1, 41):
        for cls in (komm.NaturalLabeling, komm.ReflectedLabeling):
            key = f"{cls.__name__}/{m}/False"
            with ctx.guard(key):
                lab = cls(m, False)
                ctx.eq((lab.num_bits, lab.cardinality), (m, 2**m), key, "num_bits, cardinality")
                xs = sorted({max(0, min(2**m - 1, 2**e + d)) for e in range(m + 1) for d in (-1, 0, 1)})
                rows = [msb(x ^ (x >> 1) if cls is komm.ReflectedLabeling else x, m) for x in xs]
                ctx.eq(lab.indices_to_bits(xs), np.array(rows).reshape(-1), key, "indices_to_bits")
                ctx.eq(lab.bits_to_indices(rows), np.array(xs).reshape(-1, 1), key, "bits_to_indices")
                ctx.state()
                ctx.trace(len(xs))
    for bad in (0, -1):
        for cls in (komm.NaturalLabeling, komm.ReflectedLabeling):
            ctx.raises(ValueError, lambda: cls(bad), f"{cls.__name__}/{bad}", "width")


def t_rectangular(ctx, top):
    ctx.bound("widths", f"all pairs of widths up to {top}, all single widths up to {2 * top}")
    for mi in range(1, top + 1):
        for mq in range(1, top + 1):
            args = [(mi, mq)] + ([2 * mi] if mi == mq else [])
            rows = [a + b for a in gray(mi) for b in gray(mq)]
            for arg in args:
                key = f"rectangular/{arg}"
                with ctx.guard(key):
                    lab = komm.ReflectedRectangularLabeling(arg)
                    judge(ctx, key, lab, rows, 1, GRID if mi + mq < 5 else ())
                    G = lab.matrix.reshape(2**mi, 2**mq, mi + mq)
                    for ax in (0, 1):
                        d = np.abs(np.diff(G, axis=ax)).sum(axis=-1)
                        ctx.ok(bool(np.all(d == 1)), key, f"horizontal/vertical neighbours differ in {d} bits")
    for bad in (0, -2, 1, 3, 5, (0, 1), (1, 0), (-1, 2)):
        ctx.raises(ValueError, lambda: komm.ReflectedRectangularLabeling(bad), f"rectangular/{bad}", "width")


def t_product(ctx, depth):
    ctx.bound("products", f"all products of up to {depth} factors from 6 small labelings, repeated up to 3 times, up to 8 bits; nested products")
    base = [
        ("N1", komm.NaturalLabeling(1), [msb(i, 1) for i in range(2)]),
        ("R2", komm.ReflectedLabeling(2), gray(2)),
        ("N2", komm.NaturalLabeling(2), [msb(i, 2) for i in range(4)]),
        ("L1", komm.Labeling([[1], [0]]), [(1,), (0,)]),
        ("L2", komm.Labeling([[1, 1], [0, 1], [1, 0], [0, 0]]), [(1, 1), (0, 1), (1, 0), (0, 0)]),
        ("Q2", komm.ReflectedRectangularLabeling(2), [a + b for a in gray(1) for b in gray(1)]),
    ]
    for n in range(1, depth + 1):
        for combo in itertools.product(base, repeat=n):
            for rep in (1, 2, 3):
                facs = combo * rep
                if sum(len(f[2][0]) for f in facs) > (6 if n < 3 else 5):
                    continue
                rows = [sum(t, ()) for t in itertools.product(*(f[2] for f in facs))]
                key = f"product/{'x'.join(f[0] for f in combo)}/{rep}"
                ctx.at(key)
                with ctx.guard(key):
                    judge(ctx, key, komm.ProductLabeling(*(f[1] for f in combo), repeat=rep), rows, 1, (0.0, 1.0))
                    if n < 3:
                        mats = [np.array(f[2]) for f in combo]
                        lab = komm.ProductLabeling.from_matrices(*mats, repeat=rep)
                        ctx.eq(lab.matrix, np.array(rows), key, "from_matrices")
                        nested = komm.ProductLabeling(komm.ProductLabeling(*(f[1] for f in combo)), repeat=rep)
                        ctx.eq(nested.matrix, np.array(rows), key, "nested product")
    ctx.raises(ValueError, lambda: komm.ProductLabeling(), "product/none", "no labeling")
    ctx.raises(ValueError, lambda: komm.ProductLabeling(komm.NaturalLabeling(1), repeat=0), "product/0", "repeat=0")


def t_large(ctx, m, kinds):
    """Wide labelings: irregular bijections, products and the regular families, marginals over several dynamic ranges."""
    ctx.bound("width", m)
    M = 2**m
    order = np.argsort(trellis.pattern(M, m, 1, 2**20), kind="stable").tolist()
    labels = [msb(i, m) for i in range(M)]
    a, b = m // 2, m - m // 2
    perm = lambda w, s: [msb(i, w) for i in np.argsort(trellis.pattern(2**w, s, 1, 2**20), kind="stable").tolist()]
    pa, pb = perm(a, 1), perm(b, 2)
    allc = {
        "irregular": lambda: (komm.Labeling([labels[i] for i in order]), [labels[i] for i in order]),
        "natural": lambda: (komm.NaturalLabeling(m), labels),
        "reflected": lambda: (komm.ReflectedLabeling(m), gray(m)),
        "rectangular": lambda: (komm.ReflectedRectangularLabeling((a, b)), [x + y for x in gray(a) for y in gray(b)]),
        "product": lambda: (komm.ProductLabeling(komm.Labeling(pa), komm.Labeling(pb)), [x + y for x in pa for y in pb]),
        "power": lambda: (komm.ProductLabeling(komm.NaturalLabeling(1), repeat=m), labels),
    }
    for kind in kinds:
        key = f"large/{kind}/{m}"
        ctx.at(key)
        with ctx.guard(key):
            lab, rows = allc[kind]()
            R = np.array(rows)
            ctx.eq(np.array(lab.matrix), R, key, "matrix")
            ctx.eq((lab.num_bits, lab.cardinality), (m, M), key, "num_bits, cardinality")
            x = np.arange(M)
            for seq in (x, x[::-1], trellis.pattern(3 * M, 5, 2, M)):
                ctx.eq(np.array(lab.indices_to_bits(seq)), R[seq].ravel(), key, "indices_to_bits")
                if M <= 256 or (kind != "irregular" and (M <= 2048 or len(seq) == M)):
                    ctx.eq(np.array(lab.bits_to_indices(R[seq].ravel())), seq, key, "bits_to_indices")
                ctx.trace(len(seq))
            few = np.concatenate([trellis.pattern(9, 8, 2, M), [M - 1, M // 2, 0]])
            ctx.eq(np.array(lab.bits_to_indices(R[few].ravel())), few, key, "bits_to_indices of twelve blocks")
            two = few[:8].reshape(2, 4)
            ctx.eq(np.array(lab.bits_to_indices(R[two].reshape(2, -1))), two, key, "bits_to_indices of two rows")
            Z = trellis.pattern(M, 4, 3, 1000)
            mets = [1.0 + Z, np.exp(-Z / 4.0), np.where(Z % 3 == 0, 0.0, 1.0 + Z), np.exp(-((x - M / 3.0) ** 2) / 2.0) + 1e-280, (x == M // 3) * 1.0, np.where(x % 2 == 0, 1e-200, 1e200)]
            want = np.array([lvalues(rows, w) for w in mets])
            ctx.close(np.array(lab.marginalize(np.array(mets))), want, key, "marginalize, a block per row")
            ctx.close(np.array(lab.marginalize(np.concatenate(mets))), want.ravel(), key, "marginalize, blocks in a row")
            ctx.step(len(mets))
            ctx.state()
            ctx.outcome((kind, m, short(order, 60)))
            for bad in (M, -1, 2 * M):
                ctx.raises(ValueError, lambda: lab.indices_to_bits([0, bad]), key, f"indices_to_bits of {bad}")
            ctx.raises(ValueError, lambda: lab.bits_to_indices([0] * (2 * m - 1)), key, "bits_to_indices of a partial block")
            ctx.raises(ValueError, lambda: lab.marginalize([1.0] * (M - 1)), key, "marginalize of a partial block")


def tasks(tier):
    th = tier == "thorough"
    out = [(f"matrices/m={m}", t_matrices, dict(m=m)) for m in (1, 2)]
    parts = 8
    for p in range(parts):
        out.append((f"matrices/m=3/{p}", t_matrices, dict(m=3, part=p, parts=parts)))
    for m in range(4, 13 if th else 11):
        out.append((f"large/{m}", t_large, dict(m=m, kinds=("irregular", "natural", "reflected", "rectangular", "product", "power"))))
    for m in (13, 16) + ((17, 18) if th else ()):
        for kind in ("irregular", "natural", "reflected", "rectangular", "product", "power"):
            out.append((f"wide/{m}/{kind}", t_large, dict(m=m, kinds=(kind,))))
    out.append(("shapes", t_shapes, {}))
    out.append(("natural-reflected", t_natural_reflected, dict(top=12 if th else 10)))
    out.append(("rectangular", t_rectangular, dict(top=5 if th else 4)))
    out.append(("product", t_product, dict(depth=4 if th else 3)))
    return out
