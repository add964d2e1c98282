"""C18: FiniteBifield is the field GF(2^k): all field laws, orders, logarithms, conjugates, minimal polynomials, for
every modulus, over all elements."""

import numpy as np

import komm

from . import c17, ref
from .core import short

P = komm.BinaryPolynomial


def t_field(ctx, k, modulus, triples):
    key0 = f"GF(2^{k})/{modulus if modulus is None else bin(modulus)}"
    ctx.bound("field", key0)
    ctx.at(key0)
    with ctx.guard(key0):
        K = komm.FiniteBifield(k) if modulus is None else komm.FiniteBifield(k, modulus)
        m = K.modulus.value
        q = 2**k
        ctx.ok(K.order == q and K.characteristic == 2 and K.degree == k, key0, "order, characteristic or degree")
        ctx.ok(modulus is None or m == modulus, key0, "modulus")
        E = [K(i) for i in range(q)]
        v = lambda e: e.value.value
        ctx.ok(v(K.zero) == 0 and v(K.one) == 1, key0, "zero and one")
        mul = [[ref.pmulmod(a, b, m) for b in range(q)] for a in range(q)]
        inv = {a: next(b for b in range(q) if mul[a][b] == 1) for a in range(1, q)}
        for a in range(q):
            A = E[a]
            key = f"{key0}/{a:#b}"
            for b in range(q):
                B = E[b]
                ctx.ok(v(A + B) == a ^ b == v(A - B), key, f"sum with {b:#b}")
                ctx.ok(v(A * B) == mul[a][b], key, f"product with {b:#b}: {A * B}, expected {mul[a][b]:#b}")
                ctx.ok((A == B) == (a == b), key, "equality")
                if b:
                    ctx.ok(v(A / B) == mul[a][inv[b]], key, f"quotient by {b:#b}: {A / B}")
                else:
                    ctx.raises(ZeroDivisionError, lambda: A / B, key, "division by zero")
                ctx.step(5)
            # unreduced representatives name the same element
            for c in (1, 2, 3):
                U = K(a ^ ref.pmul(c, m))
                ctx.ok(U == A and hash(U) == hash(A) and v(U * K.one) == v(U + K.zero) == a, key, f"element built from {a ^ ref.pmul(c, m):#b}")
            ctx.ok(v(-A) == a and v(2 * A) == 0 and v(3 * A) == a, key, "negation or multiples")
            if a:
                ctx.ok(v(A.inverse()) == inv[a], key, f"inverse {A.inverse()}")
            else:
                ctx.raises(ZeroDivisionError, A.inverse, key, "inverse of zero")
                ctx.raises(ZeroDivisionError, lambda: A ** (-1), key, "negative power of zero")
            w = 1
            for e in range(0, min(q, 40) + 3):
                ctx.ok(v(A**e) == w, key, f"power {e}: {A**e}")
                if a:
                    ctx.ok(v(A ** (-e)) == (inv[w] if w else 0), key, f"power {-e}: {A ** (-e)}")
                w = mul[w][a]
            ctx.ok(v(A**q) == a, key, "Frobenius: x^q is not x")
            # conjugates and minimal polynomial
            con, c = [], a
            while c not in con:
                con.append(c)
                c = mul[c][c]
            ctx.ok([v(x) for x in A.conjugates()] == con, key, f"conjugates {A.conjugates()}")
            want = min(p for p in range(2, 2 * q) if p.bit_length() - 1 == len(con) and evaluate(p, a, mul) == 0)
            ctx.ok(A.minimal_polynomial().value == want, key, f"minimal polynomial {A.minimal_polynomial()}, expected {want:#b}")
            ctx.ok(v(A.minimal_polynomial().evaluate(A)) == 0, key, "minimal polynomial does not vanish")
            # logarithms
            if q <= 64:
                for b in range(q) if q <= 32 else (2, 3, q - 1):
                    pw, w, e = {}, 1, 0
                    while w not in pw:
                        pw[w] = e
                        w = mul[w][b]
                        e += 1
                    if a in pw:
                        ctx.ok(A.logarithm(E[b]) == pw[a], key, f"logarithm to base {b:#b}: {A.logarithm(E[b])}, expected {pw[a]}")
                    else:
                        ctx.raises(ValueError, lambda: A.logarithm(E[b]), key, f"logarithm to base {b:#b} of an element that is no power")
                    ctx.step()
            for p in range(16):
                ctx.ok(v(P(p).evaluate(A)) == evaluate(p, a, mul), key, f"evaluate {p:#b}")
            ctx.state()
            ctx.trace()
            ctx.outcome((key0, a, want))
        if triples:
            for a in range(q):
                for b in range(q):
                    for c in range(q):
                        A, B, C = E[a], E[b], E[c]
                        ctx.ok((A * B) * C == A * (B * C) and A * (B + C) == A * B + A * C, f"{key0}/{a}/{b}/{c}", "field laws")
                        ctx.step()
    ctx.sample(key0)


def t_large(ctx, k, which, n):
    """Fields too large for all pairs: the powers of X, the elements of every subfield generator, all-ones, weight-two ones."""
    m = c17.field_table(k)
    if which == "reciprocal":
        m = int(bin(m)[:1:-1], 2)
    elif which == "order":  # an irreducible modulus of which X is not primitive, if there is one
        m = next((f for f in (c17.minimal(c17.pw(2, d, m), m) for d in range(3, 400, 2) if (2**k - 1) % d == 0) if f.bit_length() - 1 == k))
    key0 = f"GF(2^{k})/{'default' if which == 'default' else bin(m)}"
    ctx.bound("elements", f"{key0}: powers of X, subfield generators, patterns; all pairs of the first {n}")
    K = komm.FiniteBifield(k) if which == "default" else komm.FiniteBifield(k, m)
    m = K.modulus.value
    q = 2**k
    mul = lambda a, b: ref.pmulmod(a, b, m)
    root = c17.pw(2, 1, m)
    g = next(a for a in range(2, q) if all(c17.pw(a, (q - 1) // p, m) != 1 for p in set(c17.primes_of(q - 1))))
    pool = [0, 1, 2, 3, 5, q - 1, q - 2, q >> 1, (q >> 1) | 1, g]
    pool += [c17.pw(g, (q - 1) // (2**e - 1), m) for e in range(1, k + 1) if k % e == 0]
    pool += [c17.pw(2, e, m) for e in (k - 1, k, k + 1, 2 * k, q // 3, q - 2)] + [sum(1 << i for i in range(0, k, 2)), sum(1 << i for i in range(0, k, 3))]
    if ctx.thorough:
        pool += [c17.pw(2, e, m) for e in range(2, 60)] + [(1 << i) | (1 << j) for i in range(k) for j in range(i)]
    pool = list(dict.fromkeys(pool))
    v = lambda e: e.value.value
    for a in pool:
        A = K(a)
        key = f"{key0}/{a:#b}"
        ctx.at(key)
        with ctx.guard(key):
            inv = c17.pw(a, q - 2, m)
            if a:
                ctx.ok(v(A.inverse()) == inv and mul(inv, a) == 1, key, f"inverse {A.inverse()}")
            else:
                ctx.raises(ZeroDivisionError, A.inverse, key, "inverse of zero")
            for e in [0, 1, 2, 3, 7, 31, 32, 33, 255, 256, k, q // 2, q - 2, q - 1, q, q + 1, 3 * q + 5, 2**70 + 1]:
                ctx.ok(v(A**e) == c17.pw(a, e, m), key, f"power {e}")
                if a:
                    ctx.ok(v(A ** (-e)) == c17.pw(inv, e, m), key, f"power {-e}")
                ctx.step(2)
            con, c = [], a
            while c not in con:
                con.append(c)
                c = mul(c, c)
            ctx.ok([v(x) for x in A.conjugates()] == con, key, f"conjugates {A.conjugates()}")
            want = c17.minimal(a, m)
            ctx.ok(A.minimal_polynomial().value == want, key, f"minimal polynomial {A.minimal_polynomial()}, expected {want:#b}")
            ctx.ok(v(A.minimal_polynomial().evaluate(A)) == 0, key, "minimal polynomial does not vanish")
            for e in (0, 1, 2, 5, 63, 64, 65, 200, 1000):
                if k <= 11 or e <= 200:
                    w = c17.pw(g, e, m)
                    ctx.ok(K(w).logarithm(K(g)) == e % (q - 1), key, f"logarithm of the power {e} of {g:#b}")
            ctx.step(15)
            for b in pool[:n]:
                B = K(b)
                ctx.ok(v(A + B) == a ^ b == v(A - B) and v(A * B) == mul(a, b) and (A == B) == (a == b), key, f"with {b:#b}")
                if b:
                    ctx.ok(v(A / B) == mul(a, c17.pw(b, q - 2, m)), key, f"quotient by {b:#b}")
                ctx.step(4)
        ctx.state()
        ctx.trace()
        ctx.outcome((k, which, want))


def evaluate(p, a, mul):
    r = 0
    for i in range(p.bit_length() - 1, -1, -1):
        r = mul[r][a] ^ (p >> i & 1)
    return r


def t_admission(ctx, D):
    ctx.bound("moduli", f"every polynomial of degree up to {D} with every degree up to {D}")
    for d in range(1, D + 1):
        for m in range(1, 1 << (D + 1)):
            ok = m.bit_length() - 1 == d and ref.irreducible(m)
            key = f"modulus/{d}/{m:#b}"
            if ok:
                with ctx.guard(key):
                    ctx.ok(komm.FiniteBifield(d, m).modulus.value == m and komm.FiniteBifield(d, P(m)) == komm.FiniteBifield(d, m), key, "accepted modulus")
            else:
                ctx.raises(ValueError, lambda: komm.FiniteBifield(d, m), key, "modulus of wrong degree or reducible")
            ctx.step()
            ctx.state()
            ctx.outcome((d, ok))
    ctx.raises(ValueError, lambda: komm.FiniteBifield(0), "degree/0", "degree 0")
    # elements of different fields do not mix
    A, B = komm.FiniteBifield(3, 0b1011), komm.FiniteBifield(3, 0b1101)
    same = komm.FiniteBifield(3, 0b1011)
    ctx.ok(A == same and A != B and A(3) == same(3) and A(3) != B(3), "mixing", "equality of fields and elements")
    for name, op in (("+", lambda x, y: x + y), ("-", lambda x, y: x - y), ("*", lambda x, y: x * y), ("/", lambda x, y: x / y)):
        ctx.raises(ValueError, lambda: op(A(3), B(3)), f"mixing/{name}", "elements of different fields")
        ctx.ok(op(A(3), same(5)) == op(A(3), A(5)), f"mixing/{name}", "elements of equal fields")
        ctx.step(2)
    ctx.trace()
    ctx.sample("moduli")


def tasks(tier):
    T = tier == "thorough"
    out = [("admission", t_admission, dict(D=8 if T else 7))]
    for k in range(1, 9 + 2 * T):
        out.append((f"field/{k}/default", t_field, dict(k=k, modulus=None, triples=k <= 4 + T)))
    for k in range(1, 7 + 2 * T):
        for m in range(1 << k, 2 << k):
            if ref.irreducible(m):
                out.append((f"field/{k}/{m:#b}", t_field, dict(k=k, modulus=m, triples=k <= 3)))
    for k in range(9, 25):
        for which in ("default", "reciprocal", "order") if k not in (13, 17, 19) else ("default", "reciprocal"):
            out.append((f"large/{k}/{which}", t_large, dict(k=k, which=which, n=99 if T else 8)))
    return out
