"""C17: binary polynomials and their fractions obey the laws of GF(2)[X] and GF(2)(X)."""

import functools
import itertools

import numpy as np

import komm

from . import ref
from .core import short

P = komm.BinaryPolynomial
F = komm.BinaryPolynomialFraction

ASSUMPTIONS = ["lcm of zero polynomials only is not covered", "exponent lists without repetition"]


def carry_free(a, b):
    """Product from the definition: sum of shifted copies."""
    out = {}
    for i in range(a.bit_length()):
        for j in range(b.bit_length()):
            if a >> i & 1 and b >> j & 1:
                out[i + j] = out.get(i + j, 0) ^ 1
    return sum(1 << e for e, c in out.items() if c)


def t_pairs(ctx, N, part, parts):
    ctx.bound("pairs", f"all pairs of polynomials below 2^{N.bit_length() - 1}")
    for a in range(N):
        if a % parts != part:
            continue
        for b in range(N):
            key = f"poly/{a:#b}/{b:#b}"
            with ctx.guard(key):
                A, B = P(a), P(b)
                m = carry_free(a, b)
                ctx.ok((A + B).value == a ^ b == (A - B).value, key, "sum")
                ctx.ok((A * B).value == m, key, f"product {(A * B)}")
                ctx.ok((A == B) == (a == b) and (A != B) == (a != b) and (A == b) == (a == b), key, "equality")
                if a == b:
                    ctx.ok(hash(A) == hash(B), key, "hash")
                if b:
                    q, r = divmod(A, B)
                    ctx.ok(carry_free(q.value, b) ^ r.value == a and r.value.bit_length() < b.bit_length(), key, f"divmod = {q}, {r}")
                    ctx.ok((A // B) == q and (A % B) == r, key, "floor division and remainder")
                    ctx.ok(divmod(A * B, B) == (A, P(0)), key, "division of a product")
                else:
                    ctx.raises(ZeroDivisionError, lambda: divmod(A, B), key, "division by zero")
                g = ref.pgcd(a, b)
                ctx.ok(P.gcd(A, B).value == g, key, f"gcd = {P.gcd(A, B)}, expected {g:#b}")
                d, s, t = P.xgcd(A, B)
                ctx.ok(d.value == g and carry_free(s.value, a) ^ carry_free(t.value, b) == g, key, f"xgcd = {d}, {s}, {t}")
                if a or b:
                    ctx.ok(P.lcm(A, B).value == ref.plcm(a, b), key, f"lcm = {P.lcm(A, B)}")
                ctx.ok((A.value, B.value) == (a, b), key, "operands changed")
                ctx.step(10)
            ctx.state()
            ctx.trace()
        ctx.outcome(a)
    ctx.sample(key)


def t_single(ctx, N):
    ctx.bound("polynomials", f"all polynomials below {N}")
    irr = {a for a in range(N) if ref.irreducible(a)} if N <= 1 << 9 else None
    for a in range(N):
        key = f"poly/{a:#b}"
        ctx.at(key)
        with ctx.guard(key):
            A = P(a)
            deg = a.bit_length() - 1
            co = [(a >> i) & 1 for i in range(max(deg + 1, 1))]
            ctx.ok(A.degree == deg, key, "degree")
            ctx.eq(A.coefficients(), co, key, "coefficients")
            ctx.eq(A.exponents(), [i for i, c in enumerate(co) if c], key, "exponents")
            for w in (deg + 1, deg + 2, deg + 5):
                pad = [(a >> i) & 1 for i in range(w)]
                ctx.eq(A.coefficients(w), pad, key, f"coefficients(width={w})")
                ctx.ok(A.reciprocal(w).value == sum(c << i for i, c in enumerate(pad[::-1])), key, f"reciprocal(width={w})")
            ctx.ok(A.reciprocal().value == sum(c << i for i, c in enumerate(co[::-1])), key, "reciprocal")
            ctx.ok(P.from_coefficients(co) == A and P.from_coefficients(co + [0, 0]) == A, key, "from_coefficients")
            ctx.ok(P.from_exponents([i for i, c in enumerate(co) if c]) == A, key, "from_exponents")
            ctx.ok(P.from_exponents([i for i, c in enumerate(co) if c][::-1]) == A, key, "from_exponents, descending")
            ctx.ok(int(A) == a and str(A) == bin(a) and eval(repr(A), {"BinaryPolynomial": P}) == A, key, "conversions")
            for n in range(4):
                ctx.ok((A << n).value == a << n and (A >> n).value == a >> n, key, "shifts")
                ctx.ok((n * A).value == (a if n % 2 else 0), key, "integer multiples")
            pw = 1
            for e in range(7):
                ctx.ok((A**e).value == pw, key, f"power {e}")
                pw = carry_free(pw, a)
            ctx.ok((-A) == A, key, "negation")
            for x in range(8):
                v = 0
                for c in co[::-1]:
                    v = carry_free(v, x) ^ c
                ctx.ok(A.evaluate(P(x)).value == v, key, f"evaluate at {x:#b}")
                ctx.ok(A.evaluate(komm.Integer(x)).value == sum(x**i for i, c in enumerate(co) if c), key, f"evaluate at the integer {x}")
            isirr = ref.irreducible(a)
            ctx.ok(A.is_irreducible() == isirr, key, f"is_irreducible() = {not isirr}")
            prim = isirr and a != 2 and a.bit_length() > 1 and order_of_x(a) == 2**deg - 1
            ctx.ok(A.is_primitive() == prim, key, f"is_primitive() = {not prim}")
            ctx.step(40)
        ctx.state()
        ctx.trace()
        ctx.outcome((a, isirr))
    ctx.sample(key)


def order_of_x(m):
    """Multiplicative order of X modulo an irreducible m (X not 0 mod m), by stepping."""
    v, e = ref.pdivmod(2, m)[1], 1
    one = ref.pdivmod(1, m)[1]
    while v != one:
        v = ref.pdivmod(v << 1, m)[1]
        e += 1
    return e


def t_products(ctx, D):
    """is_irreducible of every product of two polynomials of degree up to D (never irreducible), and of products with
    repeated factors; is_primitive of every irreducible of degree up to D+3."""
    ctx.bound("products", f"all products of two polynomials of positive degree up to {D}")
    for a in range(2, 1 << (D + 1)):
        for b in range(a, 1 << (D + 1)):
            ctx.ok(not P(carry_free(a, b)).is_irreducible(), f"product/{a:#b}/{b:#b}", "a product is called irreducible")
            ctx.step()
        ctx.state()
        ctx.trace()
        ctx.outcome(a)
    from komm._algebra.BinaryPolynomial import default_primitive_polynomial

    for d in range(1, 17):
        m = default_primitive_polynomial(d).value
        ctx.ok(m.bit_length() - 1 == d and order_of_x(m) == 2**d - 1 and P(m).is_primitive(), f"default/{d}", "default primitive polynomial")
        ctx.state()
        ctx.trace()
    ctx.sample("products")


def primes_of(n):
    out, p = [], 2
    while p * p <= n:
        while n % p == 0:
            out.append(p)
            n //= p
        p += 1
    return out + [n] * (n > 1)


def field_table(d):
    """A modulus of degree d in which X is primitive, by the reference arithmetic alone."""
    q = 2**d - 1
    for m in range((1 << d) + 1, 2 << d, 2):
        if pw(2, q, m) == 1 and all(pw(2, q // p, m) != 1 for p in set(primes_of(q))):
            if d == 1 or all(pw(2, 2**e, m) != 2 for e in range(1, d)):
                return m


def pw(a, e, m):
    r, a = ref.pdivmod(1, m)[1], ref.pdivmod(a, m)[1]
    while e:
        if e & 1:
            r = ref.pmulmod(r, a, m)
        a = ref.pmulmod(a, a, m)
        e >>= 1
    return r


def minimal(g, m):
    """Minimal polynomial of an element (integer) of the field modulo m."""
    orbit, c = [], g
    while c not in orbit:
        orbit.append(c)
        c = ref.pmulmod(c, c, m)
    co = [1]
    for r in orbit:  # multiply by (X + r)
        co = [(co[i - 1] if i else 0) ^ (ref.pmulmod(co[i], r, m) if i < len(co) else 0) for i in range(len(co) + 1)]
    assert set(co) <= {0, 1}
    return sum(c << i for i, c in enumerate(co))


def t_orders(ctx, d, per):
    """One or more irreducible polynomials of degree d for every order their roots may have."""
    m, q = field_table(d), 2**d - 1
    ctx.bound("orders", f"every divisor of 2^{d}-1 of which {d} is the order of 2, {per} polynomials each")
    for n in [x for x in range(1, int(q**0.5) + 1) if q % x == 0] + [q // x for x in range(int(q**0.5), 0, -1) if q % x == 0 and x * x != q]:
        g, seen = pw(2, q // n, m), set()
        for j in range(1, 12 * per):
            if np.gcd(j, n) != 1 or len(seen) >= per:
                continue
            f = minimal(pw(g, j, m), m)
            if f.bit_length() - 1 != d or f in seen:
                continue
            seen.add(f)
            key = f"order/{d}/{n}/{f:#b}"
            with ctx.guard(key):
                ctx.ok(P(f).is_irreducible(), key, "an irreducible polynomial is called reducible")
                ctx.ok(P(f).is_primitive() == (n == q), key, f"is_primitive() = {n != q}, but its roots have order {n} of {q}")
                ctx.ok(P(f).reciprocal().is_primitive() == (n == q), key, "is_primitive() of the reciprocal")
                ctx.step(3)
            ctx.state()
            ctx.trace()
            ctx.outcome((d, n))


def partitions(n, top):
    if n == 0:
        yield ()
    for k in range(min(n, top), 0, -1):
        for r in partitions(n - k, k):
            yield (k, *r)


def t_factors(ctx, d, most):
    """is_irreducible of products with every shape of factorisation of degree d (distinct factors, and repeated ones)."""
    ctx.bound("products", f"every way to write {d} as a sum of at most {most} degrees")
    irr = {}
    for e in range(1, d):
        m = field_table(e)
        irr[e] = []
        for j in range(1, 2**e):
            f = minimal(pw(2, j, m), m)
            if f.bit_length() - 1 == e and f not in irr[e]:
                irr[e].append(f)
            if len(irr[e]) >= most:
                break
        if e == 1:
            irr[e] = [0b10, 0b11]
    for part in partitions(d, d - 1):
        if len(part) > most:
            continue
        for how in ("distinct", "repeated"):
            f, used = 1, {}
            for e in part:
                i = used[e] = used.get(e, -1) + 1
                f = ref.pmul(f, irr[e][i % len(irr[e]) if how == "distinct" else 0])
            key = f"factors/{part}/{how}"
            with ctx.guard(key):
                ctx.ok(not P(f).is_irreducible() and not P(f).is_primitive(), key, f"product {f:#b} is called irreducible or primitive")
            ctx.step(2)
            ctx.state()
            ctx.trace()
            ctx.outcome(part)


def t_long(ctx, degrees):
    """Polynomials beyond the sizes of machine words."""
    ctx.bound("degrees", degrees)
    pool = [0, 1, 2, 3]
    for n in degrees:
        pool += [1 << n, (1 << n) | 1, (2 << n) - 1, (1 << n) | (1 << (n // 2)) | 1, (1 << n) ^ (1 << (n - 1)), sum(1 << i for i in range(n % 2, n + 1, 2)), sum(1 << i for i in range(n % 3, n + 1, 3))]
    for a in pool:
        key = f"long/{a:#x}"
        with ctx.guard(key):
            A, deg = P(a), a.bit_length() - 1
            co = [(a >> i) & 1 for i in range(max(deg + 1, 1))]
            ctx.ok(A.degree == deg and int(A) == a and str(A) == bin(a) and hash(A) == hash(P(a)), key, "degree or conversions")
            ctx.ok(A.coefficients().tolist() == co, key, "coefficients")
            ctx.ok(A.exponents().tolist() == [i for i, c in enumerate(co) if c], key, "exponents")
            ctx.ok(A.reciprocal().value == sum(c << i for i, c in enumerate(co[::-1])), key, "reciprocal")
            ctx.ok(P.from_coefficients(co) == A and P.from_exponents([i for i, c in enumerate(co) if c]) == A, key, "from coefficients or exponents")
            for n in (1, 31, 32, 63, 64, 100):
                ctx.ok((A << n).value == a << n and (A >> n).value == a >> n, key, "shifts")
            ctx.ok((A**3).value == ref.pmul(a, ref.pmul(a, a)), key, "cube")
            ctx.ok(A.evaluate(P(1)).value == sum(co) % 2 and A.evaluate(P(2)).value == a, key, "evaluate")
            ctx.ok(F(a, 0b1011).numerator.value * 1 == norm(a, 0b1011)[0], key, "fraction")
            ctx.step(15)
        for b in pool:
            key = f"long/{a:#x}/{b:#x}"
            with ctx.guard(key):
                B = P(b)
                m = ref.pmul(a, b)
                ctx.ok((A + B).value == a ^ b and (A * B).value == m and (A == B) == (a == b), key, "sum, product or equality")
                if b:
                    q, r = divmod(A, B)
                    ctx.ok(ref.pmul(q.value, b) ^ r.value == a and r.value.bit_length() < b.bit_length(), key, f"divmod = {q}, {r}")
                g = ref.pgcd(a, b)
                d, s, t = P.xgcd(A, B)
                ctx.ok(P.gcd(A, B).value == g == d.value and ref.pmul(s.value, a) ^ ref.pmul(t.value, b) == g, key, "gcd or xgcd")
                if a and b:
                    ctx.ok(P.lcm(A, B).value == ref.plcm(a, b), key, "lcm")
                    X = F(a, b)
                    ctx.ok((X.numerator.value, X.denominator.value) == norm(a, b), key, "lowest terms")
                    Y = X * F(b, 0b111) + F(1, a)
                    ctx.ok((Y.numerator.value, Y.denominator.value) == norm(ref.pmul(a, a) ^ 0b111, ref.pmul(a, 0b111)), key, "arithmetic of fractions")
                ctx.step(6)
            ctx.state()
            ctx.trace()
        ctx.outcome(a)
    ctx.sample(key)


def t_laws(ctx, N):
    """Ring laws and n-ary gcd/lcm over all triples."""
    ctx.bound("triples", f"all triples of polynomials below {N}")
    for a, b, c in itertools.product(range(N), repeat=3):
        key = f"poly/{a:#b}/{b:#b}/{c:#b}"
        with ctx.guard(key):
            A, B, C = P(a), P(b), P(c)
            ctx.ok((A * B) * C == A * (B * C) and A * (B + C) == A * B + A * C and (A + B) + C == A + (B + C), key, "ring laws")
            ctx.ok(P.gcd(A, B, C).value == functools.reduce(ref.pgcd, (a, b, c)), key, "gcd of three")
            ctx.step(2)
            if a or b or c:
                got, want = P.lcm(A, B, C).value, functools.reduce(ref.plcm, (a, b, c))
                if got != want:
                    pg = ref.pdivmod(carry_free(carry_free(a, b), c), functools.reduce(ref.pgcd, (a, b, c)))[0]
                    ctx.fail("lcm-of-three/product-over-gcd" if got == pg else key, f"lcm of {a:#b}, {b:#b}, {c:#b} = {got:#b}, expected {want:#b}")
        ctx.state()
        ctx.trace()
    ctx.ok(P.gcd(P(6)).value == 6 and P.lcm(P(6)).value in (1, 6), "unary", "gcd of one")
    ctx.outcome(N)
    ctx.outcome("laws")
    ctx.sample(key)


def norm(n, d):
    g = ref.pgcd(n, d)
    return ref.pdivmod(n, g)[0], ref.pdivmod(d, g)[0]


def t_fractions(ctx, N, part, parts):
    ctx.bound("fractions", f"all pairs of fractions with numerators and denominators below {N}")
    fr = [(n, d) for n in range(N) for d in range(1, N)]
    for i, (n1, d1) in enumerate(fr):
        if i % parts != part:
            continue
        key0 = f"fraction/{n1:#b}/{d1:#b}"
        with ctx.guard(key0):
            X = F(n1, d1)
            val = lambda f: (f.numerator.value, f.denominator.value)
            ctx.ok(val(X) == norm(n1, d1), key0, f"not in lowest terms: {X}")
            ctx.ok(val(-X) == val(X) and val(X.ambient.zero) == (0, 1) and val(X.ambient.one) == (1, 1), key0, "negation or constants")
            for e in range(-3, 5):
                n, d = norm(n1, d1)
                if e < 0 and n == 0:
                    ctx.raises(ZeroDivisionError, lambda: X**e, key0, "negative power of zero")
                    continue
                if e < 0:
                    n, d = d, n
                ctx.ok(val(X**e) == (ref.ppow(n, abs(e)), ref.ppow(d, abs(e))), key0, f"power {e} = {X**e}")
            for k in range(3):
                ctx.ok(val(k * X) == (norm(n1, d1) if k % 2 else (0, 1)), key0, "integer multiple")
            if n1:
                ctx.ok(val(X.inverse()) == norm(d1, n1), key0, "inverse")
            else:
                ctx.raises(ZeroDivisionError, X.inverse, key0, "inverse of zero")
            ctx.step(15)
        for n2, d2 in fr:
            key = f"{key0}/{n2:#b}/{d2:#b}"
            with ctx.guard(key):
                Y = F(n2, d2)
                s = norm(carry_free(n1, d2) ^ carry_free(n2, d1), carry_free(d1, d2))
                ctx.ok(val(X + Y) == s == val(X - Y), key, f"sum {X + Y}")
                ctx.ok(val(X * Y) == norm(carry_free(n1, n2), carry_free(d1, d2)), key, f"product {X * Y}")
                ctx.ok((X == Y) == (norm(n1, d1) == norm(n2, d2)), key, "equality")
                if n2:
                    ctx.ok(val(X / Y) == norm(carry_free(n1, d2), carry_free(d1, n2)), key, f"quotient {X / Y}")
                else:
                    ctx.raises(ZeroDivisionError, lambda: X / Y, key, "division by zero")
                ctx.step(5)
            ctx.state()
            ctx.trace()
        ctx.outcome((n1, d1))
    ctx.raises(ZeroDivisionError, lambda: F(1, 0), "fraction/1/0", "zero denominator")
    ctx.ok(F(5).denominator.value == 1 and F(5).numerator.value == 5, "fraction/5", "default denominator")
    ctx.sample(key)


def t_integers(ctx, N):
    from komm._algebra import domain, ring

    ctx.bound("integers", f"all pairs in [-{N}, {N}]; all 2x2 and sampled 3x3 determinants over small rings")
    import math

    I = komm.Integer
    for a in range(-N, N + 1):
        for b in range(-N, N + 1):
            key = f"integer/{a}/{b}"
            with ctx.guard(key):
                A, B = I(a), I(b)
                ctx.ok((A + B).value == a + b and (A - B).value == a - b and (A * B).value == a * b and (-A).value == -a and (a * B).value == a * b and (A == B) == (a == b), key, "arithmetic")
                if b:
                    ctx.ok(tuple(x.value for x in divmod(A, B)) == divmod(a, b) and (A // B).value == a // b and (A % B).value == a % b, key, "division")
                if a >= 0 and b >= 0:
                    ctx.ok(domain.gcd(A, B).value == math.gcd(a, b) and domain.lcm(A, B).value == math.lcm(a, b), key, "gcd or lcm")
                    d, s, t = domain.xgcd(A, B)
                    ctx.ok(d.value == math.gcd(a, b) == s.value * a + t.value * b, key, "xgcd")
                for e in range(4):
                    ctx.ok(ring.power(A, e).value == a**e, key, "power")
                ctx.step(8)
            ctx.state()
            ctx.trace()
        ctx.outcome(a)
    for m in itertools.product(range(-1, 2), repeat=9):
        M = np.array(m).reshape(3, 3)
        ctx.ok(ring.determinant([[I(int(x)) for x in r] for r in M]).value == round(np.linalg.det(M)), f"det/{m}", "determinant")
        ctx.step()
    ctx.sample(key)


def tasks(tier):
    T = tier == "thorough"
    out = []
    for p in range(8):
        out.append((f"pairs/{p}", t_pairs, dict(N=2048 if T else 512, part=p, parts=8)))
        out.append((f"fractions/{p}", t_fractions, dict(N=40 if T else 20, part=p, parts=8)))
    out.append(("single", t_single, dict(N=1 << (13 if T else 11))))
    out.append(("products", t_products, dict(D=7 if T else 6)))
    for d in range(2, 41 if T else 27):
        out.append((f"orders/{d}", t_orders, dict(d=d, per=6 if T else 3)))
        if d <= (30 if T else 24):
            out.append((f"factors/{d}", t_factors, dict(d=d, most=12 if T else 6)))
    out.append(("long", t_long, dict(degrees=[7, 8, 15, 16, 30, 31, 32, 62, 63, 64, 65, 127, 128, 200] if T else [8, 16, 31, 32, 63, 64, 65, 128])))
    for n in (300, 1100, 4097 if T else 2049):
        out.append((f"long/{n}", t_long, dict(degrees=[n])))
    out.append(("laws", t_laws, dict(N=48 if T else 32)))
    out.append(("integers", t_integers, dict(N=40 if T else 20)))
    return out
