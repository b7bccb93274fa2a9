"""Sparse polynomials over Q in normal form.

A monomial is a packed integer (16 bits of exponent per variable); a polynomial
is {monomial: int} with one positive integer denominator.  Some variables carry
a rule  x**2 -> polynomial in earlier variables  (square roots, sin**2 ->
1-cos**2): every product is reduced by these rules, so that two polynomials with
equal normal forms are equal under the asserted relations.
"""
import math
from fractions import Fraction

BITS = 16
FIELD = (1 << BITS) - 1


class Ring:
    """variables of one symbolic run"""

    def __init__(self):
        self.names = []
        self.z = []  # z3 term of each variable
        self.v = []  # sample values
        self.rules = {}  # index -> P (square)
        self.modpoint = None
        self.mask = 0  # bits set where an exponent >= 2 must be reduced

    def new(self, name, z, v):
        i = len(self.names)
        self.names.append(name)
        self.z.append(z)
        self.v.append(v)
        return i

    def var(self, i):
        return P({1 << (BITS * i): 1}, 1)

    def rule(self, i, p):
        self.rules[i] = p
        self.mask |= (FIELD ^ 1) << (BITS * i)


RING = None


def set_ring(r):
    global RING
    RING = r


class P:
    __slots__ = ("d", "q", "_z", "_k", "_m")

    def __init__(self, d, q=1):
        self.d, self.q = d, q
        self._z = None
        self._k = None
        self._m = None

    def is_zero(self):
        return not self.d

    def is_const(self):
        return not self.d or (len(self.d) == 1 and 0 in self.d)

    def const(self):
        return Fraction(self.d.get(0, 0), self.q)

    def key(self):
        """hashable normal form"""
        if self._k is None:
            p = self.norm()
            self._k = (frozenset(p.d.items()), p.q)
        return self._k

    def norm(self):
        if not self.d:
            return P({}, 1) if self.q != 1 else self
        g = self.q
        if g != 1:
            for c in self.d.values():
                g = math.gcd(g, c)
                if g == 1:
                    break
        if g == 1:
            return self
        return P({m: c // g for m, c in self.d.items()}, self.q // g)

    def eq(self, o):
        if self is o:
            return True
        if len(self.d) != len(o.d):
            return False
        if self.q == o.q:
            return self.d == o.d
        for m, c in self.d.items():
            e = o.d.get(m)
            if e is None or c * o.q != e * self.q:
                return False
        return True

    def __add__(self, o):
        if not o.d:
            return self
        if not self.d:
            return o
        if self.q == o.q:
            q = self.q
            a, b = self.d, o.d
            ka = kb = 1
        else:
            g = math.gcd(self.q, o.q)
            ka, kb = o.q // g, self.q // g
            q = self.q * ka
            a, b = self.d, o.d
        r = dict(a) if ka == 1 else {m: c * ka for m, c in a.items()}
        for m, c in b.items():
            c = c * kb
            x = r.get(m)
            if x is None:
                r[m] = c
            else:
                x += c
                if x:
                    r[m] = x
                else:
                    del r[m]
        return P(r, q if r else 1)

    def __neg__(self):
        return P({m: -c for m, c in self.d.items()}, self.q)

    def __sub__(self, o):
        return self + (-o)

    def scale(self, f):
        if f == 0:
            return ZERO
        if f == 1:
            return self
        n, dn = f.numerator, f.denominator
        g = math.gcd(n, self.q)
        n, q = n // g, self.q // g
        return P({m: c * n for m, c in self.d.items()}, q * dn).norm()

    def __mul__(self, o):
        a, b = self.d, o.d
        if not a or not b:
            return ZERO
        if len(a) == 1 and 0 in a:
            return o.scale(Fraction(a[0], self.q))
        if len(b) == 1 and 0 in b:
            return self.scale(Fraction(b[0], o.q))
        if len(a) > len(b):
            a, b = b, a
        r = {}
        get = r.get
        bl = list(b.items())
        for m1, c1 in a.items():
            for m2, c2 in bl:
                m = m1 + m2
                r[m] = get(m, 0) + c1 * c2
        p = P({m: c for m, c in r.items() if c}, self.q * o.q)
        if RING is not None and RING.mask:
            p = reduce(p)
        return p.norm() if p.q != 1 else p

    def pow(self, n):
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def vars(self):
        s = 0
        for m in self.d:
            s |= m
        out = []
        i = 0
        while s:
            if s & FIELD:
                out.append(i)
            s >>= BITS
            i += 1
        return out

    def monic_content(self):
        """(monomial dividing every term, rational content with the sign of the
        leading term, primitive rest)"""
        ms = list(self.d)
        mm = ms[0]
        for m in ms[1:]:
            if mm == 0:
                break
            mm = mono_gcd(mm, m)
        g = 0
        for c in self.d.values():
            g = math.gcd(g, c)
            if g == 1:
                break
        lead = max(self.d)
        if self.d[lead] < 0:
            g = -g
        return mm, Fraction(g, self.q), P({m - mm: c // g for m, c in self.d.items()}, 1)

    def value(self, v):
        t = 0.0
        for m, c in self.d.items():
            x = 1.0
            i = 0
            while m:
                e = m & FIELD
                if e:
                    x = x * v[i] ** e
                m >>= BITS
                i += 1
            t += (c / self.q if abs(c) < 1 << 1000 else float(Fraction(c, self.q))) * x
        return t

    def __repr__(self):
        if not self.d:
            return "0"
        out = []
        for m, c in sorted(self.d.items()):
            s = str(Fraction(c, self.q))
            for i, e in mono_items(m):
                s += f"*{RING.names[i]}" + (f"^{e}" if e > 1 else "")
            out.append(s)
        return " + ".join(out[:12]) + ("..." if len(out) > 12 else "")


def mono_items(m):
    i = 0
    while m:
        e = m & FIELD
        if e:
            yield i, e
        m >>= BITS
        i += 1


def mono_gcd(a, b):
    r = 0
    s = 0
    while a and b:
        e = min(a & FIELD, b & FIELD)
        if e:
            r |= e << s
        a >>= BITS
        b >>= BITS
        s += BITS
    return r


def mono_div(a, b):
    """a/b or None"""
    # borrow detection field by field
    x, y = a, b
    while y:
        if (x & FIELD) < (y & FIELD):
            return None
        x >>= BITS
        y >>= BITS
    return a - b


def reduce(p):
    mask = RING.mask
    while True:
        bad = [m for m in p.d if m & mask]
        if not bad:
            return p
        good = {m: c for m, c in p.d.items() if not m & mask}
        acc = P(good, p.q)
        groups = {}
        for m in bad:
            # highest reducible variable first
            hit = m & mask
            i = (hit.bit_length() - 1) // BITS
            e = (m >> (BITS * i)) & FIELD
            k, odd = divmod(e, 2)
            rest = m - ((e - odd) << (BITS * i))
            groups.setdefault((i, k), {})[rest] = p.d[m]
        for (i, k), d in groups.items():
            acc = acc + _mulraw(P(d, p.q), RING.rules[i].pow(k))
        p = acc


def _mulraw(a, b):
    r = {}
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m = m1 + m2
            r[m] = r.get(m, 0) + c1 * c2
    return P({m: c for m, c in r.items() if c}, a.q * b.q).norm()


MOD = (1 << 61) - 1  # prime, 3 mod 4


class ModPoint:
    """a point over F_MOD that satisfies the rules: quotients are refused early
    when the images in one variable do not divide each other"""

    def __init__(self, ring):
        import random

        self.ring = ring
        self.rng = random.Random(12345)
        self.vals = []
        self.deps = []  # variables a variable depends on through its rule
        self.epoch = 0
        self.dead = False

    def extend(self):
        """values of the new variables; a rule may use later variables"""
        R = self.ring
        if len(self.vals) >= len(R.names) or self.dead:
            return
        tries = 0
        todo = list(range(len(self.vals), len(R.names)))
        self.vals += [None] * len(todo)
        self.deps += [None] * len(todo)
        while todo:
            rest = []
            again = False
            for i in todo:
                p = R.rules.get(i)
                if p is None:
                    self.vals[i] = self.rng.randrange(2, MOD - 2)
                    self.deps[i] = frozenset()
                    continue
                vs = p.vars()
                if any(self.vals[v] is None for v in vs):
                    rest.append(i)
                    continue
                x = self.value(p)
                r = pow(x, (MOD + 1) // 4, MOD)
                if r * r % MOD != x:
                    again = True
                    break
                self.vals[i] = r
                self.deps[i] = frozenset(vs).union(*[self.deps[v] for v in vs]) if vs else frozenset()
            if again:
                tries += 1
                self.epoch += 1
                self.vals = [None] * len(R.names)
                self.deps = [None] * len(R.names)
                todo = list(range(len(R.names)))
                if tries > 3000:
                    self.dead = True
                    return
                continue
            if len(rest) == len(todo):
                # rules in a circle
                self.dead = True
                return
            todo = rest

    def value(self, p):
        t = 0
        for m, c in p.d.items():
            x = c
            for i, e in mono_items(m):
                x = x * pow(self.vals[i], e, MOD) % MOD
            t += x
        return t * pow(p.q, -1, MOD) % MOD

    def image(self, p, i):
        """coefficients of p in the variable i, the others at the point"""
        if p._m is None:
            p._m = {}
        r = p._m.get(i)
        if r is not None and r[0] == self.epoch:
            return r[1]
        out = {}
        sh = BITS * i
        vals = self.vals
        for m, c in p.d.items():
            k = (m >> sh) & FIELD
            x = c
            j = 0
            mm = m - (k << sh)
            while mm:
                e = mm & FIELD
                if e:
                    x = x * (vals[j] if e == 1 else pow(vals[j], e, MOD)) % MOD
                mm >>= BITS
                j += 1
            out[k] = (out.get(k, 0) + x) % MOD
        r = [out.get(k, 0) for k in range(max(out) + 1)] if out else [0]
        while len(r) > 1 and not r[-1]:
            r.pop()
        p._m[i] = (self.epoch, r)
        return r

    def may_divide(self, p, a):
        self.extend()
        if self.dead:
            return True
        va = a.vars()
        both = set(va)
        both.update(p.vars())
        for i in reversed(va):
            if i in self.ring.rules or any(i in self.deps[v] for v in both):
                continue
            f, g = list(self.image(p, i)), self.image(a, i)
            n = len(g) - 1
            if n == 0:
                continue
            inv = pow(g[-1], -1, MOD)
            for k in range(len(f) - 1 - n, -1, -1):
                c = f[k + n] * inv % MOD
                if c:
                    for l in range(n + 1):
                        f[k + l] = (f[k + l] - c * g[l]) % MOD
            return not any(f[:n])
        return True


def divide(p, a, limit=20000):
    """exact quotient p/a, or None (lexicographic division modulo the rules; the
    quotient may be missed when a variable with a rule occurs, never wrong)"""
    import heapq

    if not p.d:
        return p
    if a.is_const():
        return p.scale(1 / a.const())
    la = max(a.d)
    lp = max(p.d)
    if mono_div(lp, la) is None:
        return None
    R = RING
    if R is not None and len(p.d) > 1:
        if R.modpoint is None:
            R.modpoint = ModPoint(R)
        if not R.modpoint.may_divide(p, a):
            return None
    mask = R.mask if R is not None else 0
    if mask:
        am = 0
        for m in a.d:
            am |= m
        rv = [i for i in R.rules if (am >> (BITS * i)) & FIELD]
        if rv:
            # multiply by the conjugate in the highest variable with a rule
            i = max(rv)
            cj = P({m: (-c if (m >> (BITS * i)) & 1 else c) for m, c in a.d.items()}, a.q)
            n = a * cj
            if not n.d:
                return None
            return divide(p * cj, n, limit)
    ga = 0
    for c in a.d.values():
        ga = math.gcd(ga, c)
    ca = a.d[la] // ga
    terms = [(m, c // ga) for m, c in a.d.items() if m != la]
    rem = dict(p.d)
    heap = [-m for m in rem]
    heapq.heapify(heap)
    q = {}
    n = 0
    while heap:
        m = -heapq.heappop(heap)
        c = rem.pop(m, 0)
        if not c:
            continue
        t = mono_div(m, la)
        if t is None:
            return None
        k, r = divmod(c, ca)
        if r:
            return None
        q[t] = q.get(t, 0) + k
        n += 1
        if n > limit:
            return None
        for x, y in [(t + x, k * y) for x, y in terms]:
            old = rem.get(x)
            if old is None:
                rem[x] = -y
                heapq.heappush(heap, -x)
            else:
                rem[x] = old - y
    q = {m: c for m, c in q.items() if c}
    return P(q, 1).scale(Fraction(a.q, p.q * ga))


_FACT = {}
MAXFACT = 60


def factors(p):
    """factors [(P, power)] of a primitive polynomial, product exactly p; not
    attempted on large ones"""
    if len(p.d) > MAXFACT or len(p.d) < 3:
        return [(p, 1)]
    vs = p.vars()
    if len(vs) > 6:
        return [(p, 1)]
    key = p.key()
    r = _FACT.get(key)
    if r is None:
        import sympy

        gens = sympy.symbols([f"x{i}" for i in vs])
        pos = {i: k for k, i in enumerate(vs)}
        d = {}
        for m, c in p.d.items():
            e = [0] * len(vs)
            for i, k in mono_items(m):
                e[pos[i]] = k
            d[tuple(e)] = c
        c, fl = sympy.Poly(d, *gens).factor_list()
        out = []
        for f, e in fl:
            dd = {}
            for mon, cc in f.terms():
                m = 0
                for i, k in zip(vs, mon):
                    m |= int(k) << (BITS * i)
                dd[m] = int(cc)
            f = P(dd, 1)
            if dd[max(dd)] < 0:
                f = -f
                c = -c if e % 2 else c
            out.append((f, int(e)))
        t = const(Fraction(int(c.p), int(c.q)))
        for f, e in out:
            for _ in range(e):
                t = _mulraw(t, f)
        r = _FACT[key] = out if t.eq(p) else [(p, 1)]
    return r


ZERO = P({}, 1)
ONE = P({0: 1}, 1)


def const(f):
    f = Fraction(f)
    return P({0: f.numerator}, f.denominator) if f else ZERO
