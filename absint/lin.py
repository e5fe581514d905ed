"""Numeric domain: linear integer expressions over interned atoms, and conjunctions of linear
inequalities with an entailment test (Fourier-Motzkin projection on the relevant slice)."""
from math import gcd

ATOMS = []
AKEY = {}


class Atom:
    __slots__ = ("id", "key", "lo", "hi", "vals")

    def __repr__(self):
        return short(self.key)


def short(k):
    if isinstance(k, tuple):
        return "(" + " ".join(short(x) for x in k) + ")"
    return str(k)


def atom(key, lo=None, hi=None, vals=None):
    a = AKEY.get(key)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.key = key
        a.lo, a.hi, a.vals = lo, hi, vals
        ATOMS.append(a)
        AKEY[key] = a
    return a


def reset():
    ATOMS.clear()
    AKEY.clear()


class Lin:
    __slots__ = ("t", "c", "h")

    def __init__(self, t, c):
        self.t = t
        self.c = c
        self.h = hash((t, c))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c + o)
        if not o.t:
            return Lin(self.t, self.c + o.c)
        if not self.t:
            return Lin(o.t, self.c + o.c)
        d = dict(self.t)
        for a, k in o.t:
            n = d.get(a, 0) + k
            if n:
                d[a] = n
            else:
                d.pop(a, None)
        return Lin(tuple(sorted(d.items())), self.c + o.c)

    def __rsub__(self, o):
        return -(self - o)

    def __radd__(self, o):
        return self + o

    def __neg__(self):
        return Lin(tuple((a, -k) for a, k in self.t), -self.c)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c - o)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Lin((), 0)
        return Lin(tuple((a, x * k) for a, x in self.t), self.c * k)

    @property
    def const(self):
        return self.c if not self.t else None

    def __repr__(self):
        s = []
        for a, k in self.t:
            n = repr(ATOMS[a])
            s.append(n if k == 1 else f"{k}*{n}")
        if self.c or not s:
            s.append(str(self.c))
        return "+".join(s)

    def subst(self, m):
        """m: atom id -> Lin"""
        if not any(a in m for a, _ in self.t):
            return self
        r = Lin((), self.c)
        for a, k in self.t:
            r = r + (m[a].scale(k) if a in m else Lin(((a, k),), 0))
        return r

    def single(self):
        """the atom if this is exactly one atom with coefficient 1 and no constant"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return ATOMS[self.t[0][0]]
        return None


def K(c):
    return Lin((), c)


ZERO = K(0)
ONE = K(1)


def L(a):
    return Lin(((a.id, 1),), 0)


def tighten(l):
    if not l.t:
        return l
    g = 0
    for _, k in l.t:
        g = gcd(g, k)
    if g > 1:
        # sum(k*a) <= -c  =>  sum(k/g*a) <= floor(-c/g)
        return Lin(tuple((a, k // g) for a, k in l.t), -((-l.c) // g))
    return l


class Facts:
    """Immutable conjunction: cons (Lin <= 0), ne (Lin != 0), dom (atom id -> allowed values),
    bools (atom id -> truth)."""
    __slots__ = ("cons", "ne", "dom", "bools", "memo", "bnd", "eqm")

    def __init__(self, cons=(), ne=(), dom=None, bools=None):
        self.cons = cons
        self.ne = ne
        self.dom = dom or {}
        self.bools = bools or {}
        self.memo = {}
        self.bnd = None
        self.eqm = None

    # --- interval part -------------------------------------------------
    def bounds(self):
        if self.bnd is None:
            b = {}
            for l in self.cons:
                if len(l.t) == 1:
                    a, k = l.t[0]
                    lo, hi = b.get(a, (None, None))
                    if k > 0:
                        h = (-l.c) // k
                        if hi is None or h < hi:
                            hi = h
                    else:
                        lw = -((-l.c) // (-k)) if False else -(-l.c // -k) if False else _ceil(l.c, -k)
                        if lo is None or lw > lo:
                            lo = lw
                    b[a] = (lo, hi)
            for a, vs in self.dom.items():
                lo, hi = b.get(a, (None, None))
                if vs:
                    m, M = min(vs), max(vs)
                    b[a] = (m if lo is None else max(lo, m), M if hi is None else min(hi, M))
            self.bnd = b
        return self.bnd

    def arange(self, aid):
        a = ATOMS[aid]
        lo, hi = a.lo, a.hi
        b = self.bounds().get(aid)
        if b:
            if b[0] is not None and (lo is None or b[0] > lo):
                lo = b[0]
            if b[1] is not None and (hi is None or b[1] < hi):
                hi = b[1]
        return lo, hi

    def hi(self, l):
        s = l.c
        for a, k in l.t:
            lo, hi = self.arange(a)
            v = hi if k > 0 else lo
            if v is None:
                return None
            s += k * v
        return s

    def lo(self, l):
        h = self.hi(-l)
        return None if h is None else -h

    # --- normal form modulo the known equalities -------------------------
    def equalities(self):
        """solved form: atom id -> Lin over older atoms"""
        if self.eqm is None:
            idx = {}
            for l in self.cons:
                if l.t and (l.t not in idx or idx[l.t] < l.c):
                    idx[l.t] = l.c
            m = {}
            for t, c in idx.items():
                if t[0][1] < 0:
                    continue
                if idx.get(tuple((a, -k) for a, k in t)) != -c:
                    continue
                l = Lin(t, c).subst(m)
                u = [(a, k) for a, k in l.t if k in (1, -1)]
                if not u:
                    continue
                a, k = max(u)
                r = (l - Lin(((a, k),), 0)).scale(-k)
                m = {x: y.subst({a: r}) for x, y in m.items()}
                m[a] = r
            self.eqm = m
        return self.eqm

    def reduce(self, l):
        if not l.t:
            return l
        m = self.equalities()
        if m:
            l = l.subst(m)
        if any(ATOMS[a].key[0] == "sum" for a, _ in l.t):
            l = self.cancel_sums(l)
        if l.t:
            h = self.hi(l)
            if h is not None and h == self.lo(l):
                return K(h)
        return l

    # --- entailment ----------------------------------------------------
    def le0(self, l):
        """is l <= 0 implied?"""
        if not l.t:
            return l.c <= 0
        l = tighten(l)
        r = self.memo.get(l)
        if r is not None:
            return r
        h = self.hi(l)
        if h is not None and h <= 0:
            self.memo[l] = True
            return True
        r = False
        for f in self.cons:
            if f.t == l.t:
                if l.c <= f.c:
                    r = True
                    break
        if not r:
            r = self._fm(l)
        if not r:
            m = self.bound_sums(self.cancel_sums(l))
            if m is not l:
                r = self.le0(m)
        self.memo[l] = r
        return r

    def cancel_sums(self, l):
        """sum(d, n1) - sum(d, n2) vanishes when n1 and n2 are provably equal"""
        ss = [(a, k) for a, k in l.t if ATOMS[a].key[0] == "sum"]
        for a, k in ss:
            if self.eq0(ATOMS[a].key[2]):
                return self.cancel_sums(Lin(tuple(x for x in l.t if x[0] != a), l.c))
        for a, k in ss:
            for b, j in ss:
                if a < b and k == -j and ATOMS[a].key[1] == ATOMS[b].key[1] \
                        and self.eq0(ATOMS[a].key[2] - ATOMS[b].key[2]):
                    return self.cancel_sums(Lin(tuple(x for x in l.t if x[0] not in (a, b)), l.c))
        return l

    def bound_sums(self, l):
        """an upper bound of l: sums of sizes only grow with the number of their terms"""
        ss = [(a, k) for a, k in l.t if ATOMS[a].key[0] == "sum"]
        for a, k in ss:
            if k < 0:
                continue
            _, d, n, _ = ATOMS[a].key
            for b, j in ss:
                if b == a or j != -k or ATOMS[b].key[1] != d:
                    continue
                m = ATOMS[b].key[2]
                rest = Lin(tuple(x for x in l.t if x[0] not in (a, b)), l.c)
                if self.le0(n + 1 - m):
                    # the item behind the shorter sum is still part of the longer one
                    from .mem import subst, kph
                    dn = subst(d, {kph().id: n}).scale(k)
                    r2 = rest - dn
                    if len(r2.t) < len(rest.t):
                        return r2
                if self.le0(n - m):
                    return rest
        return l

    def eq0(self, l):
        if not l.t:
            return l.c == 0
        return self.le0(l) and self.le0(-l)

    def ne0(self, l):
        if not l.t:
            return l.c != 0
        if l in self.ne or -l in self.ne:
            return True
        s = l.t
        if len(s) == 1:
            a, k = s[0]
            if a in self.dom and -l.c % k == 0 and (-l.c // k) not in self.dom[a]:
                return True
            v = ATOMS[a].vals
            if v is not None and a not in self.dom and -l.c % k == 0 and (-l.c // k) not in v:
                return True
            if l.c % k:
                return True
        if self.le0(l + 1) or self.le0(-l + 1):
            return True
        for n in self.ne:
            if self.eq0(n - l) or self.eq0(n + l):
                return True
        return False

    def _fm(self, goal):
        # relevant slice
        want = {a for a, _ in goal.t}
        pool = list(self.cons)
        sel = []
        changed = True
        while changed:
            changed = False
            rest = []
            for f in pool:
                if any(a in want for a, _ in f.t):
                    sel.append(f)
                    for a, _ in f.t:
                        if a not in want:
                            want.add(a)
                    changed = True
                else:
                    rest.append(f)
            pool = rest
        cons = [dict(f.t) | {None: f.c} for f in sel]
        # negated goal: goal >= 1  ->  -goal + 1 <= 0
        ng = {a: -k for a, k in goal.t}
        ng[None] = -goal.c + 1
        cons.append(ng)
        for a in want:
            lo, hi = self.arange(a)
            if lo is not None:
                cons.append({a: -1, None: lo})
            if hi is not None:
                cons.append({a: 1, None: -hi})
        return fm_infeasible(cons)

    def feasible(self):
        for l in self.cons:
            if not l.t and l.c > 0:
                return False
        return True

    # --- extension -----------------------------------------------------
    def add_le(self, l):
        """None if it becomes infeasible"""
        if not l.t:
            return self if l.c <= 0 else None
        l = tighten(l)
        if self.le0(l):
            return self
        if self.le0(-l + 1):
            return None
        f = Facts(self.cons + (l,), self.ne, self.dom, self.bools)
        if f.ne:
            # x != 0 with x <= 0 becomes x <= -1
            for n in f.ne:
                if n.t == l.t or n.t == tuple((a, -k) for a, k in l.t):
                    if f.le0(n):
                        return Facts(self.cons + (l,), tuple(x for x in f.ne if x is not n), f.dom, f.bools).add_le(n + 1)
                    if f.le0(-n):
                        return Facts(self.cons + (l,), tuple(x for x in f.ne if x is not n), f.dom, f.bools).add_le(-n + 1)
        return f

    def add_eq(self, l):
        if not l.t:
            return self if l.c == 0 else None
        if self.ne0(l):
            return None
        f = self
        if len(l.t) == 1:
            a, k = l.t[0]
            if -l.c % k:
                return None
            v = -l.c // k
            vs = self.dom.get(a, ATOMS[a].vals)
            if vs is not None:
                if v not in vs:
                    return None
                d = dict(self.dom)
                d[a] = frozenset([v])
                f = Facts(self.cons, self.ne, d, self.bools)
        f = f.add_le(l)
        if f is None:
            return None
        return f.add_le(-l)

    def add_ne(self, l):
        if not l.t:
            return self if l.c != 0 else None
        if self.eq0(l):
            return None
        if len(l.t) == 1:
            a, k = l.t[0]
            if -l.c % k:
                return self
            v = -l.c // k
            vs = self.dom.get(a, ATOMS[a].vals)
            if vs is not None:
                if v not in vs:
                    return self
                n = frozenset(x for x in vs if x != v)
                if not n:
                    return None
                d = dict(self.dom)
                d[a] = n
                return Facts(self.cons, self.ne, d, self.bools)
        if self.le0(l):
            return self.add_le(l + 1)
        if self.le0(-l):
            return self.add_le(-l + 1)
        return Facts(self.cons, self.ne + (l,), self.dom, self.bools)

    def add_bool(self, aid, val):
        cur = self.bools.get(aid)
        if cur is not None:
            return self if cur == val else None
        b = dict(self.bools)
        b[aid] = val
        return Facts(self.cons, self.ne, self.dom, b)


def _ceil(c, k):
    # -k*a + c <= 0, k>0  =>  a >= c/k  -> ceil
    return -((-c) // k)


def fm_infeasible(cons, cap=260):
    """cons: list of dicts {atom:coef, None:const} meaning sum+const <= 0 (integers)."""
    def norm(d):
        g = 0
        for a, k in d.items():
            if a is not None:
                g = gcd(g, k)
        c = d[None]
        if g > 1:
            return tuple(sorted((a, k // g) for a, k in d.items() if a is not None)), -((-c) // g)
        return tuple(sorted((a, k) for a, k in d.items() if a is not None)), c

    best = {}

    def put(store, t, c):
        # keep the strongest (largest constant)
        o = store.get(t)
        if o is None or c > o:
            store[t] = c

    for d in cons:
        d = {a: k for a, k in d.items() if a is None or k}
        t, c = norm(d)
        if not t:
            if c > 0:
                return True
            continue
        put(best, t, c)
    # equalities (a constraint and its opposite) are substituted away first: exact and cheap
    while True:
        eq = None
        for t, c in best.items():
            o = best.get(tuple((a, -k) for a, k in t))
            if o is None:
                continue
            if c + o > 0:
                return True
            if c + o == 0 and any(k == 1 or k == -1 for _, k in t):
                eq = t, c
                break
        if eq is None:
            break
        t, c = eq
        a, k = next((a, k) for a, k in t if k == 1 or k == -1)
        new = {}
        for t2, c2 in best.items():
            d2 = dict(t2)
            m = d2.pop(a, 0)
            if not m:
                put(new, t2, c2)
                continue
            m *= k      # a == -k * (rest + c)
            d2[None] = c2 - m * c
            for x, j in t:
                if x != a:
                    d2[x] = d2.get(x, 0) - m * j
            t3, c3 = norm({x: j for x, j in d2.items() if x is None or j})
            if not t3:
                if c3 > 0:
                    return True
                continue
            put(new, t3, c3)
        best = new
    while best:
        cnt = {}
        for t, c in best.items():
            for a, k in t:
                p, n = cnt.get(a, (0, 0))
                cnt[a] = (p + 1, n) if k > 0 else (p, n + 1)
        # one-sided atoms: drop constraints mentioning them
        one = {a for a, (p, n) in cnt.items() if p == 0 or n == 0}
        if one:
            best = {t: c for t, c in best.items() if not any(a in one for a, _ in t)}
            continue
        a = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1])
        pos, neg, new = [], [], {}
        for t, c in best.items():
            k = dict(t).get(a, 0)
            if k > 0:
                pos.append((t, c, k))
            elif k < 0:
                neg.append((t, c, -k))
            else:
                put(new, t, c)
        for t1, c1, k1 in pos:
            for t2, c2, k2 in neg:
                g = gcd(k1, k2)
                m1, m2 = k2 // g, k1 // g
                d = {}
                for x, k in t1:
                    d[x] = d.get(x, 0) + k * m1
                for x, k in t2:
                    d[x] = d.get(x, 0) + k * m2
                d = {x: k for x, k in d.items() if k}
                d[None] = c1 * m1 + c2 * m2
                t, c = norm(d)
                if not t:
                    if c > 0:
                        return True
                    continue
                put(new, t, c)
        if len(new) > cap:
            return False
        best = new
    return False
