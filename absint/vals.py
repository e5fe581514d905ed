"""Abstract values. Integers are Lin, booleans are True/False or condition tuples, everything
else is one of the immutable classes below."""
from .lin import Lin, K, L, ZERO, ONE, ATOMS, atom


class V:
    __slots__ = ("h",)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and self.h == o.h and self.key() == o.key())

    def __ne__(self, o):
        return not self == o


class Agg(V):
    """struct / tuple / enum variant / closure"""
    __slots__ = ("ty", "var", "f")

    def __init__(self, ty, var, f):
        self.ty, self.var, self.f = ty, var, tuple(f)
        self.h = hash((1, ty, var, self.f))

    def key(self):
        return (self.ty, self.var, self.f)

    def __repr__(self):
        return f"{{{self.ty}#{self.var}:{','.join(map(repr, self.f))}}}"


class Unk(V):
    """unknown value of a type, named by its origin"""
    __slots__ = ("ty", "o")

    def __init__(self, ty, o):
        self.ty, self.o = ty, o
        self.h = hash((2, ty, o))

    def key(self):
        return (self.ty, self.o)

    def __repr__(self):
        return f"?{self.o}"


class Arr(V):
    """array or slice contents: base content overlaid by segments (start,len,content)"""
    __slots__ = ("ety", "n", "base", "segs")

    def __init__(self, ety, n, base, segs=()):
        self.ety, self.n, self.base, self.segs = ety, n, base, tuple(segs)
        self.h = hash((3, ety, n, base, self.segs))

    def key(self):
        return (self.ety, self.n, self.base, self.segs)

    def __repr__(self):
        return f"Arr[{self.n}]({self.base}|{self.segs})"


class Ref(V):
    """pointer to obj.path; s,n give the window when the pointee is a slice"""
    __slots__ = ("obj", "path", "s", "n")

    def __init__(self, obj, path=(), s=None, n=None):
        self.obj, self.path, self.s, self.n = obj, tuple(path), s, n
        self.h = hash((4, obj, self.path, s, n))

    def key(self):
        return (self.obj, self.path, self.s, self.n)

    def __repr__(self):
        w = "" if self.s is None else f"[{self.s}+:{self.n}]"
        return f"&{self.obj}{''.join(map(str, self.path))}{w}"


class FnV(V):
    __slots__ = ("callee",)

    def __init__(self, callee):
        self.callee = callee
        self.h = hash((5, repr(callee)))

    def key(self):
        return repr(self.callee)

    def __repr__(self):
        return "fn"


class ItV(V):
    """slice iterator: window reference, position of the front and of the back"""
    __slots__ = ("ty", "ref", "pos", "end")

    def __init__(self, ty, ref, pos, end):
        self.ty, self.ref, self.pos, self.end = ty, ref, pos, end
        self.h = hash((6, ty, ref, pos, end))

    def key(self):
        return (self.ty, self.ref, self.pos, self.end)

    def __repr__(self):
        return f"It({self.ref},{self.pos}..{self.end})"


# ---------------------------------------------------------------- conditions
def neg(c):
    if c is True:
        return False
    if c is False:
        return True
    k = c[0]
    if k == "le":
        return ("le", -c[1] + 1)
    if k == "eq":
        return ("ne", c[1])
    if k == "ne":
        return ("eq", c[1])
    if k == "b":
        return ("b", c[1], not c[2])
    if k == "and":
        return c_or(neg(c[1]), neg(c[2]))
    if k == "or":
        return c_and(neg(c[1]), neg(c[2]))
    raise ValueError(c)


def c_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return ("and", a, b)


def c_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return ("or", a, b)


def c_le(l):
    if not l.t:
        return l.c <= 0
    return ("le", l)


def c_eq(l):
    if not l.t:
        return l.c == 0
    return ("eq", l)


def c_ne(l):
    return neg(c_eq(l))


# ---------------------------------------------------------------- bit vectors
def atom_bits(a, w):
    """bits (lsb first) of atom a as a w-bit unsigned quantity; known-zero above its range"""
    if a.key[0] == "bits":
        v = list(a.key[1])
        return v[:w] + [0] * (w - len(v))
    if a.key[0] == "sval" and w <= a.key[1]:
        return lin_bits(a.key[2], a.key[1])[:w]
    if a.lo is None or a.lo < 0 or a.hi is None:
        return None
    m = a.hi.bit_length()
    return [("x", a.id, k) if k < m else 0 for k in range(w)]


def lin_bits(l, w):
    if not l.t:
        c = l.c & ((1 << w) - 1)
        return [(c >> k) & 1 for k in range(w)]
    s = l.single()
    if s is not None:
        b = atom_bits(s, w)
        if b is not None:
            return b
    if l.c >= 0 and all(k > 0 and (k & (k - 1)) == 0 for _, k in l.t):
        # disjoint powers of two: concatenation
        out = lin_bits(K(l.c), w)
        ok = True
        for aid, k in l.t:
            sh = k.bit_length() - 1
            b = atom_bits(ATOMS[aid], w)
            if b is None:
                ok = False
                break
            b = ([0] * sh + b)
            if any(x != 0 for x in b[w:]):
                ok = False
                break
            for i in range(w):
                if b[i] != 0:
                    if out[i] != 0:
                        ok = False
                        break
                    out[i] = b[i]
            if not ok:
                break
        if ok:
            return out
    a = atom(("val", w, l), 0, (1 << w) - 1)
    return [("x", a.id, k) for k in range(w)]


def bits_lin(bits):
    """inverse of lin_bits: recognise constants, whole atoms (shifted) and mixtures"""
    n = len(bits)
    if all(isinstance(b, int) for b in bits):
        return K(sum(b << i for i, b in enumerate(bits)))
    total = ZERO
    rest = [0] * n
    i = 0
    while i < n:
        b = bits[i]
        if isinstance(b, int):
            if b:
                total = total + (1 << i)
            i += 1
            continue
        if b[0] == "x" and b[2] == 0:
            a = ATOMS[b[1]]
            m = a.hi.bit_length() if a.hi is not None else 0
            if m and i + m <= n and all(bits[i + j] == ("x", b[1], j) for j in range(m)):
                total = total + L(a).scale(1 << i)
                i += m
                continue
        rest[i] = b
        i += 1
    if any(r != 0 for r in rest):
        # trim to the span of unknown bits
        lo = next(i for i in range(n) if rest[i] != 0)
        hi = max(i for i in range(n) if rest[i] != 0)
        core = tuple(rest[lo:hi + 1])
        mx = sum(1 << i for i, b in enumerate(core) if b != 0)
        # value atoms standing for a whole linear expression collapse back
        a = atom(("bits", core), 0, mx)
        total = total + L(a).scale(1 << lo)
    # collapse ("val", w, lin) atoms
    s = total.single()
    if s is not None and s.key[0] == "val" and fits(s.key[2], s.key[1]):
        return s.key[2]
    return total


def fits(l, w):
    """does l lie in [0, 2^w) by the ranges of its atoms alone"""
    lo = hi = l.c
    for a, k in l.t:
        x = ATOMS[a]
        if x.lo is None or x.hi is None:
            return False
        lo += k * (x.lo if k > 0 else x.hi)
        hi += k * (x.hi if k > 0 else x.lo)
    return lo >= 0 and hi < (1 << w)


def band(x, y):
    if x == 0 or y == 0:
        return 0
    if x == 1:
        return y
    if y == 1:
        return x
    if x == y:
        return x
    if x == bnot(y):
        return 0
    return ("&",) + tuple(sorted((x, y), key=repr))


def bnot(x):
    if x == 0:
        return 1
    if x == 1:
        return 0
    if x[0] == "~":
        return x[1]
    return ("~", x)


def bor(x, y):
    if x == 1 or y == 1:
        return 1
    if x == 0:
        return y
    if y == 0:
        return x
    if x == y:
        return x
    return ("|",) + tuple(sorted((x, y), key=repr))


def bxor(x, y):
    if x == 0:
        return y
    if y == 0:
        return x
    if x == 1:
        return bnot(y)
    if y == 1:
        return bnot(x)
    if x == y:
        return 0
    # sums of more than two terms: equal terms cancel
    n, ts, todo = 0, set(), [x, y]
    while todo:
        b = todo.pop()
        if b == 0 or b == 1:
            n ^= b
        elif b[0] == "~":
            n ^= 1
            todo.append(b[1])
        elif b[0] == "^":
            todo += [b[1], b[2]]
        else:
            ts ^= {b}
    if not ts:
        return n
    ts = sorted(ts, key=repr)
    r = ts[-1]
    for b in reversed(ts[:-1]):
        r = ("^", b, r)
    return bnot(r) if n else r
