"""Memory model: reading and writing through access paths, array contents as segments."""
from .lin import Lin, K, L, ZERO, ATOMS, atom
from .vals import *


class Unsupported(Exception):
    pass


class Dead(Exception):
    """the state is contradictory"""


# ------------------------------------------------------------------ substitution inside keys
def subst(x, m):
    """replace atoms (ids in m) by linear expressions, everywhere inside x"""
    if isinstance(x, Lin):
        if not x.t:
            return x
        r = None
        for a, k in x.t:
            if a in m:
                n = m[a]
            else:
                at = ATOMS[a]
                nk = subst(at.key, m)
                if nk == at.key:
                    continue
                n = mk_atom_from(nk, at)
            if r is None:
                r = {}
            r[a] = n
        return x if r is None else x.subst(r)
    if isinstance(x, tuple):
        if len(x) == 3 and x and x[0] == "x" and isinstance(x[1], int):
            # a bit of an atom
            n = subst(L(ATOMS[x[1]]), m)
            s = n.single()
            if s is None:
                if not n.t:
                    return (n.c >> x[2]) & 1
                s = atom(("val", 64, n), 0, (1 << 64) - 1)
            return ("x", s.id, x[2])
        y = tuple(subst(e, m) for e in x)
        return x if all(p is q for p, q in zip(x, y)) else y
    if isinstance(x, Agg):
        f = subst(x.f, m)
        return x if f is x.f else Agg(x.ty, x.var, f)
    if isinstance(x, Unk):
        o = subst(x.o, m)
        return x if o is x.o else Unk(x.ty, o)
    if isinstance(x, Arr):
        return Arr(x.ety, subst(x.n, m), subst(x.base, m), subst(x.segs, m))
    if isinstance(x, Ref):
        return Ref(subst(x.obj, m), subst(x.path, m), x.s and subst(x.s, m), x.n and subst(x.n, m))
    if isinstance(x, ItV):
        return ItV(x.ty, subst(x.ref, m), subst(x.pos, m), subst(x.end, m))
    return x


def mk_atom_from(nk, at):
    if nk[0] == "sum":
        return sum_atom(nk[1], nk[2], nk[3])
    if nk[0] == "bits":
        return bits_lin(list(nk[1]))
    return L(atom(nk, at.lo, at.hi, at.vals))


# placeholder atom for the element index inside 'star' / 'comp' templates
KPH_KEY = ("kph",)


def kph():
    return atom(KPH_KEY, 0, None)


def sum_atom(delta, n, _=None):
    """sum of delta(j) for j in 0..n, delta given over the placeholder"""
    p = kph().id
    if not mentions(delta, p):
        c = delta.const
        if c is not None:
            return n.scale(c)
    if not n.t and n.c <= 3:
        r = ZERO
        for j in range(n.c):
            r = r + subst(delta, {p: K(j)})
        return r
    return L(atom(("sum", delta, n, 0), 0, None))


def unstar(c):
    """a loop that stores one element per round: a block copy when round k stores element
    base+k of one unknown sequence, a fill when every round stores the same value"""
    if c[0] != "star" or c[1].const != 1 or len(c[2]) != 1:
        return c
    off, n, it = c[2][0]
    if off.const != 0 or n.const != 1 or it[0] != "v" or len(it[1]) != 1:
        return c
    x = it[1][0]
    p = kph().id
    if not mentions(x, p):
        return ("rep", x)
    o = None
    if isinstance(x, Unk):
        o = x.o
    elif isinstance(x, Lin) and x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1:
        k = ATOMS[x.t[0][0]].key
        if k[0] == "u":
            o = k[1]
    if isinstance(o, tuple) and len(o) == 3 and o[0] == "el" and isinstance(o[2], Lin):
        b = o[2] - L(kph())
        if not mentions(b, p) and not mentions(o[1], p):
            return ("unk", o[1], b)
    return c


def mentions(x, aid):
    if isinstance(x, Lin):
        return any(a == aid or mentions(ATOMS[a].key, aid) for a, _ in x.t)
    if isinstance(x, tuple):
        if len(x) == 3 and x and x[0] == "x" and isinstance(x[1], int):
            return x[1] == aid or mentions(ATOMS[x[1]].key, aid)
        return any(mentions(e, aid) for e in x)
    if isinstance(x, Agg):
        return mentions(x.f, aid)
    if isinstance(x, Unk):
        return mentions(x.o, aid)
    if isinstance(x, Arr):
        return mentions(x.n, aid) or mentions(x.base, aid) or mentions(x.segs, aid)
    if isinstance(x, Ref):
        return mentions(x.obj, aid) or mentions(x.path, aid) or mentions(x.s, aid) or mentions(x.n, aid)
    if isinstance(x, ItV):
        return mentions(x.ref, aid) or mentions(x.pos, aid) or mentions(x.end, aid)
    return False


def lins_in(x, out):
    """all linear expressions occurring in a value (not inside atom keys)"""
    if isinstance(x, Lin):
        out.append(x)
    elif isinstance(x, tuple):
        for e in x:
            lins_in(e, out)
    elif isinstance(x, Agg):
        lins_in(x.f, out)
    elif isinstance(x, Arr):
        out.append(x.n)
    elif isinstance(x, Ref):
        if x.s is not None:
            out.append(x.s)
            out.append(x.n)
        lins_in(x.path, out)
    elif isinstance(x, ItV):
        lins_in(x.ref, out)
        out.append(x.pos)
        out.append(x.end)


class Mem:
    """value-level operations that need the type table"""

    def __init__(self, prog, opts=None):
        self.P = prog
        self.T = prog.T
        self.inv = {}          # (ty, field) -> max value (type invariants)
        self.rel = {}          # (ty, position field) -> slice field: the position lies within the slice
        self.rel_len = {}      # origin of such a slice -> its length
        self.u8 = prog.ty("u8")

    # -------------------------------------------------------------- unknowns
    def arr_len(self, t):
        n = t["n"]
        if "v" in n:
            return K(n["v"])
        return L(atom(("N", str(n.get("sym"))), 0, 1 << 32))

    def mk_unk(self, ty, o):
        t = self.T[ty]
        k = t["k"]
        if self.P.is_int(ty):
            lo, hi = self.P.int_range(ty)
            return L(atom(("u", o, lo, hi), lo, hi))
        if k == "bool":
            return ("b", o, True)
        if k == "array":
            return Arr(t["e"], self.arr_len(t), ("unk", o, ZERO))
        if k in ("ref", "ptr"):
            return self.ext_ref(t["to"], o)
        if k == "tuple" and not t["e"]:
            return Agg(ty, None, ())
        if k == "adt" and t["ak"] == "struct" and t["variants"] and not t["variants"][0]["fields"]:
            return Agg(ty, None, ())
        if k == "fndef":
            return FnV(t["callee"])
        return Unk(ty, o)

    def ext_ref(self, to, o):
        t = self.T[to]
        if t["k"] in ("slice", "str"):
            return Ref(("ext", o, to), (), ZERO, self.ext_len(o))
        return Ref(("ext", o, to))

    def ext_len(self, o):
        r = self.rel_len.get(o)
        return L(atom(("len", o), 0, (1 << 63) - 1)) if r is None else r

    def ext_init(self, obj):
        _, o, to = obj[:3]
        t = self.T[to]
        if t["k"] == "slice":
            return Arr(t["e"], self.ext_len(o), ("unk", ("*", o), ZERO))
        if t["k"] == "str":
            return Arr(self.u8, self.ext_len(o), ("unk", ("*", o), ZERO))
        return self.mk_unk(to, ("*", o))

    def field_tys(self, ty, var=None):
        t = self.T[ty]
        k = t["k"]
        if k == "tuple":
            return t["e"]
        if k == "closure":
            return t["up"]
        if k == "adt":
            return [f["ty"] for f in t["variants"][var or 0]["fields"]]
        raise Unsupported(f"fields of {t['s']}")

    def unk_field(self, u, i, var=None):
        tys = self.field_tys(u.ty, var)
        if i >= len(tys):
            raise Unsupported("field index")
        o = (u.o, i) if var is None else (u.o, "v", var, i)
        mx = self.inv.get((u.ty, i))
        if mx is not None:
            lo, hi = self.P.int_range(tys[i])
            return L(atom(("u", o, 0, mx), 0, mx))
        for (ty, j), g in self.rel.items():
            if ty == u.ty and i in (j, g) and var is None:
                at = L(atom(("u", (u.o, j), 0, 1 << 62), 0, 1 << 62))
                if i == j:
                    return at
                self.rel_len[o] = at + L(atom(("behind", o), 0, 1 << 62))
        return self.mk_unk(tys[i], o)

    def expand(self, u, var=None):
        tys = self.field_tys(u.ty, var)
        return Agg(u.ty, var, [self.unk_field(u, i, var) for i in range(len(tys))])

    def is_enum(self, ty):
        t = self.T[ty]
        return t["k"] == "adt" and t["ak"] == "enum"

    def discr(self, v):
        if isinstance(v, Agg):
            if v.var is None:
                return ZERO
            d = self.T[v.ty]["variants"][v.var]["discr"]
            return K(v.var if d is None else d)
        if isinstance(v, Unk) and self.is_enum(v.ty):
            ds = [d for _, d in self.P.discrs(v.ty)]
            if not ds:
                raise Dead()
            return L(atom(("d", v.ty, v.o), min(ds), max(ds), frozenset(ds)))
        raise Unsupported(f"discriminant of {v!r:.80}")

    # -------------------------------------------------------------- array contents
    def content_el(self, ety, c, off, F):
        """element at offset off (relative to the content's start)"""
        k = c[0]
        if k == "rep":
            return c[1]
        if k == "unk":
            return self.mk_unk(ety, ("el", c[1], c[2] + off))
        if k == "copy":
            return self.arr_read(c[1], c[2] + off, F)
        if k == "v":
            o = off.const
            if o is None and F is not None and len(c[1]) <= 64:
                h = F.hi(off)
                if h is not None and 0 <= h < len(c[1]) and F.le0(K(h) - off):
                    o = h      # the facts leave one index only
            if o is not None and 0 <= o < len(c[1]):
                return c[1][o]
            if o is None:
                vs = set(c[1])
                if len(vs) == 1:
                    return c[1][0]
                return self.mk_unk(ety, ("idx", c[1], off))
            raise Dead()
        if k == "enc":
            w = self.enc_width(c[1])
            o = off.const
            if w is not None and o is not None and isinstance(c[2], Lin):
                b = lin_bits(c[2], 8 * w)
                sh = 8 * (w - 1 - o)
                return bits_lin(b[sh:sh + 8])
            return self.mk_unk(ety, ("encb", c[1], c[2], off))
        if k == "star":
            # ('star', delta, items): element templates over the placeholder
            _, delta, items = c
            if delta.const == 1 and len(items) == 1:
                v = self.content_el(ety, items[0][2], ZERO, F)
                return subst(v, {kph().id: off})
            if delta.const is not None and off.const is not None:
                q, r = divmod(off.const, delta.const)
                for s, n, it in items:
                    if s.const is not None and n.const is not None and s.const <= r < s.const + n.const:
                        return subst(self.content_el(ety, it, K(r - s.const), F), {kph().id: K(q)})
            return self.mk_unk(ety, ("starb", c, off))
        raise Unsupported("content " + k)

    def enc_width(self, ts):
        m = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8}
        return m.get(ts)

    def arr_read(self, a, i, F):
        for s, n, c in reversed(a.segs):
            if F.le0(s - i) and F.le0(i - s - n + 1):
                return self.content_el(a.ety, c, F.reduce(i - s), F)
            if F.le0(i - s + 1) or F.le0(s + n - i):
                continue
            return self.mk_unk(a.ety, ("amb", a, i))
        return self.content_el(a.ety, a.base, i, F)

    def shift(self, c, off, n, F):
        """content c from offset off on, for n elements; None if not expressible"""
        k = c[0]
        if k == "rep":
            return c
        if k == "unk":
            return ("unk", c[1], c[2] + off)
        if k == "copy":
            return ("copy", c[1], c[2] + off)
        if k == "v":
            if off.const is not None and n.const is not None:
                return ("v", c[1][off.const:off.const + n.const])
            return None
        if off.const == 0 and k in ("enc", "star"):
            return c
        return None

    def content(self, a, s, n, F):
        """content of a[s..s+n] as one content term"""
        if n.const is not None and n.const <= 16 and n.const > 0 and (a.segs or a.base[0] == "v"):
            # exactly one covering segment? keep it; otherwise list elements
            for ss, sn, c in reversed(a.segs):
                if F.eq0(ss - s) and F.eq0(sn - n) and c[0] in ("enc", "star"):
                    return c
                if F.le0(ss - s) and F.le0(s + n - ss - sn):
                    r = self.shift(c, s - ss, n, F)
                    if r is not None:
                        return r
                    break
                if F.le0(s + n - ss) or F.le0(ss + sn - s):
                    continue
                break
            return ("v", tuple(self.arr_read(a, s + j, F) for j in range(n.const)))
        for ss, sn, c in reversed(a.segs):
            if F.le0(ss - s) and F.le0(s + n - ss - sn):
                r = self.shift(c, s - ss, n, F)
                if r is not None and (c[0] not in ("enc", "star") or F.eq0(sn - n)):
                    return r
                return ("copy", a, s)
            if F.le0(s + n - ss) or F.le0(ss + sn - s):
                continue
            return ("copy", a, s)
        r = self.shift(a.base, s, n, F)
        if r is not None:
            return r
        return ("copy", a, s)

    def sub(self, a, s, n, F):
        if s.const == 0 and F.eq0(n - a.n):
            return a
        c = self.content(a, s, n, F)
        if c[0] == "copy" and c[1].segs:
            # keep the segments that lie inside
            pass
        return Arr(a.ety, n, c)

    def arr_write(self, a, s, n, c, F):
        if n.const == 0:
            return a
        # full overwrite
        if s.const == 0 and F.le0(a.n - n) and c[0] not in ("enc", "star"):
            return Arr(a.ety, a.n, c)
        segs = []
        for seg in a.segs:
            ss, sn, sc = seg
            if F.le0(s - ss) and F.le0(ss + sn - s - n):
                continue      # covered
            segs.append(seg)
        # extend literal neighbours
        if segs and c[0] == "v":
            ss, sn, sc = segs[-1]
            if sc[0] == "v" and (ss + sn) == s and len(sc[1]) + len(c[1]) <= 4096:
                segs[-1] = (ss, sn + n, ("v", sc[1] + c[1]))
                return Arr(a.ety, a.n, a.base, segs)
            if sc[0] == "v" and (s - ss).const is not None and 0 <= (s - ss).const and n.const is not None and \
                    (s - ss).const + n.const <= len(sc[1]):
                o = (s - ss).const
                v = sc[1][:o] + c[1] + sc[1][o + n.const:]
                segs[-1] = (ss, sn, ("v", v))
                return Arr(a.ety, a.n, a.base, segs)
        if not segs and a.base[0] == "v" and c[0] == "v" and s.const is not None:
            v = a.base[1]
            o = s.const
            if o + len(c[1]) <= len(v):
                return Arr(a.ety, a.n, ("v", v[:o] + c[1] + v[o + len(c[1]):]), ())
        segs.append((s, n, c))
        return Arr(a.ety, a.n, a.base, segs)

    def pieces(self, a, s, e, F, limit=400):
        """ordered list (start, len, content) covering [s,e); content of the last piece may be
        ('amb',) when the layout cannot be decided"""
        out = []
        p = s
        for _ in range(limit):
            if F.le0(e - p):
                return out
            cut = None
            hit = None
            amb = False
            for ss, sn, c in reversed(a.segs):
                if F.eq0(ss - p):
                    if F.le0(sn):
                        continue
                    hit = (ss, sn, c)
                    break
                if F.le0(ss - p):
                    if F.le0(ss + sn - p):
                        continue
                    if F.le0(p - ss - sn + 1):
                        hit = (ss, sn, c)
                        break
                    amb = True
                    break
                if F.le0(p - ss):
                    # starts later: candidate cut
                    if cut is None or F.le0(ss - cut):
                        cut = ss
                    elif not F.le0(cut - ss):
                        amb = True
                        break
                    continue
                amb = True
                break
            if amb:
                out.append((p, e - p, ("amb",)))
                return out
            if hit is None:
                end = e
                if cut is not None and F.le0(cut - e):
                    end = cut
                elif cut is not None and not F.le0(e - cut):
                    out.append((p, e - p, ("amb",)))
                    return out
                c = self.shift(a.base, p, end - p, F) or ("copy", a, p)
                out.append((p, end - p, c))
                p = end
                continue
            ss, sn, c = hit
            c = unstar(c)
            end = ss + sn
            if cut is not None:
                if F.le0(cut - end):
                    end = cut
                elif not F.le0(end - cut):
                    out.append((p, e - p, ("amb",)))
                    return out
            if not F.le0(end - e):
                if F.le0(e - end):
                    end = e
                else:
                    out.append((p, e - p, ("amb",)))
                    return out
            if F.eq0(p - ss) and F.eq0(end - ss - sn):
                out.append((p, sn, c))
            else:
                cc = self.shift(c, p - ss, end - p, F)
                if cc is None or (c[0] in ("enc", "star")):
                    cc = ("part", c, p - ss)
                out.append((p, end - p, cc))
            p = end
        out.append((p, e - p, ("amb",)))
        return out

    # -------------------------------------------------------------- paths
    def read(self, v, path, F):
        i = 0
        n = len(path)
        while i < n:
            e = path[i]
            k = e[0]
            if k == "f":
                if isinstance(v, Agg):
                    if e[1] >= len(v.f):
                        raise Unsupported("field of short aggregate")
                    v = v.f[e[1]]
                elif isinstance(v, Unk):
                    v = self.unk_field(v, e[1])
                elif isinstance(v, (Lin, ItV)) or isinstance(v, Ref):
                    pass         # NonZero / NonNull wrappers
                else:
                    raise Unsupported(f"field of {type(v)}")
            elif k == "v":
                if isinstance(v, Agg):
                    if v.var != e[1]:
                        raise Dead()
                elif isinstance(v, Unk):
                    if i + 1 < n and path[i + 1][0] == "f":
                        i += 1
                        v = self.unk_field(v, path[i][1], e[1])
                    else:
                        v = self.expand(v, e[1])
                else:
                    raise Unsupported("downcast")
            elif k == "i":
                if not isinstance(v, Arr):
                    raise Unsupported(f"index of {v!r:.60}")
                v = self.arr_read(v, e[1], F)
            elif k == "w":
                if not isinstance(v, Arr):
                    raise Unsupported("window")
                v = self.sub(v, e[1], e[2], F)
            elif k == "as":
                v = self.reinterpret(v, e[1], F)
            elif k == "B":
                b = self.to_bytes(v, e[1], F)
                if b is None:
                    raise Unsupported("byte view of " + self.T[e[1]]["s"])
                v = Arr(self.u8, K(len(b)), ("v", tuple(b)))
            else:
                raise Unsupported("path " + str(e))
            i += 1
        return v

    def write(self, v, path, new, F):
        if not path:
            return new
        e = path[0]
        k = e[0]
        rest = path[1:]
        if k == "f":
            if isinstance(v, Unk):
                v = self.expand(v)
            if isinstance(v, Agg):
                f = list(v.f)
                f[e[1]] = self.write(f[e[1]], rest, new, F)
                return Agg(v.ty, v.var, f)
            if isinstance(v, (Lin, Ref)):
                return self.write(v, rest, new, F)
            raise Unsupported("field write")
        if k == "v":
            if isinstance(v, Unk):
                v = self.expand(v, e[1])
            if isinstance(v, Agg) and v.var == e[1]:
                return self.write(v, rest, new, F)
            raise Dead()
        if k == "i":
            if not isinstance(v, Arr):
                raise Unsupported("index write")
            x = new if not rest else self.write(self.arr_read(v, e[1], F), rest, new, F)
            return self.arr_write(v, e[1], K(1), ("v", (x,)), F)
        if k == "w":
            if not isinstance(v, Arr):
                raise Unsupported("window write")
            x = new if not rest else self.write(self.sub(v, e[1], e[2], F), rest, new, F)
            if not isinstance(x, Arr):
                raise Unsupported("window write")
            return self.arr_write(v, e[1], e[2], self.content(x, ZERO, e[2], F), F)
        if k == "as":
            if rest:
                raise Unsupported("write through cast")
            return self.write_as(v, e[1], new, F)
        if k == "B":
            b = self.to_bytes(v, e[1], F)
            if b is None:
                raise Unsupported("byte view of " + self.T[e[1]]["s"])
            x = self.write(Arr(self.u8, K(len(b)), ("v", tuple(b))), rest, new, F)
            r = self.from_bytes([self.arr_read(x, K(j), F) for j in range(len(b))], e[1], F)
            if r is None:
                raise Unsupported("byte view write")
            return r
        raise Unsupported("path write " + str(e))

    # -------------------------------------------------------------- reinterpretation
    def size_of(self, ty):
        return self.T[ty].get("size")

    def to_bytes(self, v, ty, F):
        """little-endian byte list of a value (bits per byte), or None"""
        t = self.T[ty]
        sz = t.get("size")
        if self.P.is_int(ty) and isinstance(v, Lin):
            w, _ = self.P.int_info(ty)
            b = lin_bits(v, w)
            return [bits_lin(b[8 * j:8 * j + 8]) for j in range(w // 8)]
        if t["k"] == "bool":
            return None
        if t["k"] == "array" and isinstance(v, Arr):
            n = v.n.const
            if n is None or sz is None or n > 4096:
                return None
            out = []
            for j in range(n):
                b = self.to_bytes(self.arr_read(v, K(j), F), t["e"], F)
                if b is None:
                    return None
                out += b
            return out
        if t["k"] == "adt" and t["ak"] == "struct" and sz is not None and t.get("offs") is not None:
            if isinstance(v, Unk):
                v = self.expand(v)
            out = [None] * sz
            for i, f in enumerate(t["variants"][0]["fields"]):
                b = self.to_bytes(v.f[i], f["ty"], F)
                if b is None:
                    return None
                o = t["offs"][i]
                out[o:o + len(b)] = b
            if any(x is None for x in out):
                return None
            return out
        return None

    def from_bytes(self, bs, ty, F):
        t = self.T[ty]
        if self.P.is_int(ty):
            w, s = self.P.int_info(ty)
            bits = []
            for b in bs[:w // 8]:
                bits += lin_bits(b, 8)
            return self.bits_to_int(bits, ty, F)
        if t["k"] == "array":
            es = self.T[t["e"]].get("size")
            n = t["n"].get("v")
            if es is None or n is None:
                return None
            vs = []
            for j in range(n):
                x = self.from_bytes(bs[j * es:(j + 1) * es], t["e"], F)
                if x is None:
                    return None
                vs.append(x)
            return Arr(t["e"], K(n), ("v", tuple(vs))) if n else Arr(t["e"], K(0), ("unk", "empty", ZERO))
        if t["k"] == "adt" and t["ak"] == "struct" and t.get("offs") is not None:
            fs = []
            for i, f in enumerate(t["variants"][0]["fields"]):
                o = t["offs"][i]
                fsz = self.T[f["ty"]].get("size")
                if fsz is None:
                    return None
                x = self.from_bytes(bs[o:o + fsz], f["ty"], F)
                if x is None:
                    return None
                fs.append(x)
            return Agg(ty, None, fs)
        return None

    def bits_to_int(self, bits, ty, F):
        w, s = self.P.int_info(ty)
        l = bits_lin(bits)
        lo, hi = self.P.int_range(ty)
        x = l.single()
        if x is not None and x.key[0] == "val" and x.key[1] <= w and F.le0(-x.key[2]) and \
                F.le0(x.key[2] - ((1 << x.key[1]) - 1)) and F.le0(x.key[2] - hi):
            return x.key[2]
        if F.le0(l - hi) and F.le0(-l + lo):
            return l
        if not s:
            # bits_lin may have collapsed a signed value: keep the pattern atom
            return L(atom(("val", w, l), 0, hi))
        if not l.t:
            c = l.c & ((1 << w) - 1)
            return K(c - (1 << w) if c >> (w - 1) else c)
        x = l.single()
        if x is not None and x.key[0] == "val" and x.key[1] == w and F.le0(x.key[2] - hi) and F.le0(-x.key[2] + lo):
            return x.key[2]
        return L(atom(("sval", w, l), lo, hi))

    def reinterpret(self, v, ty, F):
        """value v read at type ty (pointer cast)"""
        t = self.T[ty]
        src = getattr(v, "ty", None)
        if src is not None and src == ty:
            return v
        if src is not None and self.is_enum(src) and self.P.is_int(ty):
            return self.discr(v)
        if src is not None and self.T[src]["s"] == t["s"]:
            return v
        if t["k"] == "adt" and t["ak"] == "struct" and len(t["variants"][0]["fields"]) == 1 and t.get("transparent"):
            inner = self.reinterpret(v, t["variants"][0]["fields"][0]["ty"], F)
            return Agg(ty, None, (inner,))
        if isinstance(v, Agg) and v.var is None and len(v.f) == 1 and t["k"] != "array":
            return self.reinterpret(v.f[0], ty, F)
        if isinstance(v, Lin) and self.P.is_int(ty):
            lo, hi = self.P.int_range(ty)
            if F.le0(v - hi) and F.le0(-v + lo):
                return v
            w, _ = self.P.int_info(ty)
            return self.bits_to_int(lin_bits(v, w), ty, F)
        if isinstance(v, Arr) and t["k"] == "array" and self.T[v.ety]["s"] == self.T[t["e"]]["s"]:
            return v
        if isinstance(v, Arr) and self.P.is_int(ty) and v.ety == self.u8:
            w, _ = self.P.int_info(ty)
            bs = [self.arr_read(v, K(j), F) for j in range(w // 8)]
            return self.from_bytes(bs, ty, F)
        if src is not None:
            b = self.to_bytes(v, src, F)
            if b is not None:
                r = self.from_bytes(b, ty, F)
                if r is not None:
                    return r
        if isinstance(v, Unk):
            return self.mk_unk(ty, ("as", ty, v.o))
        if isinstance(v, (Ref, FnV)):
            return v
        raise Unsupported(f"reinterpret {v!r:.60} as {t['s']}")

    def write_as(self, v, ty, new, F):
        src = getattr(v, "ty", None)
        if src is not None and self.T[src].get("size") is not None and self.T[ty]["k"] == "array":
            b = self.to_bytes(new, ty, F)
            if b is not None:
                r = self.from_bytes(b, src, F)
                if r is not None:
                    return r
        raise Unsupported("write through cast")
