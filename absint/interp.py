"""Abstract interpreter over MIR: trace partitioning with state merging at join points,
interprocedural by inlining, loops by unrolling when determinate and by inductive generalisation
(linear / summation / widened values with verified inequality invariants) otherwise."""
import os, re, sys
from .lin import *
from .lin import atom as mk_atom
from .vals import *
from .mem import Mem, Unsupported, Dead, subst, mentions, lins_in, kph, sum_atom

sys.setrecursionlimit(20000)
DEEP = os.environ.get("VP_TIER") == "thorough"
UNROLL = 300 if DEEP else 72


class St:
    __slots__ = ("mem", "F", "log", "ctr", "ks", "taint")

    def __init__(self, mem, F, log=None, ctr=0, ks=(), taint=()):
        self.mem, self.F, self.log, self.ctr, self.ks, self.taint = mem, F, log, ctr, ks, taint

    def copy(self):
        return St(dict(self.mem), self.F, self.log, self.ctr, self.ks, self.taint)

    def with_F(self, F):
        s = self.copy()
        s.F = F
        return s

    def ev(self, e):
        self.log = (self.log, e)

    def events(self):
        out = []
        l = self.log
        while l is not None:
            out.append(l[1])
            l = l[0]
        out.reverse()
        return out

    def fresh(self, name):
        self.ctr += 1
        return ("ev", self.ctr, self.ks, name)


class Fork(Exception):
    """the current statement has several outcomes: [(facts, value)]"""

    def __init__(self, alts):
        self.alts = alts


class Star:
    """effects of one generic loop iteration"""

    def __init__(self, k):
        self.k = k
        self.bodies = []

    def __repr__(self):
        return f"Star({self.bodies})"


class Frame:
    __slots__ = ("inst", "body", "d", "stack", "site", "callee", "promoted")

    def __init__(self, inst, body, d, stack):
        self.inst, self.body, self.d, self.stack = inst, body, d, stack
        self.site = None
        self.promoted = None


def facts_join(A, B):
    if A is B:
        return A
    cons = []
    seen = set()
    for c in A.cons:
        if c in B.cons or B.le0(c):
            cons.append(c)
            seen.add(c)
    for c in B.cons:
        if c not in seen and A.le0(c):
            cons.append(c)
    ne = tuple(n for n in A.ne if n in B.ne or B.ne0(n)) + tuple(n for n in B.ne if n not in A.ne and A.ne0(n))
    dom = {}
    for a in set(A.dom) & set(B.dom):
        dom[a] = A.dom[a] | B.dom[a]
    bools = {a: v for a, v in A.bools.items() if B.bools.get(a) == v}
    return Facts(tuple(cons), ne, dom, bools)


class Engine(Mem):
    def __init__(self, prog, models, hooks=None, repo=("tpm2", "tpm2_rs_marshalable", "tpm2_rs_base", "tpm2_client",
                                                       "tpm2_impl", "vp_probe")):
        super().__init__(prog)
        self.I = prog.I
        self.models = models
        self.hooks = hooks or []
        self.repo = repo
        self.rec = True
        self.panics = {}
        self.lossy = {}
        self.kept = {}
        self.taints = {}
        self.inv_viol = {}
        self.inv_ok = 0
        self.visited = set()
        self.calls = set()
        self.steps = 0
        self.budget = 30000000 if DEEP else 3000000
        self.obl = {"assert": 0, "index": 0}
        self.max_states = 12000 if DEEP else 4000
        self.join = True
        self.snap = False
        self.err_events = False   # record failing returns of followed functions
        self.rets = {}          # outcome of a call -> its type
        self.unroll = UNROLL
        self.many = 1          # states kept apart while a loop of fixed length is unrolled

    # ------------------------------------------------------------ conditions
    def known_bits(self, l, F):
        """rewrite bit atoms using bit facts"""
        if not F.bools:
            return l
        r = None
        for a, k in l.t:
            key = ATOMS[a].key
            if key[0] == "bits":
                nb = [self.bit_known(b, F) for b in key[1]]
                if tuple(nb) != key[1]:
                    if r is None:
                        r = {}
                    r[a] = bits_lin(nb)
        return l if r is None else l.subst(r)

    def bit_known(self, b, F):
        if isinstance(b, int):
            return b
        v = F.bools.get(b)
        if v is not None:
            return int(v)
        if b[0] == "x":
            # ranges: the atom is below 2^k
            lo, hi = F.arange(b[1])
            if hi is not None and lo is not None and lo >= 0 and hi < (1 << b[2]):
                return 0
            if lo is not None and lo == hi:
                return (lo >> b[2]) & 1
            return b
        if b[0] == "~":
            return bnot(self.bit_known(b[1], F))
        f = {"&": band, "|": bor, "^": bxor}[b[0]]
        return f(self.bit_known(b[1], F), self.bit_known(b[2], F))

    def assume(self, F, c):
        """list of Facts"""
        if c is True:
            return [F]
        if c is False:
            return []
        k = c[0]
        if k == "le":
            r = F.add_le(self.known_bits(c[1], F))
            return [r] if r is not None else []
        if k == "eq":
            l = self.known_bits(c[1], F)
            r = F.add_eq(l)
            if r is None:
                return []
            r = self.learn_bits(r, l)
            return [r] if r is not None else []
        if k == "ne":
            l = self.known_bits(c[1], F)
            r = F.add_ne(l)
            if r is None:
                return []
            r = self.learn_nz(r, l)
            return [r] if r is not None else []
        if k == "b":
            r = F.add_bool(c[1], c[2])
            return [r] if r is not None else []
        if k == "and":
            out = []
            for f in self.assume(F, c[1]):
                out += self.assume(f, c[2])
            return out
        if k == "or":
            out = self.assume(F, c[1])
            for f in self.assume(F, neg(c[1])):
                out += self.assume(f, c[2])
            return out
        raise ValueError(c)

    def set_bit(self, F, b, v):
        if isinstance(b, int):
            return F if b == v else None
        if b[0] == "~":
            return self.set_bit(F, b[1], 1 - v)
        if b[0] == "&" and v == 1 or b[0] == "|" and v == 0:
            F = self.set_bit(F, b[1], v)
            return F if F is None else self.set_bit(F, b[2], v)
        return F.add_bool(b, bool(v))

    def learn_bits(self, F, l):
        """l == 0 known: single scaled bit-pattern atoms yield bit facts"""
        if len(l.t) != 1:
            return F
        a, k = l.t[0]
        if -l.c % k:
            return None
        v = -l.c // k
        at = ATOMS[a]
        if at.key[0] == "bits":
            for i, b in enumerate(at.key[1]):
                F = self.set_bit(F, b, (v >> i) & 1)
                if F is None:
                    return None
        else:
            for b, x in F.bools.items():
                # bits of this value that are already known
                if isinstance(b, tuple) and len(b) == 3 and b[0] == "x" and b[1] == a and ((v >> b[2]) & 1) != int(x):
                    return None
        return F

    def learn_nz(self, F, l):
        if len(l.t) == 1:
            at = ATOMS[l.t[0][0]]
            if at.key[0] == "bits" and len(at.key[1]) == 1 and at.hi == 1:
                v = -l.c // l.t[0][1]
                if v in (0, 1):
                    return self.set_bit(F, at.key[1][0], 1 - v)
        return F

    def prove(self, F, c):
        if c is True or c is False:
            return c
        k = c[0]
        if k == "le":
            return F.le0(self.known_bits(c[1], F))
        if k == "eq":
            return F.eq0(self.known_bits(c[1], F))
        if k == "ne":
            return F.ne0(self.known_bits(c[1], F))
        if k == "b":
            return F.bools.get(c[1]) == c[2]
        if k == "and":
            return self.prove(F, c[1]) and self.prove(F, c[2])
        if k == "or":
            if self.prove(F, c[1]) or self.prove(F, c[2]):
                return True
            return not self.assume(F, neg(c))
        raise ValueError(c)

    # ------------------------------------------------------------ records
    def where(self, fr):
        """innermost frame in repository code"""
        for (i, sp) in reversed(fr.stack):
            if self.I[i]["crate"] in self.repo:
                return self.I[i]["name"], sp
        return self.I[fr.stack[-1][0]]["name"], fr.stack[-1][1]

    def panic(self, fr, what, st=None):
        if not self.rec:
            return
        n, sp = self.where(fr)
        key = (n, what, self.I[fr.inst]["name"] if self.I[fr.inst]["crate"] not in self.repo else "")
        opaque = [t for t in (st.taint if st is not None else ()) if t.startswith("opaque")]
        if key not in self.panics or self.panics[key]["opaque"] and not opaque:
            self.panics[key] = {"fn": n, "what": what, "span": sp, "opaque": opaque,
                                "stack": [self.I[i]["name"] for i, _ in fr.stack]}

    def taint(self, fr, st, what):
        st.taint = st.taint + (what,) if what not in st.taint else st.taint
        if self.rec:
            n, sp = self.where(fr)
            self.taints.setdefault((n, what), sp)

    # ------------------------------------------------------------ memory access
    def get(self, st, obj):
        v = st.mem.get(obj)
        if v is None:
            if obj[0] == "ext":
                return self.ext_init(obj)
            raise Unsupported(f"uninitialised {obj}")
        return v

    def load(self, st, ref):
        if ref.s is not None:
            a = self.read(self.get(st, ref.obj), ref.path, st.F)
            return self.sub(a, ref.s, ref.n, st.F)
        return self.read(self.get(st, ref.obj), ref.path, st.F)

    def arr_of(self, st, ref):
        """underlying array of a slice reference"""
        a = self.read(self.get(st, ref.obj), ref.path, st.F)
        if not isinstance(a, Arr):
            raise Unsupported(f"slice over {a!r:.60}")
        return a

    def store(self, st, ref, v):
        if ref.s is not None:
            if not isinstance(v, Arr):
                raise Unsupported("slice store")
            a = self.arr_of(st, ref)
            new = self.arr_write(a, ref.s, ref.n, self.content(v, ZERO, ref.n, st.F), st.F)
            st.mem[ref.obj] = self.write(self.get(st, ref.obj), ref.path, new, st.F)
            return
        if not ref.path:
            st.mem[ref.obj] = v
            return
        st.mem[ref.obj] = self.write(self.get(st, ref.obj), ref.path, v, st.F)

    def write_seg(self, st, ref, off, n, c):
        """write content c at ref.s+off"""
        a = self.arr_of(st, ref)
        new = self.arr_write(a, ref.s + off, n, c, st.F)
        st.mem[ref.obj] = self.write(self.get(st, ref.obj), ref.path, new, st.F)

    def as_ref(self, v, ty):
        if isinstance(v, Ref):
            return v
        if isinstance(v, Unk):
            t = self.T[v.ty]
            if t["k"] in ("ref", "ptr"):
                return self.ext_ref(t["to"], v.o)
            if t["k"] == "adt" and t["args"]:
                # Box<T>, NonNull<T>
                return self.ext_ref(t["args"][0], ("box", v.o))
        if isinstance(v, Agg) and len(v.f) >= 1:
            return self.as_ref(v.f[0], ty)
        raise Unsupported(f"deref of {v!r:.60}")

    def place(self, st, fr, pl):
        """-> Ref"""
        obj = ("L", fr.d, pl["l"])
        path, s, n = (), None, None
        ty = fr.body["locals"][pl["l"]]
        for p in pl["p"]:
            if p == "*":
                v = self.read(self.get(st, obj), path, st.F)
                r = self.as_ref(v, ty)
                obj, path, s, n = r.obj, r.path, r.s, r.n
            elif "f" in p:
                path = path + (("f", p["f"]),)
            elif "i" in p:
                i = self.get(st, ("L", fr.d, p["i"]))
                path = path + (("i", i if s is None else s + i),)
                s = n = None
            elif "ci" in p:
                if s is not None:
                    i = (s + n - p["ci"]) if p["fe"] else s + p["ci"]
                else:
                    a = self.read(self.get(st, obj), path, st.F)
                    i = (a.n - p["ci"]) if p["fe"] else K(p["ci"])
                path = path + (("i", i),)
                s = n = None
            elif "ss" in p:
                if s is not None:
                    s2 = s + p["ss"]
                    e2 = (s + n - p["to"]) if p["fe"] else s + p["to"]
                    s, n = s2, e2 - s2
                else:
                    a = self.read(self.get(st, obj), path, st.F)
                    e2 = (a.n - p["to"]) if p["fe"] else K(p["to"])
                    path = path + (("w", K(p["ss"]), e2 - p["ss"]),)
            elif "d" in p:
                path = path + (("v", p["d"]),)
            else:
                raise Unsupported(f"projection {p}")
        return Ref(obj, path, s, n)

    def mkref(self, r):
        return r

    # ------------------------------------------------------------ constants
    def const(self, st, fr, ty, val):
        t = self.T[ty]
        if "v" in val:
            if t["k"] == "bool":
                return bool(val["v"])
            if t["k"] == "adt" and self.is_enum(ty):
                for i, v in enumerate(t["variants"]):
                    if v["discr"] == val["v"]:
                        return Agg(ty, i, [self.const(st, fr, f["ty"], {"zst": True}) for f in v["fields"]])
                raise Unsupported("enum const")
            if t["k"] == "adt" and not self.P.is_int(ty):
                return Agg(ty, None, [self.const(st, fr, f["ty"], val) for f in t["variants"][0]["fields"]])
            v = val["v"]
            if self.P.is_int(ty):
                w, s = self.P.int_info(ty)
                if s and v >= 1 << (w - 1):
                    v -= 1 << w
            return K(v)
        if "agg" in val:
            if self.P.is_int(ty):
                x = val
                while "agg" in x:
                    x = x["agg"][0]
                return K(x["v"])
            var = val.get("var")
            if t["k"] in ("tuple", "closure", "adt"):
                tys = self.field_tys(ty, var)
                return Agg(ty, var if self.is_enum(ty) else None,
                           [self.const(st, fr, ft, v) for ft, v in zip(tys, val["agg"])])
            raise Unsupported("agg const of " + t["s"])
        if "arr" in val:
            vs = tuple(self.const(st, fr, t["e"], v) for v in val["arr"])
            if not vs:
                return Arr(t["e"], K(0), ("unk", "empty", ZERO))
            return Arr(t["e"], K(len(vs)), ("v", vs))
        if "bytes" in val:
            b = bytes.fromhex(val["bytes"])
            if t["k"] in ("array", "slice", "str"):
                e = t["e"] if t["k"] != "str" else self.u8
                if not b:
                    return Arr(e, K(0), ("unk", "empty", ZERO))
                return Arr(e, K(len(b)), ("v", tuple(K(x) for x in b)))
            r = self.from_bytes([K(x) for x in b], ty, st.F)
            if r is None:
                raise Unsupported("bytes const")
            return r
        if "ref" in val:
            to = t["to"]
            v = self.const(st, fr, to, val["ref"])
            obj = ("C", to, v)
            st.mem[obj] = v
            if isinstance(v, Arr) and self.T[to]["k"] in ("slice", "str"):
                return Ref(obj, (), ZERO, v.n)
            return Ref(obj)
        if "zst" in val or "fnptr" in val:
            if t["k"] == "fndef":
                return FnV(t["callee"])
            if "fnptr" in val:
                return FnV(val["fnptr"])
            if t["k"] in ("tuple",) :
                return Agg(ty, None, [self.const(st, fr, e, val) for e in t["e"]])
            if t["k"] == "adt" and t["ak"] == "struct":
                return Agg(ty, None, [self.const(st, fr, f["ty"], val) for f in t["variants"][0]["fields"]])
            if t["k"] == "array":
                return Arr(t["e"], self.arr_len(t), ("unk", "empty", ZERO))
            if t["k"] == "closure":
                return Agg(ty, None, ())
            return Unk(ty, ("zst", ty))
        if val.get("promoted") is not None and fr is not None:
            pr = self.I[fr.inst].get("promoted")
            if pr and val["promoted"] < len(pr):
                return self.run_promoted(st, fr, pr[val["promoted"]])
        if "sym" in val and self.P.is_int(ty):
            return L(mk_atom(("N", str(val["sym"])), 0, 1 << 32))
        if self.P.is_int(ty) and self.P.int_info(ty)[0] > 32:
            # an associated constant of a generic parameter: sizes supplied by the user stay below 2^32
            return L(mk_atom(("N", repr(sorted(val.items()))), 0, 1 << 32))
        return self.mk_unk(ty, ("const", ty, repr(sorted(val.items()))))

    def run_promoted(self, st, fr, body):
        f2 = Frame(fr.inst, body, fr.d + 1, fr.stack)
        s2 = st.copy()
        outs = self.run_body(s2, f2)
        if len(outs) != 1:
            raise Unsupported("promoted")
        s, v = outs[0]
        # move frame objects into constants
        m = {}

        def mv(r):
            if isinstance(r, Ref) and r.obj[0] == "L" and r.obj[1] == fr.d + 1:
                x = mvv(s.mem[r.obj])
                o = ("C", -1, x)
                st.mem[o] = x
                return Ref(o, r.path, r.s, r.n)
            return r

        def mvv(x):
            if isinstance(x, Ref):
                return mv(x)
            if isinstance(x, Agg):
                return Agg(x.ty, x.var, [mvv(y) for y in x.f])
            if isinstance(x, Arr) and x.base[0] in ("v", "rep"):
                return Arr(x.ety, x.n, (x.base[0], tuple(mvv(y) for y in x.base[1]) if x.base[0] == "v" else mvv(x.base[1])))
            return x
        return mvv(v)

    def operand(self, st, fr, o):
        k = o["k"]
        if k in ("cp", "mv"):
            pl = o["pl"]
            if not pl["p"]:
                v = st.mem.get(("L", fr.d, pl["l"]))
                if v is None:
                    ty = fr.body["locals"][pl["l"]]
                    t = self.T[ty]
                    if t.get("size") == 0 or t["k"] in ("tuple", "closure", "fndef"):
                        return self.const(st, fr, ty, {"zst": True})
                    raise Unsupported(f"uninitialised local _{pl['l']}")
                return v
            return self.load(st, self.place(st, fr, pl))
        if k == "const":
            return self.const(st, fr, o["ty"], o["val"])
        if k == "rtc":
            return False
        raise Unsupported("operand " + k)

    def op_ty(self, fr, o):
        if o["k"] == "const":
            return o["ty"]
        return self.place_ty(fr, o["pl"])

    def place_ty(self, fr, pl):
        ty = fr.body["locals"][pl["l"]]
        var = None
        for p in pl["p"]:
            t = self.T[ty]
            if p == "*":
                if t["k"] in ("ref", "ptr"):
                    ty = t["to"]
                else:
                    ty = t["args"][0]
            elif "f" in p:
                ty = p["ty"]
            elif "i" in p or "ci" in p:
                ty = t["e"]
            elif "ss" in p:
                pass
        return ty

    # ------------------------------------------------------------ rvalues
    def wrap(self, l, ty, F):
        lo, hi = self.P.int_range(ty)
        if F.le0(l - hi) and F.le0(-l + lo):
            return l
        w, s = self.P.int_info(ty)
        if not l.t:
            c = l.c & ((1 << w) - 1)
            return K(c - (1 << w) if s and c >> (w - 1) else c)
        a, b = F.lo(l), F.hi(l)
        if a is not None and b is not None and (a - lo) >> w == (b - lo) >> w:
            # the whole range wraps the same number of times
            return l - (((a - lo) >> w) << w)
        return L(mk_atom(("wrap", w, s, l), lo, hi))

    def to_bool_int(self, c):
        """0/1 linear value of a condition"""
        if c is True:
            return K(1)
        if c is False:
            return K(0)
        return L(mk_atom(("cond", c), 0, 1))

    def binop(self, st, fr, op, a, b, aty):
        F = st.F
        t = self.T[aty]
        if op == "Offset":
            return self.ptr_offset(a, b)
        if isinstance(a, (bool, tuple)) or t["k"] == "bool":
            if op == "Eq":
                return self.cond_eq(a, b)
            if op == "Ne":
                return neg(self.cond_eq(a, b))
            if op == "BitAnd":
                return c_and(a, b)
            if op == "BitOr":
                return c_or(a, b)
            if op == "BitXor":
                return neg(self.cond_eq(a, b))
            raise Unsupported("bool op " + op)
        if isinstance(a, Ref) or isinstance(b, Ref):
            if op in ("Eq", "Ne") and isinstance(a, Ref) and isinstance(b, Ref):
                r = None
                if a == b:
                    r = True
                else:
                    r = ("b", ("ptreq", a, b), True)
                return r if op == "Eq" else neg(r)
            raise Unsupported("pointer op " + op)
        if isinstance(a, FnV) or isinstance(a, Unk):
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return ("b", ("cmp", op, a, b), True)
            raise Unsupported("op on unknown")
        if isinstance(a, Agg):
            if op == "Eq" and not a.f:
                return True
            raise Unsupported("op on aggregate")
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            a, b = self.known_bits(a, F), self.known_bits(b, F)
            d = a - b
            if op == "Eq":
                return c_eq(d)
            if op == "Ne":
                return c_ne(d)
            if op == "Lt":
                return c_le(d + 1)
            if op == "Le":
                return c_le(d)
            if op == "Gt":
                return c_le(-d + 1)
            return c_le(-d)
        if op == "Cmp":
            return ("cmp3", a, b)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        lo, hi = self.P.int_range(aty)
        if self.T[aty]["k"] == "adt":
            lo = 0
        w, s = self.P.int_info(aty)
        if base in ("Add", "Sub", "Mul"):
            if base == "Add":
                r = a + b
            elif base == "Sub":
                r = a - b
            else:
                if a.const is not None:
                    r = b.scale(a.const)
                elif b.const is not None:
                    r = a.scale(b.const)
                else:
                    alo, ahi, blo, bhi = F.lo(a), F.hi(a), F.lo(b), F.hi(b)
                    if None in (alo, ahi, blo, bhi) or alo < 0 or blo < 0:
                        r = L(mk_atom(("mul", a, b), None, None))
                    else:
                        r = L(mk_atom(("mul", a, b), alo * blo, ahi * bhi))
            if op.endswith("WithOverflow"):
                ov = c_or(c_le(-r + hi + 1), c_le(r - lo + 1))
                if self.prove(F, neg(ov)):
                    ov = False
                return (r, ov)
            if op.endswith("Unchecked"):
                return r
            return self.wrap(r, aty, F)
        if base in ("Div", "Rem"):
            c = b.const
            if c is not None and c > 0 and F.le0(-a):
                if a.const is not None:
                    return K(a.const // c if base == "Div" else a.const % c)
                q = mk_atom(("div", a, c), 0, None)
                F2 = F.add_le(L(q).scale(c) - a)
                F2 = F2 and F2.add_le(a - L(q).scale(c) - (c - 1))
                if F2 is None:
                    raise Dead()
                st.F = F2
                return L(q) if base == "Div" else a - L(q).scale(c)
            return L(mk_atom((base, a, b), lo, hi))
        if base in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
            if base in ("Shl", "Shr"):
                c = b.const
                if c is None:
                    return L(mk_atom((base, w, a, b), lo, hi))
                c %= w
                if s:
                    if base == "Shr" and a.const is not None:
                        return K(a.const >> c)
                    if base == "Shr":
                        return L(mk_atom((base, w, a, c), lo, hi))
                x = lin_bits(self.known_bits(a, F), w)
                x = [self.bit_known(i, F) for i in x] if F.bools else x
                y = ([0] * c + x)[:w] if base == "Shl" else x[c:] + [0] * c
                if base == "Shl" and F.hi(a) is not None and not s and F.le0(-a) and (F.hi(a) << c) <= hi:
                    return a.scale(1 << c)
                return self.bits_to_int(y, aty, F)
            x, y = lin_bits(self.known_bits(a, F), w), lin_bits(self.known_bits(b, F), w)
            f = {"BitAnd": band, "BitOr": bor, "BitXor": bxor}[base]
            z = [f(i, j) for i, j in zip(x, y)]
            if F.bools:
                z = [self.bit_known(i, F) for i in z]
            return self.bits_to_int(z, aty, F)
        raise Unsupported("binop " + op)

    def cond_eq(self, a, b):
        if a is True:
            return b
        if b is True:
            return a
        if a is False:
            return neg(b)
        if b is False:
            return neg(a)
        if a == b:
            return True
        if a == neg(b):
            return False
        return c_or(c_and(a, b), c_and(neg(a), neg(b)))

    def ptr_offset(self, p, k):
        if isinstance(p, Ref) and p.path and p.path[-1][0] == "i":
            return Ref(p.obj, p.path[:-1] + (("i", p.path[-1][1] + k),))
        if isinstance(k, Lin) and k.const == 0:
            return p
        raise Unsupported("pointer offset")

    def cast(self, st, fr, ck, v, fty, ty):
        t = self.T[ty]
        F = st.F
        if ck.startswith("IntToInt"):
            if isinstance(v, (bool, tuple)):
                return self.to_bool_int(v)
            lo, hi = self.P.int_range(ty)
            v = self.known_bits(v, F)
            w, s = self.P.int_info(ty)
            fw, fs = self.P.int_info(fty)
            if w < fw and self.rec and isinstance(v, Lin) and v.t:
                self.kept.setdefault(self.where(fr)[0], set()).update(b for b in lin_bits(v, fw)[:w] if not isinstance(b, int))
            if F.le0(v - hi) and F.le0(-v + lo):
                return v
            if w < fw and self.rec:
                n, sp = self.where(fr)
                self.lossy.setdefault((n, self.T[fty]["s"], t["s"]), []).append((sp, v, fr.stack, fw))
            return self.bits_to_int(lin_bits(v, w), ty, F) if not (fs and w > fw) else L(
                mk_atom(("sext", w, v), lo, hi))
        if "Unsize" in ck:
            r = self.as_ref(v, fty)
            ft, tt = self.T[fty], t
            if ft["k"] in ("ref", "ptr") and t["k"] in ("ref", "ptr") and self.T[t["to"]]["k"] == "slice":
                at = self.T[ft["to"]]
                if at["k"] == "array":
                    n = self.arr_len(at)
                    if r.path and r.path[-1][0] == "w":
                        return Ref(r.obj, r.path[:-1], r.path[-1][1], r.path[-1][2])
                    return Ref(r.obj, r.path, ZERO, n)
            return v
        if "ReifyFnPointer" in ck or "ClosureFnPointer" in ck or "UnsafeFnPointer" in ck:
            return v
        if ck in ("PtrToPtr", "Transmute") and t["k"] in ("ref", "ptr"):
            if not isinstance(v, Ref):
                if isinstance(v, Agg) and len(v.f) >= 1 and isinstance(v.f[0], (Ref, Agg)):
                    v = self.as_ref(v, fty)
                elif isinstance(v, Unk):
                    v = self.as_ref(v, fty)
                else:
                    raise Unsupported("pointer cast")
            return self.ptr_cast(v, fty, ty)
        if ck == "Transmute":
            if isinstance(v, Ref):
                # ref -> NonNull etc.
                if t["k"] == "adt" and t["variants"] and len(t["variants"][0]["fields"]) >= 1:
                    return Agg(ty, None, (v,) + tuple(self.const(st, fr, f["ty"], {"zst": True})
                                                      for f in t["variants"][0]["fields"][1:]))
                return v
            if isinstance(v, Lin) and self.P.is_int(ty):
                return self.reinterpret(v, ty, F)
            if t["k"] == "array" and isinstance(v, Lin):
                b = self.to_bytes(v, fty, F)
                r = self.from_bytes(b, ty, F)
                if r is not None:
                    return r
            if t["k"] == "bool" and isinstance(v, (bool, tuple)):
                return v
            if isinstance(v, Lin) and self.is_enum(ty) and len(t["variants"]) == 2:
                # Option<NonZero>
                vs = t["variants"]
                if not vs[0]["fields"] and len(vs[1]["fields"]) == 1 and self.P.is_int(vs[1]["fields"][0]["ty"]):
                    raise Fork([(F2, Agg(ty, 0, ())) for F2 in self.assume(F, c_eq(v))] +
                               [(F2, Agg(ty, 1, (v,))) for F2 in self.assume(F, c_ne(v))])
            return self.reinterpret(v, ty, F)
        if ck == "PointerExposeProvenance":
            return L(mk_atom(("addr", v), 1, (1 << 64) - 1))
        raise Unsupported("cast " + ck)

    def ptr_cast(self, r, fty, ty):
        ft, t = self.T[fty], self.T[ty]
        fto = ft.get("to") if ft["k"] in ("ref", "ptr") else (ft.get("args") or [None])[0]
        to = t["to"]
        if fto is None or fto == to or self.T[fto]["s"] == self.T[to]["s"]:
            return r
        a, b = self.T[fto], self.T[to]
        if a["k"] == "slice" and b["k"] not in ("slice", "str"):
            r = Ref(r.obj, r.path + (("i", r.s),))
            if self.T[a["e"]]["s"] == b["s"]:
                return r
            if b["k"] == "array" and self.T[b["e"]]["s"] == self.T[a["e"]]["s"]:
                return Ref(r.obj, r.path[:-1] + (("w", r.path[-1][1], self.arr_len(b)),))
            return Ref(r.obj, r.path + (("as", to),))
        if a["k"] == "array" and self.T[a["e"]]["s"] == b["s"]:
            if r.path and r.path[-1][0] == "w":
                return Ref(r.obj, r.path[:-1] + (("i", r.path[-1][1]),))
            return Ref(r.obj, r.path + (("i", ZERO),))
        if b["k"] == "array" and self.T[b["e"]]["s"] == a["s"] and r.path and r.path[-1][0] == "i":
            return Ref(r.obj, r.path[:-1] + (("w", r.path[-1][1], self.arr_len(b)),))
        if a["k"] == "slice" or b["k"] == "slice":
            if a["k"] == "slice" and b["k"] == "slice" and self.T[a["e"]].get("size") == self.T[b["e"]].get("size"):
                return r
            if a["k"] == b["k"]:
                raise Unsupported("slice pointer cast")
            return r
        if "str" in (a["k"], b["k"]):
            return r
        cur, path = fto, r.path
        while self.T[cur]["k"] == "adt" and re.match(r"core::cell::(Unsafe|Sync|SyncUnsafe)?Cell\b", self.T[cur]["s"]):
            cur, path = self.field_tys(cur, 0)[0], path + (("f", 0),)
            if self.T[cur]["s"] == b["s"]:
                return Ref(r.obj, path, r.s, r.n)
        if r.path and r.path[-1][0] == "as":
            base = r.path[:-1]
            return Ref(r.obj, base + (("as", to),))
        return Ref(r.obj, r.path + (("as", to),), r.s, r.n)

    def rvalue(self, st, fr, rv, dty):
        k = rv["k"]
        if k == "use":
            return self.operand(st, fr, rv["o"])
        if k in ("ref", "addr"):
            return self.place(st, fr, rv["pl"])
        if k == "agg":
            fs = [self.operand(st, fr, o) for o in rv["f"]]
            a = rv["a"]
            if a == "tuple":
                return Agg(dty, None, fs)
            if a == "array":
                t = self.T[dty]
                if not fs:
                    return Arr(t["e"], K(0), ("unk", "empty", ZERO))
                return Arr(t["e"], K(len(fs)), ("v", tuple(fs)))
            if a == "adt":
                ty = rv["ty"]
                if self.P.is_int(ty):
                    return fs[0]
                if rv.get("uf") is not None:
                    raise Unsupported("union")
                v = Agg(ty, rv["v"] if self.is_enum(ty) else None, fs)
                self.check_inv(st, fr, v)
                return v
            if a == "closure":
                return Agg(rv["ty"], None, fs)
            if a == "rawptr":
                p, m = fs
                if isinstance(m, Lin):
                    if isinstance(p, Ref):
                        pt = p
                        if pt.path and pt.path[-1][0] == "i":
                            return Ref(pt.obj, pt.path[:-1], pt.path[-1][1], m)
                        if pt.s is not None:
                            return Ref(pt.obj, pt.path, pt.s, m)
                        if m.const == 1 or True:
                            v = self.read(self.get(st, pt.obj), pt.path, st.F)
                            if isinstance(v, Arr):
                                return Ref(pt.obj, pt.path, ZERO, m)
                    raise Unsupported("raw slice pointer")
                return p
            raise Unsupported("aggregate " + a)
        if k == "bin":
            a, b = self.operand(st, fr, rv["a"]), self.operand(st, fr, rv["b"])
            r = self.binop(st, fr, rv["op"], a, b, self.op_ty(fr, rv["a"]))
            if rv["op"].endswith("WithOverflow"):
                return Agg(dty, None, r)
            if rv["op"] == "Cmp":
                d = a - b
                for c, nm in ((c_le(d + 1), 0), (c_eq(d), 1), (c_le(-d + 1), 2)):
                    if self.prove(st.F, c):
                        return Agg(dty, nm, ())
                raise Fork([(F, Agg(dty, nm, ())) for c, nm in ((c_le(d + 1), 0), (c_eq(d), 1), (c_le(-d + 1), 2))
                            for F in self.assume(st.F, c)])
            return r
        if k == "un":
            op = rv["op"]
            a = self.operand(st, fr, rv["a"])
            if op == "Not":
                if isinstance(a, (bool, tuple)):
                    return neg(a)
                w, s = self.P.int_info(dty)
                return self.bits_to_int([bnot(b) for b in lin_bits(a, w)], dty, st.F)
            if op == "Neg":
                return self.wrap(-a, dty, st.F)
            if op == "PtrMetadata":
                r = self.as_ref(a, None)
                if r.n is not None:
                    return r.n
                return Agg(dty, None, ())
            raise Unsupported("unop " + op)
        if k == "discr":
            r = self.place(st, fr, rv["pl"])
            v = self.load(st, r)
            return self.discr(v)
        if k == "cast":
            v = self.operand(st, fr, rv["o"])
            return self.cast(st, fr, rv["ck"], v, self.op_ty(fr, rv["o"]), rv["ty"])
        if k == "repeat":
            v = self.operand(st, fr, rv["o"])
            n = self.arr_len(self.T[dty])
            return Arr(self.T[dty]["e"], n, ("rep", v))
        raise Unsupported("rvalue " + k)

    def check_inv(self, st, fr, v):
        for i in range(len(v.f)):
            mx = self.inv.get((v.ty, i))
            if mx is None:
                continue
            if isinstance(v.f[i], Lin) and st.F.le0(v.f[i] - mx):
                self.inv_ok += 1
                continue
            if self.rec:
                # the object may be repaired or dropped before it escapes: judged at the boundary
                pass

    # ------------------------------------------------------------ execution
    def call_fn(self, st, inst, args, stack, span=None):
        """-> list of (state, value)"""
        x = self.I[inst]
        body = x.get("body")
        if body is None:
            raise Unsupported("no body " + x["name"])
        if len(stack) > 60:
            raise Unsupported("recursion")
        self.visited.add(inst)
        d = len(stack) + 1
        fr = Frame(inst, body, d, stack + ((inst, x.get("span")),))
        argc = body["argc"]
        sp = body.get("spread")
        if len(args) != argc and len(args) == 2 and isinstance(args[1], Agg):
            args = [args[0]] + list(args[1].f)
        if sp is not None and sp is not False and len(args) != argc:
            raise Unsupported("spread")
        if len(args) != argc:
            raise Unsupported(f"arity {x['name']} {len(args)} {argc}")
        for i, a in enumerate(args):
            st.mem[("L", d, i + 1)] = a
        return self.run_body(st, fr)

    def run_body(self, st, fr):
        outs = self.region(fr, {0: [st]}, None, None)
        res = []
        for s, v in outs["ret"]:
            for kk in [k for k in s.mem if k[0] == "L" and k[1] == fr.d]:
                del s.mem[kk]
            res.append((s, v))
        return self.merge_outs(res)

    def fkey(self, F):
        """with joining off only states with equal facts are merged"""
        if self.join:
            return None
        return (frozenset(F.cons), frozenset(F.ne), frozenset((a, frozenset(d)) for a, d in F.dom.items()),
                frozenset(F.bools.items()))

    def merge_outs(self, outs):
        if len(outs) < 2:
            return outs
        tab = {}
        for s, v in outs:
            key = (v, s.ctr, s.ks, s.taint, s.log, frozenset(s.mem.items()), self.fkey(s.F))
            o = tab.get(key)
            if o is None:
                tab[key] = (s, v)
            else:
                tab[key] = (o[0].with_F(facts_join(o[0].F, s.F)), v)
        return list(tab.values())

    def merge_states(self, sts):
        if len(sts) < 2:
            return sts
        tab = {}
        for s in sts:
            key = (s.ctr, s.ks, s.taint, s.log, frozenset(s.mem.items()), self.fkey(s.F))
            o = tab.get(key)
            tab[key] = s if o is None else o.with_F(facts_join(o.F, s.F))
        return list(tab.values())

    def rpo(self, body):
        r = body.get("_rpo")
        if r is None:
            succ = [self.P.succ(b) for b in body["bbs"]]
            seen, order = set(), []
            stack = [(0, iter(succ[0]))]
            seen.add(0)
            while stack:
                n, it = stack[-1]
                for m in it:
                    if m not in seen:
                        seen.add(m)
                        stack.append((m, iter(succ[m])))
                        break
                else:
                    order.append(n)
                    stack.pop()
            order.reverse()
            r = {b: i for i, b in enumerate(order)}
            body["_rpo"] = r
        return r

    def region(self, fr, entry, blocks, header):
        """run from entry states inside blocks; returns exits [(from,to,st)], backs, ret"""
        out = {"exit": [], "back": [], "ret": []}
        pend = {b: list(s) for b, s in entry.items()}
        rpo = self.rpo(fr.body)
        loops = self.P.loops(fr.body)
        first = header is not None
        import heapq
        heap = [(rpo.get(b, 1 << 30), b) for b in pend]
        heapq.heapify(heap)

        def push(src, b, s):
            if blocks is not None:
                if b == header:
                    out["back"].append(s)
                    return
                if b not in blocks:
                    out["exit"].append((src, b, s))
                    return
            if b not in pend:
                pend[b] = []
                heapq.heappush(heap, (rpo.get(b, 1 << 30), b))
            pend[b].append(s)

        while heap:
            _, b = heapq.heappop(heap)
            sts = pend.pop(b, None)
            if not sts:
                continue
            sts = self.merge_states(sts)
            if len(sts) > self.max_states:
                raise Unsupported(f"too many states in {self.I[fr.inst]['name']}")
            if b in loops and not (first and b == header):
                for s in sts:
                    self.do_loop(fr, b, s, push, out)
                continue
            if b == header:
                first = False
            for s in sts:
                self.block(fr, b, s, push, out)
        return out

    def block(self, fr, b, st, push, out):
        self.steps += 1
        if self.steps > self.budget:
            raise Unsupported("analysis budget")
        bb = fr.body["bbs"][b]
        work = [(0, st)]
        while work:
            i, st = work.pop()
            try:
                for j in range(i, len(bb["s"])):
                    try:
                        self.stmt(st, fr, bb["s"][j])
                    except Fork as f:
                        for F, v in reversed(f.alts):
                            s2 = st.with_F(F)
                            self.set_place(s2, fr, bb["s"][j]["pl"], v)
                            work.append((j + 1, s2))
                        break
                else:
                    self.term(st, fr, b, bb["t"], push, out)
            except Dead:
                continue

    def set_place(self, st, fr, pl, v):
        if not pl["p"]:
            st.mem[("L", fr.d, pl["l"])] = v
        else:
            self.assign(st, fr, pl, v)

    def stmt(self, st, fr, s):
        k = s["k"]
        if k == "as":
            pl = s["pl"]
            dty = self.place_ty(fr, pl)
            v = self.rvalue(st, fr, s["rv"], dty)
            self.set_place(st, fr, pl, v)
        elif k == "dead":
            st.mem.pop(("L", fr.d, s["l"]), None)
        elif k == "assume":
            c = self.operand(st, fr, s["o"])
            fs = self.assume(st.F, c)
            if not fs:
                raise Dead()
            if len(fs) == 1:
                st.F = fs[0]
        elif k == "setd":
            r = self.place(st, fr, s["pl"])
            v = self.load(st, r)
            if isinstance(v, Unk):
                self.store(st, r, self.expand(v, s["v"]))
            elif isinstance(v, Agg) and v.var == s["v"]:
                pass
            else:
                raise Unsupported("set discriminant")
        elif k == "cno":
            raise Unsupported("copy_nonoverlapping statement")
        else:
            raise Unsupported("stmt " + k)

    def assign(self, st, fr, pl, v):
        # initialising a field of a not-yet-initialised local
        obj = ("L", fr.d, pl["l"])
        if obj not in st.mem and pl["p"] and pl["p"][0] != "*":
            st.mem[obj] = self.mk_unk(fr.body["locals"][pl["l"]], ("uninit", pl["l"]))
        r = self.place(st, fr, pl)
        self.store(st, r, v)

    def term(self, st, fr, b, t, push, out):
        k = t["k"]
        if k == "goto":
            push(b, t["t"], st)
        elif k == "return":
            v = st.mem.get(("L", fr.d, 0))
            if v is None:
                ty = fr.body["locals"][0]
                v = self.const(st, fr, ty, {"zst": True})
            out["ret"].append((st, v))
        elif k == "switch":
            self.switch(st, fr, b, t, push)
        elif k == "assert":
            c = self.operand(st, fr, t["c"])
            if not t["e"]:
                c = neg(c)
            if self.rec:
                self.obl["assert"] += 1
            if self.prove(st.F, c):
                push(b, t["t"], st)
                return
            fr2 = self.at(fr, t)
            self.panic(fr2, t["m"], st)
            for F in self.assume(st.F, c):
                push(b, t["t"], st.with_F(F))
        elif k == "drop":
            for s in self.on_drop(st, fr, t):
                push(b, t["t"], s)
        elif k == "call":
            self.do_call(st, fr, b, t, push)
        elif k in ("unreachable", "resume"):
            return
        else:
            raise Unsupported("terminator " + k)

    def at(self, fr, t):
        f = Frame(fr.inst, fr.body, fr.d, fr.stack[:-1] + ((fr.inst, t.get("sp")),))
        return f

    def on_drop(self, st, fr, t):
        ty = t["ty"]
        if not self.drop_matters(ty):
            return [st]
        r = self.place(st, self.at(fr, t), t["pl"])
        try:
            return self.drop_value(st, self.at(fr, t), r, ty)
        except Dead:
            return []

    RES = ("std::process::Child", "std::net::TcpStream")

    def drop_matters(self, ty, seen=()):
        c = self.P.__dict__.setdefault("_dm", {})
        if ty in c:
            return c[ty]
        if ty in seen:
            return False
        t = self.T[ty]
        r = False
        if t["k"] == "adt":
            if any(t["path"].endswith(x) for x in self.RES) or self.drop_impl(ty) is not None:
                r = True
            elif not t["path"].startswith(("core::fmt", "std::")) :
                r = any(self.drop_matters(f["ty"], seen + (ty,)) for v in t["variants"] for f in v["fields"])
        elif t["k"] == "tuple":
            r = any(self.drop_matters(x, seen + (ty,)) for x in t["e"])
        elif t["k"] == "closure":
            r = any(self.drop_matters(x, seen + (ty,)) for x in t["up"])
        elif t["k"] == "array":
            r = self.drop_matters(t["e"], seen + (ty,))
        if not seen:
            c[ty] = r
        return r

    def drop_impl(self, ty):
        tab = self.P.__dict__.get("_dropimpls")
        if tab is None:
            tab = {}
            for i, x in enumerate(self.I):
                if x.get("body") and x.get("short") == "drop" and (x.get("trait") or "").endswith("ops::Drop") and \
                        x["crate"] in self.repo:
                    tab[x["implself"]] = i
            self.P._dropimpls = tab
        return tab.get(self.T[ty]["s"])

    def drop_value(self, st, fr, r, ty):
        t = self.T[ty]
        if not self.drop_matters(ty):
            return [st]
        v = self.load(st, r)
        sts = [st]
        if t["k"] == "adt":
            if any(t["path"].endswith(x) for x in self.RES):
                st.ev(("drop", t["path"].rsplit("::", 1)[-1], v))
                return [st]
            di = self.drop_impl(ty)
            if di is not None:
                sts = [s for s, _ in self.call_fn(st, di, [r], fr.stack)]
            if self.is_enum(ty):
                if isinstance(v, Agg):
                    vs = [v.var]
                else:
                    out = []
                    for s in sts:
                        for i, d in self.P.discrs(ty):
                            for F in self.assume(s.F, c_eq(self.discr(v) - d)):
                                out.append((s.with_F(F), i))
                    res = []
                    for s, i in out:
                        res += self.drop_fields(s, fr, Ref(r.obj, r.path + (("v", i),)), self.field_tys(ty, i))
                    return res
                out = []
                for s in sts:
                    out += self.drop_fields(s, fr, Ref(r.obj, r.path + (("v", vs[0]),)), self.field_tys(ty, vs[0]))
                return out
            out = []
            for s in sts:
                out += self.drop_fields(s, fr, r, self.field_tys(ty))
            return out
        if t["k"] in ("tuple", "closure"):
            return self.drop_fields(st, fr, r, self.field_tys(ty))
        return [st]

    def drop_fields(self, st, fr, r, tys):
        sts = [st]
        for i, ft in enumerate(tys):
            if self.drop_matters(ft):
                sts = [q for s in sts for q in self.drop_value(s, fr, Ref(r.obj, r.path + (("f", i),)), ft)]
        return sts

    def switch(self, st, fr, b, t, push):
        v = self.operand(st, fr, t["o"])
        if isinstance(v, (bool, tuple)):
            for val, tgt in t["v"]:
                c = neg(v) if val == 0 else v
                for F in self.assume(st.F, c):
                    push(b, tgt, st.with_F(F))
            done = {x[0] for x in t["v"]}
            c = v
            if done == {0}:
                rest = v
            elif done == {1}:
                rest = neg(v)
            else:
                return
            for F in self.assume(st.F, rest):
                push(b, t["else"], st.with_F(F))
            return
        if not isinstance(v, Lin):
            raise Unsupported("switch on " + repr(v)[:60])
        oty = self.op_ty(fr, t["o"])
        signed = self.P.is_int(oty) and self.P.int_info(oty)[1]
        w = self.P.int_info(oty)[0] if self.P.is_int(oty) else 64
        v = self.known_bits(v, st.F)
        if v.const is not None:
            for val, tgt in t["v"]:
                if signed and val >= 1 << (w - 1):
                    val -= 1 << w
                if val == v.const:
                    push(b, tgt, st)
                    return
            push(b, t["else"], st)
            return
        # a 0/1 value standing for a condition
        s = v.single()
        if s is not None and s.key[0] == "cond":
            c = s.key[1]
            F0 = [st.F]
            for val, tgt in t["v"]:
                cc = c if val == 1 else neg(c) if val == 0 else False
                for F in self.assume(st.F, cc):
                    push(b, tgt, st.with_F(F))
            done = {x[0] for x in t["v"]}
            for val in {0, 1} - done:
                for F in self.assume(st.F, c if val else neg(c)):
                    push(b, t["else"], st.with_F(F))
            return
        rest = [st.F]
        for val, tgt in t["v"]:
            if signed and val >= 1 << (w - 1):
                val -= 1 << w
            for F in self.assume(st.F, ("eq", v - val)):
                push(b, tgt, st.with_F(F))
            nr = []
            for F in rest:
                nr += self.assume(F, ("ne", v - val))
            rest = nr
        tb = fr.body["bbs"][t["else"]]
        if tb["t"]["k"] == "unreachable" and not tb["s"]:
            return
        for F in rest:
            push(b, t["else"], st.with_F(F))

    # ------------------------------------------------------------ calls
    def do_call(self, st, fr, b, t, push):
        args = [self.operand(st, fr, o) for o in t["a"]]
        atys = [self.op_ty(fr, o) for o in t["a"]]
        dty = self.place_ty(fr, t["d"])
        f2 = self.at(fr, t)
        outs = self.call(st, f2, t["f"], args, atys, dty)
        tgt = t.get("t")
        if tgt is None:
            return
        for s, v in outs:
            try:
                if not t["d"]["p"]:
                    s.mem[("L", fr.d, t["d"]["l"])] = v
                else:
                    self.assign(s, fr, t["d"], v)
            except Dead:
                continue
            push(b, tgt, s)

    def call(self, st, fr, f, args, atys, dty):
        """callee dispatch -> [(state, value)]"""
        if "py" in f:
            return f["py"](self, st, fr, args, atys, dty)
        if "ptr" in f:
            v = self.operand(st, fr, f["ptr"])
            return self.call_value(st, fr, v, args, atys, dty)
        for h in self.hooks:
            r = h(self, st, fr, f, args, atys, dty)
            if r is not None:
                return r
        if "u" in f:
            return self.unresolved(st, fr, f["u"], args, atys, dty)
        i = f["i"]
        x = self.I[i]
        m = self.models.lookup(x)
        if m is not None:
            r = m(self, st, fr, x, args, atys, dty)
            if r is not None:
                return r
        if x.get("body") is not None:
            if x["name"].endswith("}") and len(args) == 2 and len(atys) == 2 and self.T[atys[1]]["k"] == "tuple" \
                    and self.is_closure(atys[0]):
                # closures are called with their arguments as one tuple
                a = self.expand(args[1]) if isinstance(args[1], Unk) else args[1]
                args = [args[0]] + list(a.f)
            outs = self.call_fn(st, i, args, fr.stack)
            if self.err_events and x["crate"] in self.repo and self.T[dty]["k"] == "adt" and self.T[dty]["path"].endswith("result::Result") \
                    and any(self.T[a]["k"] == "ref" and self.T[a].get("mut") for a in atys):
                for s, v in outs:
                    if isinstance(v, Agg) and v.var == 1:
                        s.ev(("ERR", x["path"], self.at_line(fr)))
            return outs
        return self.opaque(st, fr, x["path"], args, atys, dty, x)

    def at_line(self, fr):
        return self.where(fr)[1] if fr.stack else None

    def is_closure(self, ty):
        t = self.T[ty]
        while t["k"] == "ref":
            t = self.T[t["to"]]
        return t["k"] == "closure"

    def call_value(self, st, fr, v, args, atys, dty):
        """call a function value / closure"""
        if isinstance(v, FnV):
            c = v.callee
            if isinstance(c, dict):
                return self.call(st, fr, c, args, atys, dty)
        raise Unsupported("call of unknown function value")

    def opaque(self, st, fr, name, args, atys, dty, x=None):
        self.taint(fr, st, "opaque call " + name)
        return self.havoc_call(st, fr, name, args, atys, dty)

    def unresolved(self, st, fr, u, args, atys, dty):
        if (u.get("trait") or "").endswith("Limits") and self.P.is_int(dty):
            # sizes reported by a platform's limits stay below 2^32
            return [(st, L(mk_atom(("N", u["path"], tuple(map(repr, args))), 0, 1 << 32)))]
        self.taint(fr, st, "unresolved call " + u["path"])
        return self.havoc_call(st, fr, u["path"], args, atys, dty)

    def havoc_call(self, st, fr, name, args, atys, dty, ev=True):
        o = st.fresh(name)
        self.rets[o] = dty
        if ev:
            if self.snap:
                sn = []
                for a in args:
                    try:
                        sn.append(self.load(st, a) if isinstance(a, Ref) else a)
                    except Exception:
                        sn.append(None)
                st.ev(("call", name, tuple(args), o, tuple(sn)))
            else:
                st.ev(("call", name, tuple(args), o))
        for a, ty in zip(args, atys):
            t = self.T[ty]
            if t["k"] in ("ref", "ptr") and t.get("mut") and isinstance(a, Ref):
                self.havoc_ref(st, a, t["to"], o)
        if self.P.uninhabited(dty):
            return []
        return [(st, self.mk_unk(dty, o))]

    def havoc_ref(self, st, a, to, o):
        if a.s is not None:
            self.write_seg(st, a, ZERO, a.n, ("unk", (o, a.obj), ZERO))
        else:
            self.store(st, a, self.mk_unk(to, (o, a.obj, a.path)))

    # ------------------------------------------------------------ loops
    def static_exits(self, body, blocks):
        r = set()
        for b in blocks:
            for m in self.P.succ(body["bbs"][b]):
                if m not in blocks:
                    tb = body["bbs"][m]
                    if tb["t"]["k"] == "unreachable" and not tb["s"]:
                        continue
                    r.add((b, m))
        return r

    def do_loop(self, fr, h, st, push, out):
        blocks = self.P.loops(fr.body)[h]
        gen = None
        cur = st
        curs = [st]
        pend = []         # (from,to,state) exits of unrolled iterations
        rets = []
        saved = self.snapshot()
        for it in range(self.unroll + 1):
            if gen is None or gen == {"?"}:
                rec = self.rec
                self.rec = False
                try:
                    g = self.generalise(fr, h, cur, blocks, probe=True)
                    gen = {(a, b) for a, b, _ in g["exit"]} | ({"ret"} if g["ret"] else set())
                except Unsupported:
                    gen = {"?"}
                finally:
                    self.rec = rec
            r = self.region(fr, {h: [c.copy() for c in curs]}, blocks, h)
            feas = {(a, b) for a, b, _ in r["exit"]} | ({"ret"} if r["ret"] else set())
            backs = self.merge_states(r["back"])
            if not backs:
                pend += r["exit"]
                rets += r["ret"]
                break
            if len(backs) > self.many or gen <= feas or it == self.unroll:
                # not determinate: one generic iteration covers all
                if it == self.unroll or len(curs) > 1:
                    self.restore(saved)
                    pend, rets, cur = [], [], st
                g = self.generalise(fr, h, cur, blocks)
                pend += g["exit"]
                rets += g["ret"]
                break
            pend += r["exit"]
            rets += r["ret"]
            cur, curs = backs[0], backs
        for a, b, s in pend:
            push(a, b, s)
        out["ret"] += rets

    def narrowings(self):
        """(function, from, to) -> occurrences of casts that lose bits. A value taken apart into its bytes
        loses nothing: every bit one cast drops is kept by another cast of the same function"""
        out = {}
        for (fn, a, b), occ in self.lossy.items():
            kept = self.kept.get(fn, ())
            for o in occ:
                v = o[1]
                bits = lin_bits(v, o[3]) if isinstance(v, Lin) else None
                if bits is None or any(not isinstance(x, int) and x not in kept for x in bits):
                    out.setdefault((fn, a, b), []).append(o)
        return out

    def snapshot(self):
        return (dict(self.panics), dict(self.lossy), dict(self.taints), dict(self.inv_viol))

    def restore(self, s):
        self.panics, self.lossy, self.taints, self.inv_viol = (dict(x) for x in s)

    # generalisation -----------------------------------------------------
    def generalise(self, fr, h, st, blocks, probe=False):
        base_ctr = st.ctr + 1
        kk = mk_atom(("k", fr.d, h, base_ctr, st.ks), 0, (1 << 62))
        k = L(kk)
        G = Gen(self, fr, h, st, blocks, kk)
        rec = self.rec
        self.rec = False
        try:
            G.solve()
        finally:
            self.rec = rec
        if probe:
            return G.last
        return G.final()


class Gen:
    def __init__(self, eng, fr, h, st, blocks, kk):
        self.e, self.fr, self.h, self.st, self.blocks, self.kk = eng, fr, h, st, blocks, kk
        self.k = L(kk)
        self.leaves = {}       # id -> dict(entry, ty-range, mode, delta)
        self.g = dict(st.mem)
        self.cands = []
        self.nid = 0
        self.last = None

    # ---- leaf atoms
    def phi(self, entry, rng):
        self.nid += 1
        a = mk_atom(("phi", self.kk.key, self.nid), rng[0], rng[1])
        # several loops may reuse the key with other ranges: intern per range
        if (a.lo, a.hi) != tuple(rng):
            a = mk_atom(("phi", self.kk.key, self.nid, rng), rng[0], rng[1])
        self.leaves[a.id] = {"entry": entry, "mode": "phi", "atom": a, "rng": rng}
        return L(a)

    def expr(self, aid):
        l = self.leaves[aid]
        if l["mode"] == "phi":
            return L(l["atom"])
        if l["mode"] == "sum":
            return l["entry"] + sum_atom(l["delta"], self.k)
        if l["mode"] == "nsum":
            return l["entry"] - sum_atom(l["delta"], self.k)
        return None

    def sub_map(self):
        return {aid: self.expr(aid) for aid, l in self.leaves.items() if l["mode"] != "phi"}

    def inst(self, v, m):
        """apply the current hypotheses to a generalised value"""
        if isinstance(v, PhiArr):
            return v.inst(self, m)
        if isinstance(v, Agg):
            if not any(has_phi(x) for x in v.f):
                return subst(v, m) if m else v
            return Agg(v.ty, v.var, [self.inst(x, m) for x in v.f])
        return subst(v, m) if m else v

    def header(self):
        m = self.sub_map()
        s = self.st.copy()
        s.mem = {o: self.inst(v, m) for o, v in self.g.items()}
        s.ks = self.st.ks + (self.k,)
        s.ctr = self.st.ctr + 1
        F = s.F
        # ranges of the substituted leaves, invariants
        for aid, l in self.leaves.items():
            if l["mode"] != "phi":
                x = self.expr(aid)
                lo, hi = l["rng"]
                for c in ((-x + lo) if lo is not None else None, (x - hi) if hi is not None else None):
                    if c is not None and F is not None:
                        F = F.add_le(c)
        for c in self.cands:
            if F is not None:
                F = F.add_le(subst(c, m))
        s.F = F
        return s

    def run(self):
        s = self.header()
        self.star = Star(self.kk)
        if s.F is None:
            return {"exit": [], "back": [], "ret": []}, None
        s.log = (s.log, ("star", self.star, self.k))
        hl = s.log
        self.hF = s.F
        self.hmem = dict(s.mem)
        self.hlog = hl
        r = self.e.region(self.fr, {self.h: [s]}, self.blocks, self.h)
        self.last = r
        return r, hl

    def solve(self):
        e = self.e
        tried = set()
        # phase 1: structural stabilisation
        for rnd in range(40):
            r, hl = self.run()
            changed = False
            for b in r["back"]:
                if self.absorb(b):
                    changed = True
            if changed:
                continue
            # all backs match the shape; strengthen
            if self.strengthen(r):
                continue
            break
        else:
            raise Unsupported("loop does not stabilise")
        # phase 2: inequality invariants (candidates dropped until inductive)
        self.cands = self.candidates(r)
        ini = []
        m0 = {aid: l["entry"] for aid, l in self.leaves.items()}
        m0[self.kk.id] = ZERO
        for c in self.cands:
            if self.st.F.le0(self.at0(c)):
                ini.append(c)
        self.cands = ini
        for rnd in range(25):
            r, hl = self.run()
            bad = set()
            ok = True
            for b in r["back"]:
                vals = self.back_vals(b)
                if vals is None:
                    ok = False
                    break
                for i, c in enumerate(self.cands):
                    if i in bad:
                        continue
                    if not b.F.le0(self.at_next(c, vals)):
                        bad.add(i)
            if ok and bad:
                # candidates that are not inductive must not shape the state
                self.cands = [c for i, c in enumerate(self.cands) if i not in bad]
                continue
            if ok:
                for b in r["back"]:
                    if self.absorb(b):
                        ok = False
                        break
            if not ok:
                # the invariants exposed another shape: restart without candidates
                self.cands = []
                return self.solve_again()
            break
        return

    depth = 0

    def solve_again(self):
        self.depth += 1
        if self.depth > 3:
            raise Unsupported("loop generalisation")
        return self.solve()

    def final(self):
        r, hl = self.run()
        for b in r["back"]:
            ev = []
            l = b.log
            while l is not None and l is not hl:
                ev.append(l[1])
                l = l[0]
            ev.reverse()
            self.star.bodies.append((tuple(ev), b))
        # loop-local marker of the iteration is dropped on exit
        for lst in (r["exit"],):
            for _, _, s in lst:
                s.ks = self.st.ks
        for s, _ in r["ret"]:
            s.ks = self.st.ks
        return r

    def at0(self, c):
        m = {}
        for aid, l in self.leaves.items():
            m[aid] = l["entry"]
        return subst(subst(c, m), {self.kk.id: ZERO})

    def at_next(self, c, vals):
        """candidate c (over leaf atoms and k) at the next header visit"""
        m = {}
        for aid, l in self.leaves.items():
            m[aid] = vals[aid]
        m[self.kk.id] = self.k + 1
        return subst_shallow(c, m)

    def back_vals(self, b):
        m = {}
        for o, gv in self.g.items():
            bv = b.mem.get(o)
            if bv is None:
                continue
            if not self.collect(gv, bv, m, b.F):
                return None
        for aid in self.leaves:
            if aid not in m:
                m[aid] = self.expr(aid)
        return m

    # ---- matching / generalising
    def collect(self, g, b, m, F):
        if isinstance(g, Lin):
            s = g.single()
            if s is not None and s.id in self.leaves:
                if s.id in m and m[s.id] != b:
                    return False
                m[s.id] = b
            return True
        if isinstance(g, Agg) and isinstance(b, Agg):
            return all(self.collect(x, y, m, F) for x, y in zip(g.f, b.f))
        if isinstance(g, Ref) and isinstance(b, Ref):
            for p, q in zip(g.path, b.path):
                for x, y in zip(p[1:], q[1:]):
                    if isinstance(x, Lin):
                        self.collect(x, y, m, F)
            if g.s is not None:
                return self.collect(g.s, b.s, m, F) and self.collect(g.n, b.n, m, F)
            return True
        if isinstance(g, ItV) and isinstance(b, ItV):
            return self.collect(g.ref, b.ref, m, F) and self.collect(g.pos, b.pos, m, F) and self.collect(g.end, b.end, m, F)
        return True

    def absorb(self, b):
        """generalise self.g so that back state b matches; True if it changed"""
        changed = False
        for o in list(b.mem):
            if o not in self.g:
                if o[0] == "ext":
                    self.g[o] = self.e.ext_init(o)
                elif o[0] == "C":
                    self.g[o] = b.mem[o]
        m = self.sub_map()
        for o in list(self.g):
            bv = b.mem.get(o)
            gv = self.g[o]
            if bv is None:
                if o[0] == "L" and not isinstance(gv, PhiArr):
                    # dead on the way back: drop from the header
                    del self.g[o]
                    changed = True
                continue
            oty = None
            if o[0] == "L" and o[1] == self.fr.d:
                oty = self.fr.body["locals"][o[2]]
            elif o[0] == "ext":
                oty = o[2]
            n = self.gen(gv, bv, m, b.F, oty)
            if n is not gv:
                self.g[o] = n
                changed = True
        return changed

    def gen(self, g, b, m, F, ty):
        """returns g itself if b is an instance of g (under hypotheses for k+1), else a more general"""
        e = self.e
        if isinstance(g, PhiArr):
            return g.absorb(self, b, F)
        if isinstance(g, Lin):
            s = g.single()
            if s is not None and s.id in self.leaves:
                l = self.leaves[s.id]
                if l["mode"] == "phi":
                    if isinstance(b, Lin):
                        return g
                    raise Unsupported("leaf type change")
                want = self.next_of(s.id)
                if isinstance(b, Lin) and (b == want or F.eq0(b - want)):
                    return g
                # hypothesis fails: back to an unconstrained value
                l["mode"] = "phi"
                l["failed"] = True
                return self.touch(g)
            if isinstance(b, Lin):
                if b == g or F.eq0(b - g):
                    return g
                return self.phi(g, self.e.P.int_range(ty) if ty is not None and self.e.P.is_int(ty)
                                else self.range_of(g, b))
            raise Unsupported("leaf type change")
        if g == b:
            return g
        if isinstance(g, (bool, tuple)) and isinstance(b, (bool, tuple)):
            if isinstance(g, tuple) and g[0] == "b" and isinstance(g[1], tuple) and g[1][0] == "phib":
                return g
            self.nid += 1
            return ("b", ("phib", self.kk.key, self.nid), True)
        if isinstance(g, Agg) and isinstance(b, Agg) and g.ty == b.ty and g.var == b.var:
            try:
                tys = e.field_tys(g.ty, g.var)
            except Unsupported:
                tys = [None] * len(g.f)
            f = [self.gen(x, y, m, F, t) for x, y, t in zip(g.f, b.f, list(tys) + [None] * len(g.f))]
            if all(x is y for x, y in zip(f, g.f)):
                return g
            return Agg(g.ty, g.var, f)
        if isinstance(g, Unk) and isinstance(b, Agg) and g.ty == b.ty and not e.is_enum(g.ty):
            if isinstance(g.o, tuple) and g.o[0] == "phiu":
                return g
            return self.gen(e.expand(g), b, m, F, ty)
        if isinstance(g, Agg) and isinstance(b, Unk) and g.ty == b.ty and g.var is None:
            return self.gen(g, e.expand(b), m, F, ty)
        if isinstance(g, (Agg, Unk)) and isinstance(b, (Agg, Unk)) and g.ty == b.ty:
            if isinstance(g, Unk) and isinstance(g.o, tuple) and g.o[0] == "phiu":
                return g
            self.nid += 1
            return Unk(g.ty, ("phiu", self.kk.key, self.nid, self.k))
        if isinstance(g, Ref) and isinstance(b, Ref) and g.obj == b.obj and len(g.path) == len(b.path) and \
                (g.s is None) == (b.s is None):
            path = []
            for p, q in zip(g.path, b.path):
                if p[0] != q[0] or len(p) != len(q):
                    raise Unsupported("loop-varying pointer")
                el = [p[0]]
                for x, y in zip(p[1:], q[1:]):
                    if isinstance(x, Lin):
                        el.append(self.gen(x, y, m, F, None))
                    elif x == y:
                        el.append(x)
                    else:
                        raise Unsupported("loop-varying pointer")
                path.append(tuple(el))
            s = g.s if g.s is None else self.gen(g.s, b.s, m, F, None)
            n = g.n if g.n is None else self.gen(g.n, b.n, m, F, None)
            if tuple(path) == g.path and s is g.s and n is g.n:
                return g
            return Ref(g.obj, tuple(path), s, n)
        if isinstance(g, ItV) and isinstance(b, ItV):
            r = self.gen(g.ref, b.ref, m, F, None)
            p = self.gen(g.pos, b.pos, m, F, None)
            q = self.gen(g.end, b.end, m, F, None)
            if r is g.ref and p is g.pos and q is g.end:
                return g
            return ItV(g.ty, r, p, q)
        if isinstance(g, Arr) and isinstance(b, Arr):
            return PhiArr(self, g)
        raise Unsupported(f"loop-varying value {type(g).__name__}/{type(b).__name__}")

    def touch(self, g):
        # a distinct object so that the caller sees a change
        return Lin(g.t, g.c)

    def range_of(self, g, b):
        # integer leaves are machine integers; without type information use the widest usual range,
        # refined by both sides being nonnegative
        F = self.st.F
        return (0, (1 << 64) - 1) if (F.lo(g) or 0) >= 0 else (-(1 << 63), (1 << 64) - 1)

    def next_of(self, aid):
        l = self.leaves[aid]
        sg = 1 if l["mode"] == "sum" else -1
        d = subst(l["delta"], {kph().id: self.k})
        return self.expr(aid) + d.scale(sg)

    def strengthen(self, r):
        """try to replace unconstrained leaves by closed forms"""
        e = self.e
        changed = False
        backs = r["back"]
        if not backs:
            return False
        allv = [self.back_vals(b) for b in backs]
        if any(v is None for v in allv):
            return False
        open_ids = {aid for aid, l in self.leaves.items() if l["mode"] == "phi"}
        for aid in sorted(open_ids):
            l = self.leaves[aid]
            if l.get("failed"):
                continue
            ds = [v[aid] - L(l["atom"]) for v in allv]
            if any(d != ds[0] for d in ds):
                continue
            d = ds[0]
            if any(mentions(d, o) for o in open_ids):
                continue
            if self.depends_fresh(d, r):
                pass
            neg_ = False
            if d.const is not None and d.const < 0:
                l["mode"], l["delta"] = "nsum", -d
                changed = True
                continue
            if d.const is None and all(k < 0 for _, k in d.t) and d.c <= 0:
                d, neg_ = -d, True
            dk = subst(d, {self.kk.id: L(kph())})
            l["mode"], l["delta"] = ("nsum" if neg_ else "sum"), dk
            changed = True
        if changed:
            return True
        # hints: positions of existing repeated encodings
        for aid in sorted(open_ids):
            l = self.leaves[aid]
            if l.get("hinted"):
                continue
            l["hinted"] = True
            for st_, sn_, d in self.star_hints():
                if self.st.F.eq0(st_ - l["entry"]) and not l.get("failed"):
                    l["mode"], l["delta"] = "sum", d
                    # companions: remaining lengths shrink by the same amount
                    for bid in sorted(open_ids):
                        if bid != aid and all((v[aid] - L(l["atom"]) + v[bid] - L(self.leaves[bid]["atom"])).const == 0
                                              for v in allv):
                            self.leaves[bid]["mode"], self.leaves[bid]["delta"] = "nsum", d
                            self.leaves[bid]["hinted"] = True
                    return True
        for o, gv in self.g.items():
            if self.strengthen_arr(gv, [b.mem.get(o) for b in backs]):
                return True
        return False

    def star_hints(self):
        out = []

        def walk(x):
            if isinstance(x, Arr):
                for s, n, c in x.segs:
                    if c[0] == "star":
                        out.append((s, n, c[1]))
                    if c[0] == "copy":
                        walk(c[1])
                if x.base[0] == "copy":
                    walk(x.base[1])
            elif isinstance(x, Agg):
                for y in x.f:
                    walk(y)
        for v in self.st.mem.values():
            walk(v)
        return out

    def depends_fresh(self, d, r):
        return False

    def strengthen_arr(self, gv, bvs):
        if isinstance(gv, PhiArr):
            return gv.strengthen(self, bvs)
        if isinstance(gv, Agg):
            for i, x in enumerate(gv.f):
                ys = []
                for b in bvs:
                    ys.append(b.f[i] if isinstance(b, Agg) and i < len(b.f) else None)
                if self.strengthen_arr(x, ys):
                    return True
        return False

    def candidates(self, r):
        out = []
        seen = set()
        st = self.st
        fixed = []
        for v in self.g.values():
            lst = []
            if isinstance(v, (Ref, ItV, Agg)):
                lins_in(v, lst)
            elif isinstance(v, Lin):
                lst = [v]
            for l in lst:
                if l not in fixed and not any(a in self.leaves for a, _ in l.t) and not mentions(l, self.kk.id):
                    fixed.append(l)

        def add(c):
            if c.t and c not in seen:
                seen.add(c)
                out.append(c)
        ids = sorted(self.leaves)
        for aid in ids:
            x = L(self.leaves[aid]["atom"])
            en = self.leaves[aid]["entry"]
            add(x - en)
            add(en - x)
            for f in fixed[:24]:
                add(x - f)
                add(f - x)
        for i, a in enumerate(ids):
            for b in ids[i + 1:]:
                x, y = L(self.leaves[a]["atom"]), L(self.leaves[b]["atom"])
                ea, eb = self.leaves[a]["entry"], self.leaves[b]["entry"]
                for c in (x + y - ea - eb, x - y - ea + eb):
                    add(c)
                    add(-c)
                if len(ids) <= 6:
                    add(x - y)
                    add(y - x)
        # guard driven: facts of the back edge rewritten over the next values
        for b in r["back"]:
            vals = self.back_vals(b)
            if vals is None:
                continue
            for c in b.F.cons:
                if c in self.st.F.cons:
                    continue
                for aid in ids:
                    v = vals[aid]
                    for j in (1, -1):
                        c2 = c + (L(self.leaves[aid]["atom"]) - v).scale(j)
                        # all remaining atoms must be loop-invariant
                        if all(a == aid or self.invariant(a) for a, _ in c2.t):
                            add(c2)
        return out[:160]

    def invariant(self, a):
        if a in self.leaves or a == self.kk.id:
            return False
        key = ATOMS[a].key
        if mentions(key, self.kk.id) or any(mentions(key, x) for x in self.leaves):
            return False
        # created inside the iteration?
        return not fresh_after(key, self.st.ctr, self.st.ks + (self.k,))


def fresh_after(key, ctr, ks):
    if isinstance(key, tuple):
        if len(key) == 4 and key[0] == "ev":
            return key[1] > ctr and key[2] == ks
        return any(fresh_after(x, ctr, ks) for x in key)
    if isinstance(key, Lin):
        return any(fresh_after(ATOMS[a].key, ctr, ks) for a, _ in key.t)
    if isinstance(key, V):
        return any(fresh_after(x, ctr, ks) for x in key.key() if not isinstance(x, int)) if not isinstance(key, FnV) else False
    return False


def subst_shallow(c, m):
    return subst(c, m)


def has_phi(x):
    if isinstance(x, PhiArr):
        return True
    if isinstance(x, Agg):
        return any(has_phi(y) for y in x.f)
    return False


class PhiArr:
    """array modified by the loop. mode 'opq': unknown contents; mode 'star': entry contents plus
    a repeated segment that grows by one item per iteration; mode 'blob': likewise, the contents of that segment unknown"""

    def __init__(self, G, entry):
        self.entry = entry
        G.nid += 1
        self.id = G.nid
        self.mode = "opq"
        self.failed = False

    def inst(self, G, m):
        a = self.entry
        if self.mode == "opq":
            return Arr(a.ety, a.n, ("unk", ("phia", G.kk.key, self.id, G.k), ZERO))
        s0, delta, items = self.star
        if self.mode == "blob":
            return Arr(a.ety, a.n, a.base, a.segs + ((s0, sum_atom(delta, G.k), ("unk", ("phia", G.kk.key, self.id, G.k), ZERO)),))
        return Arr(a.ety, a.n, a.base, a.segs + ((s0, sum_atom(delta, G.k), ("star", delta, items)),))

    def absorb(self, G, b, F):
        if self.mode == "opq":
            return self
        g = self.inst(G, None)
        new = self.new_segs(g, b)
        if self.mode == "blob" and new is not None:
            # only the region is known: one contiguous stretch behind the previous ones
            s0, delta, _ = self.star
            p = off = s0 + sum_atom(delta, G.k)
            for s, n, c in new:
                if s != p and not F.eq0(s - p):
                    break
                p = s + n
            else:
                if not new or F.eq0(p - off - subst(delta, {kph().id: G.k})):
                    return self
            new = None
        if new is not None:
            if not new:
                pass
            else:
                s0, delta, items = self.star
                off = s0 + sum_atom(delta, G.k)
                want = tuple((off + subst(s, {kph().id: G.k}), subst(n, {kph().id: G.k}), subst(c, {kph().id: G.k}))
                             for s, n, c in items)
                if len(want) == len(new) and all(
                        (x[0] == y[0] or F.eq0(x[0] - y[0])) and (x[1] == y[1] or F.eq0(x[1] - y[1])) and x[2] == y[2]
                        for x, y in zip(want, new)):
                    return self
        self.mode = "opq"
        self.failed = True
        p = PhiArr(G, self.entry)
        p.failed = True
        return p

    def new_segs(self, g, b):
        """segments appended to g to get b"""
        if b.base != g.base or len(b.segs) < len(g.segs):
            return None
        if b.segs[:len(g.segs)] != g.segs:
            return None
        return b.segs[len(g.segs):]

    def strengthen(self, G, bvs):
        if self.mode != "opq" or self.failed:
            return False
        g = self.inst(G, None)
        if any(b is None or not isinstance(b, Arr) for b in bvs):
            return False
        segs = [self.new_segs(g, b) for b in bvs]
        if any(s is None or s != segs[0] for s in segs) or not segs[0]:
            self.failed = True
            return False
        new = segs[0]
        # contiguous?
        F = G.hF
        start = new[0][0]
        p = start
        items = []
        for s, n, c in new:
            if s != p and not F.eq0(s - p):
                self.failed = True
                return False
            items.append((s - start, n, c))
            p = s + n
        delta = p - start
        sub = {G.kk.id: L(kph())}
        dk = subst(delta, sub)
        if any(mentions(dk, o) for o in G.leaves if G.leaves[o]["mode"] == "phi"):
            return False
        # start must be entry + sum(delta, k)
        off = start - sum_atom(dk, G.k)
        if mentions(off, G.kk.id) or any(mentions(off, o) for o in G.leaves):
            self.failed = True
            return False
        self.star = (off, dk, tuple((subst(s, sub), subst(n, sub), subst(c, sub)) for s, n, c in items))
        self.mode = "blob" if any(mentions(self.star[2], o) for o in G.leaves) else "star"
        return True
