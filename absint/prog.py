"""Loads one crate's MIR dump and precomputes CFG structure."""
import json
import re


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.crate = d["crate"]
        self.T = d["types"]
        self.I = d["insts"]
        self.roots = [r["i"] if isinstance(r, dict) else r for r in d["roots"]]
        self.by_name = {}
        for i, x in enumerate(self.I):
            self.by_name.setdefault(x["name"], i)
        self._loops = {}
        self._unit = None
        self._s2ty = {}
        for i, t in enumerate(self.T):
            self._s2ty.setdefault(t["s"], i)

    def ty(self, s):
        return self._s2ty.get(s)

    def unit(self):
        return self._s2ty.get("()", -1)

    # ----- type helpers
    def is_int(self, ty):
        t = self.T[ty]
        return t["k"] in ("int", "char") or (t["k"] == "adt" and t["path"].endswith("num::NonZero"))

    def int_info(self, ty):
        """(bits, signed)"""
        t = self.T[ty]
        if t["k"] == "char":
            return 32, False
        if t["k"] == "adt":
            w, s = self.int_info(t["args"][0])
            return w, s
        if t["k"] == "bool":
            return 1, False
        return t["w"], t["s"].startswith("i")

    def int_range(self, ty):
        t = self.T[ty]
        w, s = self.int_info(ty)
        if s:
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        lo = 1 if t["k"] == "adt" else 0
        return lo, (1 << w) - 1

    def uninhabited(self, ty, depth=0):
        t = self.T[ty]
        if t["k"] == "never":
            return True
        if depth > 4:
            return False
        if t["k"] == "adt":
            if t["ak"] == "enum" and not t["variants"]:
                return True
            if t["ak"] == "struct" and t["variants"]:
                return any(self.uninhabited(f["ty"], depth + 1) for f in t["variants"][0]["fields"])
            if t["ak"] == "enum":
                return all(any(self.uninhabited(f["ty"], depth + 1) for f in v["fields"]) for v in t["variants"])
        if t["k"] == "tuple":
            return any(self.uninhabited(e, depth + 1) for e in t["e"])
        return False

    def discrs(self, ty):
        t = self.T[ty]
        out = []
        for i, v in enumerate(t["variants"]):
            if any(self.uninhabited(f["ty"]) for f in v["fields"]):
                continue
            d = v["discr"]
            out.append((i, i if d is None else d))
        return out

    # ----- CFG
    def succ(self, bb):
        t = bb["t"]
        k = t["k"]
        if k == "goto":
            return [t["t"]]
        if k == "switch":
            return [x[1] for x in t["v"]] + [t["else"]]
        if k in ("call", "assert", "drop"):
            return [t["t"]] if t.get("t") is not None else []
        return []

    def loops(self, body):
        """header -> set of blocks (natural loops, merged per header)"""
        key = id(body)
        r = self._loops.get(key)
        if r is not None:
            return r
        bbs = body["bbs"]
        succ = [self.succ(b) for b in bbs]
        seen, order, back = {}, [], []
        stack = [(0, iter(succ[0]))]
        seen[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen:
                    seen[m] = 1
                    stack.append((m, iter(succ[m])))
                    break
                elif seen[m] == 1:
                    back.append((n, m))
            else:
                seen[n] = 2
                order.append(n)
                stack.pop()
        pred = {}
        for n in order:
            for m in succ[n]:
                pred.setdefault(m, []).append(n)
        loops = {}
        for n, h in back:
            s = loops.setdefault(h, {h})
            work = [n]
            while work:
                x = work.pop()
                if x in s:
                    continue
                s.add(x)
                work.extend(pred.get(x, []))
        self._loops[key] = loops
        return loops


def base_ident(name):
    return re.sub(r"<.*", "", name)
