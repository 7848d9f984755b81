"""Seeded generation of sessions (programs over the expression language and
histories of operations on them).  What a session should do is decided by the
specification alone; this module only chooses inputs."""
import random

P = 32749
SORTS = "SABMNQRLTKW"
DIMS = {"S": [], "A": [2], "B": [3], "M": [2, 3], "N": [3, 2], "Q": [2, 2], "R": [3, 3], "T": [2], "K": [2, 1, 3], "W": [1, 4]}
FIXED = "SABMNQRTKW"
POLY = ["addone", "subone", "onesub", "square", "double", "neg"]
ORDER = {"abs": 2, "sign": 1, "gamma": 1, "lgamma": 1, "dirac": 0, "digamma": 0, "erf": 0, "cosh": 0, "acos": 0,
         "acosh": 0, "sinh": 0, "asin": 0, "asinh": 0, "tan": 0, "tanh": 0, "atan": 0, "atanh": 0}
SMOOTH = POLY + ["ln", "xlnx", "exp", "rabbit", "sigmoid", "cos", "sin"]
MID = SMOOTH + ["abs", "sign", "dirac", "gamma", "lgamma", "digamma", "erf"]
ALL = MID + ["cosh", "acos", "acosh", "sinh", "asin", "asinh", "tan", "tanh", "atan", "atanh"]
UN = {"S": ALL, "A": ALL, "M": ALL, "T": MID, "B": POLY, "N": POLY, "K": POLY + ["exp", "abs", "sign", "dirac"], "W": POLY, "Q": POLY, "R": POLY,
      "L": POLY + ["abs", "sign", "exp", "sin", "sigmoid", "ln", "rabbit"]}
TPROD = [("S", "S", "S"), ("A", "S", "A"), ("S", "A", "A"), ("M", "S", "M"), ("S", "M", "M"), ("B", "S", "B"),
         ("S", "B", "B"), ("A", "B", "M"), ("B", "A", "N"), ("A", "A", "Q"), ("B", "B", "R"), ("Q", "S", "Q"),
         ("S", "Q", "Q"), ("N", "S", "N"), ("S", "N", "N"), ("R", "S", "R"), ("S", "R", "R"), ("W", "S", "W"), ("S", "W", "W")]
DOT = [("S", "S", "S"), ("A", "A", "S"), ("B", "B", "S"), ("Q", "A", "A"), ("R", "B", "B"), ("M", "N", "Q"),
       ("N", "M", "R"), ("M", "R", "M"), ("Q", "M", "M"), ("N", "Q", "N"), ("R", "N", "N"), ("Q", "Q", "Q"),
       ("R", "R", "R"), ("A", "M", "B"), ("B", "N", "A"), ("A", "Q", "A"), ("B", "R", "B")]
F64_UN = POLY + ["rabbit"]


class G:
    def __init__(self, rng, lane="z", **kw):
        self.r = rng
        self.lane = lane
        self.nvar = kw.get("nvar", 3)
        self.structured = kw.get("structured", False)
        self.sconst = kw.get("sconst", False)
        self.allow_sum = kw.get("sum", True)
        self.mixdot = kw.get("mixdot", True)      # dot products of composite operands
        self.pow_exp = kw.get("pow_exp", True)
        self.caches = kw.get("caches", 0.0)
        self.simple = kw.get("simple", False)     # ring operations only
        self.nprobe = 0
        self.opaque = kw.get("opaque", 0.0)       # user-defined operators in between
        self.slots = {}
        self.reuse = kw.get("reuse", 0.0)
        self.lens = {}
        self.adjs = kw.get("adjs", 0.0)

    def num(self, small=False):
        r = self.r
        if self.lane == "f":
            return r.choice([0, 1, 2, 3, -1, -2, -3]) % P
        x = r.random()
        if small or x < 0.5:
            return r.choice([0, 1, 2, 3, 4, 5, -1, -2, -3]) % P
        return r.randrange(P)

    def dims(self, sort, vid=None):
        if sort != "L":
            return DIMS[sort]
        return [self.lens.get(vid, self.lens.get("*", 2))]

    def value(self, vid):
        sort = vid[0]
        s = self.dims(sort, vid)
        n = 1
        for d in s:
            n *= d
        k = "raw"
        if self.structured:
            k = self.r.choice(["raw", "full", "full", "diag" if sort not in "SL" else "full"])
            if sort in "T":
                k = self.r.choice(["raw", "full"])
        if k != "raw":
            return {"k": k, "s": s, "d": [self.r.choice([0, 1, self.num()])]}
        return {"k": "raw", "s": s, "d": [self.num() for _ in range(n)]}

    def var(self, sort):
        return ["var", "%s%d" % (sort, self.r.randrange(self.nvar))]

    def leaf(self, sort, need):
        r = self.r
        if self.sconst and need == 0 and r.random() < 0.35:
            k = r.choice(["full", "full", "raw"] + (["diag"] if sort not in "SLT" else []))
            s = self.dims(sort)
            n = 1
            for d in s:
                n *= d
            d = [self.num() for _ in range(n)] if k == "raw" else [r.choice([0, 1, self.num()])]
            return ["sconst", sort, k, s, d]
        if r.random() < 0.75 or (sort == "L" and need):
            return self.var(sort)
        s = self.dims(sort)
        n = 1
        for d in s:
            n *= d
        return ["const", sort, s, [self.num(True) for _ in range(n)]]

    def unary_ops(self, sort, need, inner_leaf):
        if self.simple:
            return POLY
        ops = [o for o in UN[sort] if ORDER.get(o, 9) >= need]
        if self.lane == "f":
            ops = [o for o in ops if o in F64_UN or (inner_leaf and o in ("abs", "sign"))]
        return ops

    def expr(self, sort, depth, need=0):
        r = self.r
        e = self._expr(sort, depth, need)
        if self.caches and r.random() < self.caches and e[0] != "cache":
            return self.cache(sort, e)
        if self.opaque and r.random() < self.opaque:
            return ["probe", 0, e]
        return e

    def cache(self, sort, e):
        same = [k for k, v in self.slots.items() if v == e and k[0] == sort]
        if same:
            slot = same[0]
        else:
            free = ["%s%d" % (sort, i) for i in range(5, 9) if "%s%d" % (sort, i) not in self.slots]
            if not free:
                return e
            slot = free[0]
            self.slots[slot] = e
        self.nprobe += 1
        return ["cache", slot, ["probe", self.nprobe, e]]

    def _expr(self, sort, depth, need):
        r = self.r
        if depth <= 0:
            return self.leaf(sort, need)
        if self.adjs and need < 2 and sort != "L" and r.random() < self.adjs:
            return ["adj", "S%d" % r.randrange(self.nvar), self.expr(sort, depth - 1, need + 1)]
        kinds = ["un", "ew", "ew"]
        if sort == "S":
            kinds += ["pow"] if not self.simple else []
            if self.allow_sum:
                kinds += ["sum"]
        tp = [t for t in TPROD if t[2] == sort]
        dt = [t for t in DOT if t[2] == sort]
        if tp:
            kinds += ["tprod"]
        if dt:
            kinds += ["dot"]
        k = r.choice(kinds)
        d1 = depth - 1
        d2 = r.randrange(depth)
        if k == "un":
            x = self.expr(sort, d1 if r.random() < 0.8 else 0, need)
            ops = self.unary_ops(sort, need, x[0] in ("var", "const"))
            return [r.choice(ops), x]
        if k == "ew":
            ops = ["add", "sub", "mul"] + ([] if self.lane == "f" or self.simple else ["div"])
            op = r.choice(ops)
            ls, rs = sort, sort
            if sort not in "ST" and r.random() < 0.45:
                if r.random() < 0.5:
                    ls = "S"
                else:
                    rs = "S"
            return self.pair(op, ls, rs, d1, d2, need)
        if k == "pow":
            if self.lane == "f":
                base = self.leaf("S", need)
                return ["pow", base, ["const", "S", [], [r.randrange(4)]]]
            base = self.expr("S", d1, need)
            x = r.random()
            if x < 0.6 or not self.pow_exp:
                return ["pow", base, ["const", "S", [], [r.choice([0, 1, 2, 3, 4, -1, -2]) % P]]]
            if x < 0.85:
                return ["pow", base, self.leaf("S", need)]
            return ["pow", base, self.expr("S", min(d2, 1), need)]
        if k == "sum":
            if need:
                return ["sum", self.expr("S", d1, need)]
            s = r.choice(FIXED + "L")
            return ["sum", self.expr(s, d1, 0)]
        t = r.choice(tp if k == "tprod" else dt)
        return self.pair(k, t[0], t[1], d1, d2, need)

    def pair(self, op, ls, rs, d1, d2, need):
        if self.r.random() < 0.5:
            d1, d2 = d2, d1
        if op in ("dot", "tprod") and not self.mixdot:
            d1 = d2 = 0
        return [op, self.expr(ls, d1, need), self.expr(rs, d2, need)]


def sub(e):
    """direct sub-expressions"""
    if e[0] in ("var", "const", "sconst"):
        return []
    if e[0] in ("cache", "probe", "adj"):
        return [e[2]]
    return e[1:]


def variables(e):
    if e[0] == "var":
        return {e[1]}
    out = {e[1]} if e[0] == "adj" else set()
    for x in sub(e):
        out |= variables(x)
    return out


def slots(e):
    out = {e[1]} if e[0] == "cache" else set()
    for x in sub(e):
        out |= slots(x)
    return out


def size(e):
    return 1 + sum(size(x) for x in sub(e))


def depth(e):
    return 1 + max([depth(x) for x in sub(e)], default=0)


def ops_of(e):
    out = {e[0]}
    for x in sub(e):
        out |= ops_of(x)
    return out
