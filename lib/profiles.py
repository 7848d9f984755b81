"""Input choice for the properties decided on recorded histories of the
expression language (C01, C02, C04-C08, C10, C12, C20).

A profile returns {"z": [...], "f": [...]} sessions per lane.  Expected
results are never computed here."""
import itertools, json, random
from gen import *


class Bag:
    def __init__(self):
        self.z, self.f = [], []
        self.seen = set()

    def add(self, lane, init, exprs, events):
        key = json.dumps([lane, exprs, [[e["op"], e.get("id")] for e in events], init], sort_keys=True)
        if key in self.seen:
            return
        self.seen.add(key)
        q = self.z if lane == "z" else self.f
        q.append({"init": init, "exprs": exprs, "events": events})


def inits(g, exprs, extra=("S0",)):
    vs = set(extra)
    for e in exprs:
        vs |= variables(e)
    return {v: g.value(v) for v in sorted(vs)}


def lane_of(i):
    return "f" if i % 5 == 4 else "z"


def c01(rng, n, bag, progs):
    for i in range(n):
        lane = lane_of(i)
        g = G(rng, lane, nvar=rng.choice([1, 2, 3]), opaque=rng.choice([0, 0, .15]), caches=rng.choice([0, 0, 0, .15]), structured=rng.random() < .15)
        sort = "S" if rng.random() < .8 else rng.choice(FIXED)
        e = g.expr(sort, rng.choice([1, 2, 3] if lane == "f" else [1, 2, 2, 3, 3, 4]), 1)
        ts = sorted(v for v in variables(e) if v[0] == "S")
        t = rng.choice(ts) if ts and rng.random() < .9 else "S%d" % rng.randrange(4)
        adj = ["adj", t, e]
        ev = [{"op": rng.choice(["evadj", "dual"]), "e": 1, "id": t}, {"op": "eval", "e": 2}]
        bag.add(lane, inits(g, [adj]), [e, adj], ev)
    for e in progs:
        if "adjable" in e["tags"]:
            g = G(rng, "z")
            x = e["e"]
            t = rng.choice(["S0", "S0", "S1"])
            bag.add("z", inits(g, [x], ("S0", "S1")), [x, ["adj", t, x]],
                    [{"op": rng.choice(["evadj", "dual"]), "e": 1, "id": t}, {"op": "eval", "e": 2}])


def c02(rng, n, bag, progs):
    for i in range(n):
        lane = lane_of(i)
        k = rng.choice([2, 2, 2, 3])
        g = G(rng, lane, nvar=2, caches=0)
        sort = "S" if rng.random() < .85 else rng.choice(FIXED)
        e = g.expr(sort, rng.choice([1, 2, 2] if lane == "f" or k == 3 else [1, 2, 2, 3]), k)
        if size(e) > (9 if k == 3 else 16):
            continue
        ids = [rng.choice(["S0", "S1", "S0", "S1", "S2"]) for _ in range(k)]
        a, b = e, e
        for t in ids:
            a = ["adj", t, a]
        for t in reversed(ids):
            b = ["adj", t, b]
        ex = [a] + ([b] if b != a else [])
        bag.add(lane, inits(g, ex), ex, [{"op": "eval", "e": j + 1} for j in range(len(ex))])
    for i in range(n // 12):       # orders beyond three, of small expressions
        lane = lane_of(i)
        k = rng.choice([4, 4, 4, 5, 5, 6])
        g = G(rng, lane, nvar=2, caches=0)
        e = g.expr("S", rng.choice([1, 1, 2]), k)
        if size(e) > {4: 6, 5: 4, 6: 3}[k]:
            continue
        a = e
        for t in [rng.choice(["S0", "S0", "S1"]) for _ in range(k)]:
            a = ["adj", t, a]
        bag.add(lane, inits(g, [a]), [a], [{"op": "eval", "e": 1}])
    for p in progs:
        if "adj2" in p["tags"] and (p["s"] == "S" or rng.random() < .15):
            g = G(rng, "z")
            x = p["e"]
            ex = [["adj", "S0", ["adj", "S0", x]], ["adj", "S1", ["adj", "S0", x]], ["adj", "S0", ["adj", "S1", x]]]
            bag.add("z", inits(g, [x], ("S0", "S1")), ex, [{"op": "eval", "e": j} for j in (1, 2, 3)])


def c04(rng, n, bag, progs):
    for i in range(n):
        lane = lane_of(i)
        g = G(rng, lane, nvar=3, opaque=rng.choice([0, 0, .15]), structured=rng.random() < .2, sconst=rng.random() < .2)
        g.lens = {"*": rng.choice([0, 1, 2, 3, 4, 9, 17])}
        sort = rng.choice(FIXED + "L")
        e = g.expr(sort, rng.choice([1, 2, 3] if lane == "f" else [1, 2, 2, 3, 4]))
        bag.add(lane, inits(g, [e]), [e], [{"op": "eval", "e": 1}])
    for p in progs:
        g = G(rng, "z")
        bag.add("z", inits(g, [p["e"]]), [p["e"]], [{"op": "eval", "e": 1}])


def c05(rng, n, bag, progs):
    for i in range(n):
        lane = lane_of(i)
        g = G(rng, lane, nvar=4, opaque=rng.choice([0, 0, .15]), structured=True, sconst=True)
        g.lens = {"*": rng.choice([0, 1, 2, 3, 9])}
        sort = rng.choice(FIXED + "L" + "MNQR")
        need = 1 if rng.random() < .25 and sort != "L" else 0
        e = g.expr(sort, rng.choice([1, 1, 2, 2, 3]), need)
        if need:
            e = ["adj", "S0", e]
        bag.add(lane, inits(g, [e]), [e], [{"op": "spec", "e": 1}])
    def forms(g, v):
        s = v[0]
        c = {"raw": g.value(v), "num": rng.randrange(2, P)}
        out = [c["raw"]] + [{"k": "full", "s": c["raw"]["s"], "d": [x]} for x in (0, 1, c["num"])]
        if s not in "SLT":
            out += [{"k": "diag", "s": c["raw"]["s"], "d": [x]} for x in (0, 1, c["num"])]
        return out

    for p in progs:                # one operator: every combination of forms
        vs = sorted(variables(p["e"]))
        if p["n"] == 1 and vs:
            g = G(rng, "z")
            for fs in itertools.product(*(forms(g, v) for v in vs)):
                bag.add("z", dict(zip(vs, fs)), [p["e"]], [{"op": "spec", "e": 1}])
    for u in UN["L"]:              # sums of nothing
        for c in (0, 1, rng.randrange(2, P)):
            bag.add("z", {"L0": {"k": "full", "s": [0], "d": [c]}}, [["sum", [u, ["var", "L0"]]]], [{"op": "spec", "e": 1}])
    for p in progs:                # run-time vectors of length zero have a structure all the same
        vs = sorted(variables(p["e"]))
        if any(v[0] == "L" for v in vs):
            g = G(rng, "z", structured=True)
            g.lens = {"*": 0}
            for c in (0, 1, rng.randrange(2, P)) if p["n"] == 1 else (rng.choice([0, 0, 1, 2]),):
                bag.add("z", {v: {"k": "full", "s": [0], "d": [c]} if v[0] == "L" else g.value(v) for v in vs}, [p["e"]], [{"op": "spec", "e": 1}])
    for p in progs:
        g = G(rng, "z", structured=True)
        bag.add("z", inits(g, [p["e"]]), [p["e"]], [{"op": "spec", "e": 1}])


def c06(rng, n, bag, progs):
    for i in range(n):
        lane = lane_of(i)
        g = G(rng, lane, nvar=3, opaque=rng.choice([0, 0, .15]), caches=rng.choice([0, 0, .1]), structured=rng.random() < .2, sconst=rng.random() < .2)
        k = rng.choice([0, 1, 2, 3])
        g.lens = {"*": k}
        if rng.random() < .5:
            g.lens = {"L0": k, "L1": rng.choice([k, k, k + 1]), "L2": rng.choice([k, 0]), "*": rng.choice([k, k, 2])}
        sort = rng.choice(FIXED + "LLLL")
        need = 1 if rng.random() < .3 and sort != "L" else 0
        e = g.expr(sort, rng.choice([1, 2, 2, 3]), need)
        if need:
            e = ["adj", "S0", e]
        init = inits(g, [e])
        if rng.random() < .1:
            for v in rng.sample(sorted(init), 1):
                if v != "S0":
                    del init[v]
        bag.add(lane, init, [e], [{"op": "shape", "e": 1}])
    for i in range(n // 4):       # shapes of expressions whose cache slots were filled under another context
        lane = lane_of(i)
        g = G(rng, lane, nvar=2, caches=.4, opaque=rng.choice([0, .15]))
        k = rng.choice([1, 2, 3])
        g.lens = {"*": k}
        sort = rng.choice("LLLLSA")
        e = g.expr(sort, rng.choice([1, 2, 3]), 0)
        if not slots(e):
            e = g.cache(sort, e)
        if rng.random() < .3:
            e = ["neg", e]
        sl = sorted(slots(e))
        init = inits(g, [e])
        ids = sorted(init)
        ev = []
        for _ in range(rng.choice([1, 2])):
            ev.append({"op": rng.choice(["eval", "eval", "shape", "spec"]), "e": 1})
            g.lens = {"*": rng.choice([0, 1, 2, 3, 4])}
            how = rng.choice(["all", "all", "one", "undef"])
            for v in ids if how == "all" else rng.sample(ids, min(1, len(ids))):
                ev.append({"op": "clr", "id": v} if how == "undef" else {"op": "set", "id": v, "v": g.value(v)})
            ev.append({"op": "shape", "e": 1})
            for x in sl:
                if rng.random() < .5:
                    ev.append({"op": "clr", "id": x})
                elif rng.random() < .3:
                    ev.append({"op": "set", "id": x, "v": g.value(x)})
            ev.append({"op": "shape", "e": 1})
        bag.add(lane, init, [e], ev)
    for p in progs:
        g = G(rng, "z")
        bag.add("z", inits(g, [p["e"]]), [p["e"]], [{"op": "shape", "e": 1}])


def c07(rng, n, bag, progs):
    for i in range(n):
        lane = lane_of(i)
        g = G(rng, lane, nvar=3, opaque=rng.choice([0, 0, .15]), adjs=rng.choice([0, 0, .2]), caches=rng.choice([0, 0, .1]), structured=rng.random() < .1, sconst=rng.random() < .1)
        k = rng.choice([0, 1, 2, 3])
        g.lens = {"L0": k, "L1": rng.choice([k, k, k + 1]), "L2": rng.choice([k, k, 0, 1]), "*": rng.choice([k, k, 2])}
        sort = rng.choice(FIXED + "LLLLL")
        need = 1 if rng.random() < .25 and sort != "L" else 0
        e = g.expr(sort, rng.choice([1, 2, 2, 3]), need)
        if need:
            e = ["adj", "S0", e]
        init = inits(g, [e])
        vs = sorted(init)
        for v in rng.sample(vs, rng.choice([0, 0, 1, 1, 2, len(vs)]) if len(vs) > 1 else rng.randrange(2)):
            init.pop(v, None)
        op = rng.choice(["eval", "eval", "spec"])
        ev = [{"op": op, "e": 1}]
        if need:
            ev.append({"op": rng.choice(["eval", "shape"]), "e": 1})
        bag.add(lane, init, [e], ev)
        if need == 0 and sort != "L" and sort != "T" and i % 4 == 0:
            e2 = g.expr("S", 2, 1)
            init = inits(g, [e2])
            for v in rng.sample(sorted(init), 1):
                init.pop(v)
            bag.add(lane, init, [e2], [{"op": "dual", "e": 1, "id": "S0"}, {"op": "evadj", "e": 1, "id": "S1"}])
    for s in FIXED:               # derivatives of variables
        for x, y in (("0", "S1"), ("1", "S1"), ("0", "S0")):
            for miss in range(4):
                g = G(rng, "z")
                v = s + x
                e = ["adj", y, ["var", v]]
                init = inits(g, [e])
                for k, u in enumerate((v, y)):
                    if miss >> k & 1:
                        init.pop(u, None)
                bag.add("z", init, [e, ["var", v]], [{"op": o, "e": 1} for o in ("eval", "spec", "shape")]
                        + [{"op": o, "e": 2, "id": y} for o in ("evadj", "dual")])
    for p in progs:
        g = G(rng, "z")
        init = inits(g, [p["e"]])
        for v in sorted(init):
            if rng.random() < .5:
                init.pop(v)
        bag.add("z", init, [p["e"]], [{"op": "eval", "e": 1}])


def hist_events(rng, g, exprs, n, slots_, ids, ops):
    ev = []
    live = len(exprs)
    for _ in range(n):
        op = rng.choice(ops)
        if op == "set":
            v = rng.choice(ids)
            ev.append({"op": "set", "id": v, "v": g.value(v)})
        elif op == "clr":
            ev.append({"op": "clr", "id": rng.choice(slots_ or ids)})
        elif op == "undef":
            ev.append({"op": "clr", "id": rng.choice(ids)})
        elif op == "fill":
            if slots_:
                v = rng.choice(slots_)
                ev.append({"op": "set", "id": v, "v": g.value(v)})
        elif op == "clone":
            ev.append({"op": "clone", "e": rng.randrange(live) + 1})
            live += 1
        elif op in ("evadj", "dual"):
            ev.append({"op": op, "e": rng.randrange(live) + 1, "id": rng.choice(["S0", "S1", "S2"])})
        else:
            ev.append({"op": op, "e": rng.randrange(live) + 1})
    return ev


def c08(rng, n, bag, progs):
    for i in range(n):
        lane = lane_of(i)
        g = G(rng, lane, nvar=2, caches=.35, simple=True)
        g.lens = {"*": 2}
        diff = rng.random() < .6
        sort = rng.choice("SSSA" if diff else FIXED + "L")
        ex = []
        for _ in range(rng.choice([1, 1, 2])):
            e = g.expr(sort, rng.choice([1, 2, 3]), 1 if diff else 0)
            if not slots(e):
                e = g.cache(sort, e)
            if rng.random() < .3:
                e = ["add", e, json.loads(json.dumps(e))]
            ex.append(e)
        sl = sorted(set().union(*[slots(e) for e in ex]))
        init = inits(g, ex)
        ids = sorted(init)
        for s in sl:
            if rng.random() < .1:
                init[s] = g.value(s)
        ops = ["eval", "eval", "eval", "clr", "set", "fill", "clone", "undef", "shape", "spec"] + (["evadj", "dual"] if diff else ["eval"])
        ev = hist_events(rng, g, ex, rng.choice([3, 5, 7]), sl, ids, ops)
        ev.append({"op": "eval", "e": 1})
        bag.add(lane, init, ex, ev)


def c10(rng, n, bag, progs):
    for i in range(n):
        lane = lane_of(i)
        g = G(rng, lane, nvar=3, opaque=rng.choice([0, 0, .15]), caches=rng.choice([0, .2]), sconst=rng.random() < .2)
        sort = rng.choice("SSSSA" + FIXED + "L")
        need = 1 if rng.random() < .5 and sort != "L" else 0
        e = g.expr(sort, rng.choice([1, 2, 3] if need else [1, 2, 3, 4]), need)
        if need and rng.random() < .6:
            e = ["adj", rng.choice(["S0", "S1", "S2"]), e]
            need = 0
        present = variables(e) | slots(e)
        cand = sorted(present) + ["%s%d" % (rng.choice(SORTS), rng.randrange(9)) for _ in range(4)]
        ask = set(rng.sample(cand, min(5, len(cand))))
        for v in sorted(present):
            ask.add("%s%d" % (v[0], (int(v[1:]) + 1) % 9))
        ev = [{"op": "has", "e": 1, "id": v} for v in sorted(ask)]
        init = inits(g, [e])
        absent = sorted(v for v in ask if v not in present)
        ev.append({"op": "eval", "e": 1})
        if absent:
            v = rng.choice(absent)
            ev.append({"op": "set", "id": v, "v": g.value(v)})
            ev.append({"op": "eval", "e": 1})
            if need:
                init.setdefault("S3", g.value("S3"))
                ev.append({"op": "evadj", "e": 1, "id": "S3"})
        bag.add(lane, init, [e], ev)
    for p in progs:
        g = G(rng, "z")
        vs = sorted(variables(p["e"]))
        cand = sorted(set(vs + ["S0", "S1", "S2", "A0", "M0"]))
        bag.add("z", {}, [p["e"]], [{"op": "has", "e": 1, "id": v} for v in cand])


class RG(G):
    """expressions that can be printed"""
    indot = 0

    def leaf(self, sort, need):
        if sort == "S" and self.r.random() < .3:
            return ["const", "S", [], [self.r.choice([2, 3, 5, -1, -2] if self.indot else [0, 1, 2, 1, 0, 3, -1, -2, 7]) % P]]
        return self.var(sort)

    def cache(self, sort, e):
        return e

    def pair(self, op, ls, rs, d1, d2, need):
        d = op == "dot" or op == "tprod" and "S" not in (ls, rs)
        if d:
            self.indot += 1
        if self.indot and op in ("add", "sub") and ls != rs:
            op = "mul"
        try:
            return super().pair(op, ls, rs, d1, d2, need)
        finally:
            if d:
                self.indot -= 1

    def _expr(self, sort, depth, need):
        e = super()._expr(sort, depth, need)
        if e[0] == "pow" and self.indot and e[2][0] == "const" and e[2][3][0] in (0, 1):
            e[2][3][0] = 3
        return e


def known_parts(rng, bag, n):
    """programs some of whose operands print as a known zero or one: the
    derivatives of a variable, of a sum with an unrelated variable, ..."""
    zero = [["adj", "S0", ["var", "S1"]], ["adj", "S1", ["const", "S", [], [5]]]]
    one = [["adj", "S0", ["var", "S0"]], ["adj", "S1", ["add", ["var", "S1"], ["var", "S0"]]]]
    text = [["var", "S2"], ["add", ["var", "S2"], ["var", "S1"]], ["const", "S", [], [3]], ["neg", ["var", "S1"]],
            ["mul", ["var", "S0"], ["var", "S2"]]]
    bin_ = ["add", "sub", "mul", "div", "pow", "tprod", "dot"]
    leaves = zero + one + text
    una = [o for o in UN["S"]]
    out = [[o, a] for o in una for a in zero + one]
    out += [[o, a, b] for o in bin_ for a in leaves for b in leaves if not (a in text and b in text)]
    out += [["const", "S", [], [v % P]] for v in (0, 1, 2, -1, -7)]

    def nest(d):
        if d == 0 or rng.random() < .15:
            return rng.choice(rng.choice([zero, one, text]))
        if rng.random() < .3:
            return [rng.choice(una), nest(d - 1)]
        a, b = nest(d - 1), nest(rng.randrange(d))
        if rng.random() < .5:
            a, b = b, a
        return [rng.choice(bin_[:6]), a, b]
    out += [nest(rng.choice([2, 2, 3])) for _ in range(n // 8)]
    for e in out:
        g = G(rng, "z")
        init = inits(g, [e], ("S0", "S1", "S2"))
        for v in init.values():
            v["d"] = [rng.randrange(2, 15000) for _ in v["d"]]
        ev = [{"op": "render", "e": 1}]
        bag.add("z", init, [e], ev)


def c12(rng, n, bag, progs):
    for i in range(n):
        lane = "z"
        g = RG(rng, lane, nvar=rng.choice([2, 3]), sum=False)
        sort = rng.choice("SSSSSSSA" + "BMNQRT" + "L")
        x = rng.random()
        k = 0 if sort == "L" or x < .5 else 1 if x < .9 else 2
        e = g.expr(sort, rng.choice([1, 2, 2, 3, 3] if k < 2 else [1, 2]), k)
        if not k and rng.random() < .08:
            e = ["sum", e]
        for _ in range(k):
            e = ["adj", rng.choice(["S0", "S1"]), e]
        g2 = G(rng, lane)
        init = inits(g2, [e])
        for v in init.values():       # positive values: ln x is only read for x > 0
            v["d"] = [rng.randrange(2, 15000) for _ in v["d"]]
        bag.add(lane, init, [e], [{"op": "render", "e": 1}])
    known_parts(rng, bag, n)
    for p in progs:
        x = p["e"]
        if ops_of(x) & {"sum"} and x[0] != "sum":
            continue
        cand = [x] + ([["adj", "S0", x]] if "adjable" in p["tags"] else [])
        g = G(rng, "z")
        init = inits(g, [x], ("S0", "S1"))
        for v in init.values():
            v["d"] = [rng.randrange(2, 15000) for _ in v["d"]]
        if not printable(x):
            continue
        bag.add("z", init, cand, [{"op": "render", "e": j + 1} for j in range(len(cand))])


def printable(e):
    if e[0] in ("sconst", "cache", "probe"):
        return False
    if e[0] == "const" and e[1] != "S":
        return False
    return all(printable(x) for x in sub(e))


def c20(rng, n, bag, progs):
    for i in range(n):
        lane = lane_of(i)
        g = G(rng, lane, nvar=2, opaque=rng.choice([0, 0, .15]), structured=rng.random() < .2, caches=rng.choice([0, 0, .2]))
        g.lens = {"*": rng.choice([0, 1, 2])}
        ex = []
        diff = rng.random() < .75
        for _ in range(rng.choice([1, 2, 3])):
            s = rng.choice("SSSAMT" if diff else FIXED + "L")
            e = g.expr(s, rng.choice([1, 2, 2]), 1 if diff else 0)
            ex.append(e)
        init = inits(g, ex, ("S0", "S1", "S2") if rng.random() < .7 else ("S0", "S1"))
        ids = sorted(init)
        ops = ["eval", "eval", "set", "clone", "spec", "shape"] + (["evadj", "dual", "dual"] if diff else [])
        if rng.random() < .2:
            ops.append("undef")
        bag.add(lane, init, ex, hist_events(rng, g, ex, rng.choice([4, 6, 9]), [], ids, ops))


PROFILES = {
    "C01": (c01, {"value", "err", "panic"}, 9000),
    "C02": (c02, {"value", "err", "panic"}, 4000),
    "C04": (c04, {"value", "err", "panic"}, 14000),
    "C05": (c05, {"twin"}, 9000),
    "C06": (c06, {"shape"}, 14000),
    "C07": (c07, {"err", "panic", "ctxvar"}, 12000),
    "C08": (c08, {"slot", "probe", "value", "ctxvar"}, 4000),
    "C10": (c10, {"has", "value"}, 7000),
    "C12": (c12, {"render", "panic"}, 12000),
    "C20": (c20, {"value", "err", "ctxvar", "slot", "panic"}, 5000),
}
