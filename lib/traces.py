"""The checks decided on recorded histories of the expression language: choose
histories, run them through the implementation, have TLC judge the records
against Trace.tla."""
import json, random, re, threading
from concurrent.futures import ThreadPoolExecutor
import run, profiles
from gen import *
from run import Tool


# ------------------------------------------------------------------ programs
def programs(work):
    """all small programs, enumerated by TLC from Gen.tla"""
    out = work.path("progs.ndjson")
    r, _, _ = run.tlc(work, "Gen", extra_env={"OUT": out})
    if "No error has been found" not in r.stdout:
        raise Tool("Gen: " + r.stdout[-2000:])
    ps = []
    for l in open(out):
        p = json.loads(l)
        p["tags"] = tags_of(p["e"])
        ps.append(p)
    return ps


def order(e):
    """how often an expression can be differentiated with respect to a scalar"""
    if e[0] == "var":
        return 0 if e[1][0] == "L" else 9
    if e[0] == "const":
        return 0 if e[1] == "L" else 9
    if e[0] == "sconst":
        return 0
    if e[0] in ("cache", "probe"):
        return order(e[2])
    if e[0] == "adj":
        return order(e[2]) - 1
    k = min(order(x) for x in e[1:])
    if e[0] == "sum" and not scalar(e[1]):
        return 0
    return min(k, ORDER.get(e[0], 9))


def scalar(e):
    if e[0] == "var":
        return e[1][0] == "S"
    if e[0] in ("const", "sconst"):
        return e[1] == "S"
    if e[0] in ("sum", "pow"):
        return True
    if e[0] in ("cache", "probe", "adj"):
        return scalar(e[2])
    return e[0] != "dot" and all(scalar(x) for x in e[1:])


def tags_of(e):
    o = order(e)
    return {"adjable"} if o == 1 else {"adjable", "adj2"} if o > 1 else set()


# --------------------------------------------------------------- behaviours
def behaviours(work, scen, depth):
    """histories of the state machine AegirMC, with its properties checked"""
    r, g, d = run.tlc(work, "AegirMC", extra_env={"SCEN": scen, "DEPTH": str(depth)}, heap="8g")
    if "No error has been found" not in r.stdout:
        raise Tool("AegirMC(%s): %s" % (scen, r.stdout[-3000:]))
    m = re.search(r'<<"SCEN", "(.*)">>', r.stdout)
    sc = json.loads(m.group(1).encode().decode("unicode_escape"))
    inits = [i if isinstance(i, dict) else {} for i in sc["inits"]]
    seen, hs = set(), []
    for m in re.finditer(r'<<"H", (\d+), <<([\d, ]*)>>>>', r.stdout):
        k = (int(m.group(1)), m.group(2))
        if k not in seen:
            seen.add(k)
            hs.append((int(m.group(1)) - 1, [int(x) - 1 for x in m.group(2).split(",")]))
    return sc["exprs"], sc["ops"], inits, hs, g, d


def mc_sessions(work, scen, depth, asop=None):
    exprs, ops, inits, hs, g, d = behaviours(work, scen, depth)
    out = []
    if scen == "fail":      # histories of one step: one session per initial context
        per = {}
        for i, h in hs:
            per.setdefault(i, []).append(ops[h[0]])
        for i, evs in sorted(per.items()):
            evs = [dict(e, op=asop or e["op"]) for e in evs]
            # memoising expressions last, in sessions of their own
            plain = [e for e in evs if not slots(exprs[e["e"] - 1])]
            out.append({"init": inits[i], "exprs": exprs, "events": plain})
            for e in evs:
                if e not in plain:
                    out.append({"init": inits[i], "exprs": exprs, "events": [e]})
    else:
        for i, h in hs:
            out.append({"init": inits[i], "exprs": exprs, "events": [ops[k] for k in h]})
    return out, g, d, len(hs)


# ------------------------------------------------------------------ canaries
def S(x):
    return {"k": "raw", "s": [], "d": [x]}


def Vv(*d):
    return {"k": "raw", "s": [len(d)], "d": list(d)}


def ok(x, s=()):
    return {"ok": {"s": list(s), "d": x if isinstance(x, list) else [x]}}


def _c(tag, ctx, e, ev, after=None):
    return tag, {"ctx0": ctx, "exprs": [e], "events": [dict({"e": 1, "pc": {}, "ctx": ctx if after is None else after}, **ev)]}


X, Y = ["var", "S0"], ["var", "S1"]
CX = {"S0": S(5), "S1": S(7)}
CANARIES = [
    _c("value", CX, ["sub", X, Y], {"op": "eval", "res": ok(2)}),
    _c("value", CX, ["mul", X, X], {"op": "evadj", "id": "S0", "res": ok(5)}),
    _c("value", CX, ["adj", "S0", ["adj", "S0", ["square", X]]], {"op": "eval", "res": ok(0)}),
    _c("value", CX, ["mul", X, Y], {"op": "dual", "id": "S0", "res": {"ok": {"v": {"s": [], "d": [35]}, "a": {"s": [], "d": [5]}}}}),
    _c("err", {"S0": S(1)}, ["add", X, Y], {"op": "eval", "res": {"err": {"path": ["L"], "leaf": ["undef", "S1"], "msg": [["w", "S1"]]}}}),
    _c("err", {"S0": S(1)}, ["add", X, Y], {"op": "eval", "res": ok(1)}),
    _c("err", {"L0": Vv(1), "L1": Vv(1, 2)}, ["add", ["var", "L0"], ["var", "L1"]],
       {"op": "eval", "res": {"err": {"path": ["O"], "leaf": ["inc", [2], [1]], "msg": [["n", 2], ["n", 1]]}}}),
    _c("err", {"L0": Vv(1), "L1": Vv(1, 2)}, ["add", ["var", "L0"], ["var", "L1"]],
       {"op": "eval", "res": {"err": {"path": ["O"], "leaf": ["inc", [1], [2]], "msg": [["w", "vs"], ["n", 2], ["n", 1]]}}}),
    _c("err", {"S0": S(1)}, ["add", X, Y], {"op": "eval", "res": {"err": {"path": ["R"], "leaf": ["undef", "S1"], "msg": [["n", 1], ["w", "S"]]}}}),
    _c("panic", CX, ["add", X, Y], {"op": "eval", "res": {"panic": "boom"}}),
    _c("ctxvar", CX, ["add", X, Y], {"op": "eval", "res": ok(12)}, {"S0": S(6), "S1": S(7)}),
    _c("slot", CX, ["cache", "S5", ["probe", 1, X]], {"op": "eval", "res": ok(5), "pc": {"p1": 1}}),
    _c("probe", dict(CX, S5=S(9)), ["cache", "S5", ["probe", 1, X]], {"op": "eval", "res": ok(9), "pc": {"p1": 1}}),
    _c("shape", {"L0": Vv(1, 2)}, ["neg", ["var", "L0"]], {"op": "shape", "ref": ok([32748, 32747], [2]), "res": {"ok": []}}),
    _c("twin", {"M0": {"k": "diag", "s": [2, 3], "d": [1, 0, 0, 0, 1, 0]}}, ["onesub", ["var", "M0"]],
       {"op": "spec", "res": {"ok": {"s": [2, 3], "d": [0, 0, 0, 0, 0, 0], "k": "diag", "w": [0], "ws": [2, 3]}},
        "dn": ok([0, 1, 1, 1, 0, 1], [2, 3])}),
    _c("has", {}, ["add", X, ["sin", Y]], {"op": "has", "id": "S1", "res": {"ok": False}}),
    _c("render", CX, ["sub", X, ["sub", Y, X]], {"op": "render", "res": {"ok": {"text": "x - y - x", "tok": [
        ["w", "S0"], ["w", "-"], ["w", "S1"], ["w", "-"], ["w", "S0"]]}}}),
]
GOOD = [
    _c("", CX, ["sub", X, Y], {"op": "eval", "res": ok(32747)}),
    _c("", CX, ["mul", X, X], {"op": "evadj", "id": "S0", "res": ok(10)}),
    _c("", {"S0": S(1)}, ["add", X, Y], {"op": "eval", "res": {"err": {"path": ["R"], "leaf": ["undef", "S1"], "msg": [["w", "S1"]]}}}),
]


def with_canaries(lines):
    out = list(lines)
    for i, (tag, s) in enumerate(CANARIES + GOOD):
        out.append(json.dumps(dict(s, id=-1 - i)))
    return out


def split_canaries(bad):
    """the judge itself must see every planted deviation and nothing else"""
    for i, (tag, s) in enumerate(CANARIES + GOOD):
        got = bad.pop((-1 - i, 1), set())
        if (tag and tag not in got) or (not tag and got):
            raise Tool("canary %d: expected %r, judged %r" % (i, tag, got))
    return bad


# ------------------------------------------------------------------ the check
SCENARIOS = {"C06": [("fail", 1, 1, "shape")], "C07": [("fail", 1, 1, None)], "C08": [("cache", 4, 5, None)],
             "C20": [("hist", 4, 4, None)]}
USES_PROGS = {"C01", "C02", "C04", "C05", "C06", "C07", "C10", "C12"}


def check(c):
    fn, tags, n = profiles.PROFILES[c.pid]
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(run.build, "harness", ["world_z", "world_f"])
        fp = ex.submit(programs, c.work) if c.pid in USES_PROGS else None
        fm = [ex.submit(mc_sessions, c.work, s, t if c.thorough else q, op) for s, q, t, op in SCENARIOS.get(c.pid, [])]
        c.log("harness built in %.1fs" % fb.result())
        progs = fp.result() if fp else []
        mcs = [f.result() for f in fm]
    mc = []
    for ss, g, d, nh in mcs:
        mc += ss
        c.states(g, d)
        c.log("state machine: %d states, %d histories to replay" % (d, nh))
    known = c.known_inputs()
    rounds = 8 if c.thorough else 1
    tot = nontriv = 0
    for rnd in range(rounds):
        if len(c.viol) > 20:
            break
        bag = profiles.Bag()
        fn(random.Random("%s-%d-%d" % (c.pid, c.seed, rnd)), n * (2 if c.thorough else 1), bag, progs)
        z = bag.z + (mc if rnd == 0 else [])
        for lane, ss in (("z", z), ("f", bag.f)):
            if rnd == 0:
                ss = ss + [k["session"] for k, _ in known if k.get("lane", "z") == lane]
            if not ss:
                continue
            for i, s in enumerate(ss):
                s["id"] = i
            out = run.run_bin("world_" + lane, [json.dumps(s) for s in ss])
            bad, g, d = run.judge(c.work, "Trace", with_canaries(out))
            bad = split_canaries(bad)
            c.states(g, d)
            c.cov["traces_validated_against_impl"] += len(ss)
            rec = None
            for l in out:
                r = json.loads(l)
                for e in r["events"]:
                    if "res" in e:
                        tot += 1
                        nontriv += informative(e)
                if rec is None and len(ops_of(r["exprs"][0])) > 3:
                    rec = r
                if any((r["id"], k + 1) in bad for k in range(len(r["events"]))):
                    src = ss[r["id"]]
                    for k in range(len(r["events"])):
                        rel = bad.get((r["id"], k + 1), set()) & tags
                        if not rel:
                            continue
                        kf = [t for q, t in known if q["session"] is src]
                        if kf:
                            c.known.append(kf[0])
                            continue
                        e = r["events"][k]
                        c.violation("%s in event %d (%s) of %s: observed %s" % (
                            "/".join(sorted(rel)), k + 1, e["op"], json.dumps(r["exprs"], ensure_ascii=False)[:400],
                            json.dumps(e.get("res"), ensure_ascii=False)[:300]),
                            {"property": c.pid, "kind": "trace", "lane": lane, "tags": sorted(rel), "event": k + 1, "session": src})
            if rec and len(c.cov["samples"]) < 2:
                c.cov["samples"].append({"lane": lane, "exprs": rec["exprs"], "ctx": rec["ctx0"],
                                         "events": [{k: e.get(k) for k in ("op", "e", "id", "res") if k in e} for e in rec["events"]][:3]})
        c.log("round %d: %d + %d histories judged, %d deviations" % (rnd + 1, len(z), len(bag.f), len(c.viol)))
    c.cov["observations"] = tot
    c.cov["observations_with_a_defined_expectation"] = nontriv
    c.cov["programs_enumerated"] = len(progs)
    c.viol.sort(key=lambda v: len(json.dumps(v[1])))


def informative(e):
    r = e["res"]
    if "ok" not in r:
        return 1
    b = r["ok"]
    if isinstance(b, dict) and "d" in b:
        return int(not b["d"] or any(x >= 0 for x in b["d"]))
    return 1


def show(w, line):
    """print a recorded history with what the specification expects of it"""
    r = json.loads(line)
    f = w.path("trace.ndjson")
    with open(f, "w") as h:
        h.write(line + "\n")
    t, _, _ = run.tlc(w, "Show", extra_env={"TRACE": f})
    for i, e in enumerate(r["exprs"]):
        print("expression %d: %s" % (i + 1, json.dumps(e)))
    print("context: %s" % json.dumps(r["ctx0"]))
    want = {int(m.group(1)): m.group(2) for m in re.finditer(r'<<"WANT", (\d+), (.*?)>>\n(?=<<|Model)', t.stdout, re.S)}
    bad = {int(m.group(2)): m.group(3) for m in run.BAD.finditer(t.stdout)}
    for k, e in enumerate(r["events"]):
        print("event %d: %s" % (k + 1, json.dumps({x: e[x] for x in ("op", "e", "id", "v", "res", "dn", "ref") if x in e}, ensure_ascii=False)))
        print("   specification: %s" % want.get(k + 1, "?"))
        if k + 1 in bad:
            print("   DEVIATION: %s" % bad[k + 1])
    return 1 if bad else 0


def replay(obj):
    """re-run a recorded violation"""
    w = run.Work("replay")
    try:
        run.build("harness", ["world_z", "world_f"])
        return show(w, run.run_bin("world_" + obj["lane"], [json.dumps(dict(obj["session"], id=1))])[0])
    finally:
        w.close()
