"""Histories of programs that are fixed when the library is compiled: the
derivatives of tensor expressions have types that cannot be put together at run
time, so the programs TLC enumerates (StaticMC.tla) are written out as Rust,
compiled against the library and their recorded results judged by Trace.tla."""
import json, random, re
from concurrent.futures import ThreadPoolExecutor
import run, traces, codegen
from gen import P
from run import Tool

SORTS = "SABMNQRLTKW"
DIMS = {"S": [], "A": [2], "B": [3], "M": [2, 3], "N": [3, 2], "Q": [2, 2], "R": [3, 3], "T": [2], "K": [2, 1, 3], "W": [1, 4]}
NODE = {"addone": "AddOne", "subone": "SubOne", "onesub": "OneSub", "square": "Square", "double": "Double", "neg": "Negate",
        "sign": "Sign", "abs": "Abs", "ln": "Ln", "xlnx": "XLnX", "exp": "Exp", "rabbit": "Rabbit", "sigmoid": "Sigmoid",
        "cos": "Cos", "sin": "Sin", "gamma": "Gamma", "lgamma": "LogGamma", "sum": "Sum",
        "add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "pow": "Power"}


def ident(i):
    return "Id::<%d>(%s)" % (SORTS.index(i[0]), i[1:])


def lit(xs):
    return "&[%s]" % ", ".join(map(str, xs))


def rust(e):
    op = e[0]
    if op == "var":
        return "Variable(%s)" % ident(e[1])
    if op == "const":
        return "dconst::<%s>(%s, %s)" % (e[1], lit(e[2]), lit(e[3]))
    if op == "sconst":
        return 'sconst::<%s>(d, r#"%s"#)' % (e[1], json.dumps({"k": e[2], "s": e[3], "d": e[4]}))
    if op == "cache":
        return "%s.cached(%s)" % (rust(e[2]), ident(e[1]))
    if op == "adj":
        return "Differentiable::<Id<%d>>::adjoint(&%s, %s)" % (SORTS.index(e[1][0]), rust(e[2]), ident(e[1]))
    if op in ("tprod", "dot"):
        return "Contract::<%d, _, _>::new(%s, %s)" % (op == "dot", rust(e[1]), rust(e[2]))
    return "%s(%s)" % (NODE[op], ", ".join(rust(x) for x in e[1:]))


def occurring(e):
    if e[0] == "var":
        return {e[1]}
    if e[0] in ("const", "sconst"):
        return set()
    if e[0] == "cache":
        return occurring(e[2])
    if e[0] == "adj":
        return {e[1]} | occurring(e[2])
    return set().union(*(occurring(x) for x in e[1:]))


def slots(e):
    if e[0] in ("var", "const", "sconst"):
        return set()
    if e[0] == "cache":
        return {e[1]} | slots(e[2])
    return set().union(*(slots(x) for x in e[1:] if isinstance(x, list)))


def ops(e):
    """the operators of a program, from the outside"""
    if e[0] in ("var", "const", "sconst"):
        return [e[0] + e[1][0]]
    return [e[0]] + [o for x in e[1:] if isinstance(x, list) for o in ops(x)]


def stratum(p):
    e = p["e"]
    if p["n"] == 1:
        return (1, json.dumps(e))
    def inner(x):
        return (x[0],) if x[0] not in ("var", "const", "sconst") else ("leaf",)
    if e[0] == "adj":
        return (p["n"], "adj", e[1][0], e[2][0]) + tuple(inner(x) for x in e[2][1:])
    return (p["n"], e[0]) + tuple(inner(x) for x in e[1:] if isinstance(x, list))


def choose(rng, ps, n, skip=()):
    """every stratum once, then at random"""
    by = {}
    for p in ps:
        if json.dumps(p["e"]) not in skip:
            by.setdefault(stratum(p), []).append(p)
    out = [rng.choice(by[k]) for k in sorted(by, key=repr)]
    rng.shuffle(out)
    out = out[:n]
    got = {json.dumps(p["e"]) for p in out} | set(skip)
    rest = [p for p in ps if json.dumps(p["e"]) not in got]
    return out + rng.sample(rest, min(len(rest), max(0, n - len(out))))


def plan(rng, p):
    """the expressions of a program and what is asked of them"""
    e, ts = p["e"], p["t"]
    inn = [t for t in ts if t[1] != "5"]
    out = [t for t in ts if t[1] == "5"]
    rng.shuffle(inn)
    # one vector or matrix target first
    inn.sort(key=lambda t: t[0] == "S")
    ts = inn + ([rng.choice(out)] if out else [])
    ev = [{"op": "evadj", "e": 1, "id": t} for t in ts] + [{"op": "dual", "e": 1, "id": t} for t in ts[:2]]
    exprs = [e]
    for t in ts[:3]:
        exprs.append(["adj", t, e])
        for op in ("eval", "shape", "spec"):
            ev.append({"op": op, "e": len(exprs)})
    return exprs, ev


def code(k, exprs, ev):
    """Rust for one program"""
    arms = []
    for t in sorted({x["id"] for x in ev if "id" in x and x["op"] in ("evadj", "dual")}):
        arms.append('        (1, "%s") => st_adj(&e(c.dense), %s, op, c),' % (t, ident(t)))
    for i, x in enumerate(exprs):
        if i == 0:
            if any(v["e"] == 1 and v["op"] in ("eval", "shape", "spec") for v in ev):
                arms.append('        (1, "") => st_ev(&e(c.dense), op, c),')
            continue
        arms.append('        (%d, _) => st_ev(&Differentiable::<Id<%d>>::adjoint(&e(c.dense), %s), op, c),'
                    % (i + 1, SORTS.index(x[1][0]), ident(x[1])))
    return "fn p%d(op: &str, x: usize, id: &str, c: &mut Ctx) -> Value {\n    let e = |d: bool| %s;\n    match (x, id) {\n%s\n        _ => unreachable!(),\n    }\n}\n" % (
        k, rust(exprs[0]), "\n".join(arms))


HEAD = """#![allow(unused, unused_variables)]
use aegir::meta::*;
use aegir::ops::special::*;
use aegir::ops::trig::*;
use aegir::ops::*;
use aegir::{Differentiable, Function, Node};
use aegir_vh::base_z::*;
use aegir_vh::js::*;
"""


CRATE = codegen.Crate("static", "st", HEAD, lambda ks: "fn main() { st_serve(&[%s]) }" % ", ".join("(%d, p%d)" % (k, k) for k in ks))


def compile_programs(progs, log):
    return CRATE.build({k: code(k, *progs[k]) for k in progs}, log, lambda k: json.dumps(progs[k][0][0]))


def context(rng, ids, j):
    """values for identifiers; the first context of a program is ordinary, later ones
    take structured and special forms"""
    out = {}
    for i in sorted(ids):
        s = DIMS[i[0]]
        n = 1
        for d in s:
            n *= d
        k = "raw"
        if j >= 2 and rng.random() < 0.6:
            k = rng.choice(["full", "diag"]) if i[0] not in "ST" else "full"
        if k == "raw":
            out[i] = {"k": k, "s": s, "d": [rng.choice([rng.randrange(P), rng.choice([0, 1, 2, 3, P - 1])]) if j else rng.randrange(2, P)
                                           for _ in range(n)]}
        else:
            out[i] = {"k": k, "s": s, "d": [rng.choice([0, 1, rng.randrange(P)])]}
    return out


def enumerate_programs(work, depth):
    r, g, d = run.tlc(work, "StaticMC", extra_env={"DEPTH": str(depth)}, workers=run.CORES, heap="8g", timeout=700)
    if "No error has been found" not in r.stdout:
        raise Tool("StaticMC: %s" % r.stdout[-4000:])
    ps = {m.group(1).encode().decode("unicode_escape") for m in re.finditer(r'^"P (.*)"$', r.stdout, re.M)}
    return [json.loads(p) for p in sorted(ps)], g, d


def gaps(rng, ids, j):
    """contexts with variables missing"""
    out = context(rng, ids, j % 2 * 2)
    for i in rng.sample(sorted(out), rng.choice([1, 1, 2, len(out)]) if len(out) > 1 else 1):
        out.pop(i, None)
    return out


def structured(rng, ids, j):
    return context(rng, ids, 2)


# what is compared, programs per run (quick, thorough), contexts
LANES = {"C03": ({"value", "err", "panic", "shape", "twin", "slot", "ctxvar"}, 800, 800, context),
         "C05": ({"twin"}, 200, 640, structured),
         "C06": ({"shape"}, 200, 640, lambda rng, ids, j: (gaps if j == 3 else context)(rng, ids, j)),
         "C07": ({"err", "panic", "ctxvar"}, 200, 640, gaps),
         "C20": ({"value", "err", "panic", "ctxvar", "slot"}, 160, 640, context)}


def again(rng, ev):
    """a longer history: everything twice, with changes of the context between"""
    out = ev + rng.sample(ev, len(ev))
    rng.shuffle(out)
    return out


def check(c):
    tags, quick, thorough, inputs = LANES[c.pid]
    with ThreadPoolExecutor(2) as ex:
        fb = ex.submit(run.build, "harness", ["world_z"])
        ps, g, d = enumerate_programs(c.work, 3 if c.thorough else 2)
        c.log("harness built in %.1fs; %d programs enumerated and their derivatives model-checked" % (fb.result(), len(ps)))
    c.states(g, d)
    c.cov["programs_enumerated"] = c.cov.get("programs_enumerated", 0) + len(ps)
    known = [(q, t) for q, t in c.known_inputs() if "events" in q]
    rounds = 8 if c.thorough else 1
    ncomp = tot = nontriv = 0
    used = set()
    for rnd in range(rounds):
        rng = random.Random("%s-%d-%d" % (c.pid, c.seed, rnd))
        sel = choose(rng, ps, thorough if c.thorough else quick, used)
        used |= {json.dumps(p["e"]) for p in sel}
        progs = {k: plan(rng, p) for k, p in enumerate(sel)}
        if rnd == 0:
            for q, _ in known:
                progs[len(progs)] = (q["exprs"], q["events"])
        alive = compile_programs(progs, c.log)
        ncomp += len(alive)
        c.log("round %d: %d programs compiled" % (rnd + 1, len(alive)))
        ss = []
        for k in alive:
            exprs, ev = progs[k]
            kq = [q for q, _ in known if q["exprs"] is exprs]
            for j in range(1 if kq else 6 if c.thorough else 4):
                ids = set().union(*(occurring(e) for e in exprs)) | {x["id"] for x in ev if "id" in x}
                init = kq[0]["init"] if kq else inputs(rng, ids, j)
                for sl in sorted(slots(exprs[0])):
                    if j == 3 and not kq:     # a memoised value from before
                        init[sl] = context(rng, [sl], 0)[sl]
                evs = list(ev)
                if not kq:
                    rng.shuffle(evs)
                if c.pid == "C20":
                    evs = again(rng, evs)
                    for pos in (3, 6, 9):
                        v = rng.choice(sorted(ids))
                        evs.insert(pos, {"op": "set", "id": v, "v": context(rng, [v], 3)[v]})
                if slots(exprs[0]) and not kq and c.pid != "C20":
                    evs = evs[:5]
                ss.append({"id": len(ss), "prog": k, "init": init, "exprs": exprs, "events": evs})
        lines = CRATE.run(ss)
        bad, g, d = run.judge(c.work, "Trace", traces.with_canaries(lines))
        bad = traces.split_canaries(bad)
        c.states(g, d)
        c.cov["traces_validated_against_impl"] += len(ss)
        for l in lines:
            r = json.loads(l)
            for k, e in enumerate(r["events"]):
                if "res" in e:
                    tot += 1
                    nontriv += traces.informative(e)
                rel = bad.get((r["id"], k + 1), set()) & tags
                if not rel:
                    continue
                src = ss[r["id"]]
                kf = [t for q, t in known if q["exprs"] is src["exprs"]]
                if kf:
                    c.known.append(kf[0])
                    continue
                c.violation("%s in event %d (%s %s) of %s: observed %s" % (
                    "/".join(sorted(rel)), k + 1, e["op"], e.get("id", ""), json.dumps(r["exprs"][e["e"] - 1])[:400],
                    json.dumps(e.get("res"))[:300]),
                    {"property": c.pid, "kind": "static", "tags": sorted(rel), "event": k + 1, "session": src})
            if len(c.cov["samples"]) < 2 and len(ops(r["exprs"][0])) > 3 and "K" not in l[:200]:
                c.cov["samples"].append({"exprs": r["exprs"], "ctx": r["ctx0"], "events": [{x: e.get(x) for x in ("op", "e", "id", "res")} for e in r["events"]][:3]})
        c.log("round %d: %d histories judged, %d deviations" % (rnd + 1, len(ss), len(c.viol)))
        if c.viol:
            break
    c.cov["programs_compiled"] = ncomp
    c.cov["observations"] = c.cov.get("observations", 0) + tot
    c.cov["observations_with_a_defined_expectation"] = c.cov.get("observations_with_a_defined_expectation", 0) + nontriv
    c.viol.sort(key=lambda v: len(json.dumps(v[1].get("session", {}).get("exprs"))))


def replay(obj):
    w = run.Work("replay")
    try:
        s = dict(obj["session"], id=1, prog=0)
        run.build("harness", ["world_z"])
        if not compile_programs({0: (s["exprs"], s["events"])}, print):
            raise Tool("does not compile")
        out = CRATE.run([s])
        return traces.show(w, out[0])
    finally:
        w.close()
