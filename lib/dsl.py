"""The aegir! language: notation enumerated by TLC (Dsl.tla), expanded by the
macro, the trees it builds judged by TLC against what the notation denotes."""
import json, random, re
from concurrent.futures import ThreadPoolExecutor
import run, codegen
from run import Tool

VARS = "xyzwu"


def text(c):
    return " ".join(x if isinstance(x, str) else atom(x) for x in c)


def atom(a):
    if a[0] == "v":
        return VARS[a[1] - 1]
    if a[0] == "lit":
        return a[1]
    if a[0] == "slot":
        return a[1].lower()
    if a[0] == "paren":
        return "(%s)" % text(a[1])
    if a[0] == "block":
        return "{ %s }" % text(a[1])
    if a[0] == "let":
        return "({ let t = %s; t %s %s })" % (text(a[1]), a[2], text(a[3]))
    if a[0] == "host":
        return HOST[a[1]] % ((text(a[2]),) * HOST[a[1]].count("%s"))
    if a[0] == "call":
        return "%s.%s(%s)" % (atom(a[1]), a[2], ", ".join(map(text, a[3])))
    return "%s(%s)" % (a[1], ", ".join(map(text, a[2])))


HOST = {"if": "(if yes { %s } else { %s })", "match": "(match yes { _ => %s })", "thunk": "(|| %s)()", "unsafe": "(unsafe { %s })",
        "tuple": "(%s, %s).0", "array": "[%s][K0]", "repeat": "[%s; K1][K0]", "struct": "(Hold { it: %s }).it", "loop": "(loop { break %s })",
        "ret": "(|| return %s)()", "clone": "(&(%s)).clone()", "deref": "(*&(%s))", "range": "((%s)..(%s)).start", "try": "(|| Some(Some(%s)?))().unwrap()",
        "assign": "({ let t; t = %s; t })", "group": "(%s)"}


def groups(c, out):
    """what macro_rules substitutes: the outermost atoms of kind group"""
    r = []
    for a in c:
        if isinstance(a, list) and a[:2] == ["host", "group"]:
            out.append(text(a[2]))
            a = ["slot", "$g%d" % (len(out) - 1)]
        elif isinstance(a, list) and a[0] in ("paren", "block"):
            a = [a[0], groups(a[1], out)]
        elif isinstance(a, list) and a[0] == "fn":
            a = [a[0], a[1], [groups(x, out) for x in a[2]]]
        r.append(a)
    return r


def code(k, c):
    # the notation is one token stream: on one line
    g = []
    t = groups(c, g)
    if g:
        return ("fn q%d() -> Value { let (x, y, z, w, u) = vars(); let (s5, s6) = (Id::<0>(5), Id::<0>(6)); let yes = true; macro_rules! mk { (%s) => { aegir!(%s) } } (mk!(%s)).d() }"
                % (k, ", ".join("$g%d:expr" % i for i in range(len(g))), text(t), ", ".join(g)))
    return "fn q%d() -> Value { let (x, y, z, w, u) = vars(); let (s5, s6) = (Id::<0>(5), Id::<0>(6)); let yes = true; (aegir!(%s)).d() }" % (k, text(c))


HEAD = """#![allow(unused)]
#[macro_use] extern crate aegir;
use aegir::ops::special::*;
use aegir::ops::trig::*;
use aegir::ops::*;
use aegir::{Node, Identifier, meta::Variable};
use aegir_vh::base_z::Id;
use aegir_vh::describe::Describe;
use serde_json::{json, Value};
const K0: usize = 0;
const K1: usize = 1;
struct Hold<T> { it: T }
type W = Variable<Id<0>>;
fn vars() -> (W, W, W, W, W) { (Id(1).into_var(), Id(2).into_var(), Id(3).into_var(), Id(4).into_var(), Id(5).into_var()) }
"""


def main(ks):
    return """fn main() {
    let fs: &[(u64, fn() -> Value)] = &[%s];
    for line in std::io::stdin().lines() {
        let mut q: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let k = q["prog"].as_u64().unwrap();
        q["out"] = fs.iter().find(|f| f.0 == k).unwrap().1();
        println!("{}", q);
    }
}""" % ", ".join("(%d, q%d)" % (k, k) for k in ks)


CRATE = codegen.Crate("dsl", "dsl", HEAD, main)


def rand_chain(rng, depth):
    n = rng.choice([0, 1, 2, 2, 3, 3, 4, 5] if depth > 1 else [1, 2])
    c = [rand_atom(rng, depth)]
    for _ in range(n):
        c += [rng.choice("+-*^"), rand_atom(rng, depth)]
    return c


UN = ["Sin", "Cos", "Exp", "Gamma", "Double", "Negate", "AddOne", "XLnX", "Rabbit", "Factorial::factorial"]
BI = ["Add", "Sub", "Mul", "Div", "Power", "TensorProduct::new", "TensorDot::new"]


def rand_atom(rng, depth):
    x = rng.random()
    if depth == 0 or x < 0.4:
        return ["v", rng.randint(1, 5)]
    if x < 0.55:
        return ["lit", rng.choice(["2", "2.0", "2", "3", "3.0", "2.5", "1e3", "22", "1", "0", "1.0", "0.0", "4", "20"])]
    if x < 0.75:
        return ["paren", rand_chain(rng, depth - 1)]
    if x < 0.88:
        a = rand_atom(rng, depth - 1)
        if a[0] == "block":
            a = ["paren", a[1]]
        if rng.random() < 0.5:
            return ["call", a, rng.choice(["abs", "neg", "ln", "squared", "sum", "sigmoid"]), []]
        return ["call", a, rng.choice(["add", "sub", "mul", "div", "dot", "pow"]), [rand_chain(rng, depth - 1)]]
    y = rng.random()
    if y < 0.35:
        if y < 0.07:
            return ["let", rand_chain(rng, depth - 1), rng.choice("+-*^"), rand_chain(rng, depth - 1)]
        h, c = rng.choice(sorted(HOST)), rand_chain(rng, depth - 1)
        # a substituted argument that starts with a path loses its grouping: a known finding
        return ["host", h, [["paren", c]] if h == "group" and re.match(r"\w+::", text(c)) else c]
    if rng.random() < 0.6:
        return ["fn", rng.choice(UN), [rand_chain(rng, depth - 1)]]
    return ["fn", rng.choice(BI), [rand_chain(rng, depth - 1), rand_chain(rng, depth - 1)]]


def spoil(rng, t):
    """another tree"""
    if t[0] in ("var", "lit"):
        return ["var", 9]
    t = list(t)
    if len(t) == 3 and t[0] != "cache" and t[1] != t[2]:
        return [t[0], t[2], t[1]]
    return [t[0]] + [spoil(rng, x) if isinstance(x, list) else x for x in t[1:]]


def check(c):
    out = c.work.path("requests.ndjson")
    with ThreadPoolExecutor(2) as ex:
        fb = ex.submit(run.build, "harness", ["world_z"])
        r, g, d = run.tlc(c.work, "DslGen", extra_env={"OUT": out, "AREA": c.pid})
        fb.result()
    if "No error has been found" not in r.stdout:
        raise Tool("DslGen: %s" % r.stdout[-3000:])
    c.states(g, d)
    reqs = [json.loads(l) for l in open(out)]
    reqs.sort(key=json.dumps)
    first = [q["e"] for q in reqs if q["n"] == 0 or (q["n"] == 1 and all(len(json.dumps(x)) < 40 for x in q["e"]))]
    rest = [q["e"] for q in reqs if q["n"] > 0]
    c.cov["notations_enumerated"] = len(reqs)
    c.log("%d notations enumerated" % len(reqs))
    known = c.known_inputs()
    spoiled = 0
    rounds = 6 if c.thorough else 1
    batch = 2600 if c.thorough else 10000
    for rnd in range(rounds):
        rng = random.Random("%s-%d-%d" % (c.pid, c.seed, rnd))
        todo = [k["e"] for k, _ in known] if rnd == 0 else []
        seen = set(map(json.dumps, todo))
        pool = (first if rnd == 0 else []) + [rand_chain(rng, 3) for _ in range(batch // 5)]
        if c.thorough:
            pool += rest[rnd::rounds]
        else:
            pool += rest
        for q in pool:
            if json.dumps(q) not in seen and len(json.dumps(q)) < 900:
                seen.add(json.dumps(q))
                todo.append(q)
        items = {k: code(k, e) for k, e in enumerate(todo)}
        alive = CRATE.build(items, c.log, lambda k: items[k])
        for k in sorted(set(items) - set(alive)):
            c.violation("aegir!(%s) does not compile" % text(todo[k]), {"property": c.pid, "kind": "dsl", "e": todo[k]})
        c.log("round %d: %d notations compiled" % (rnd + 1, len(alive)))
        lines = CRATE.run([{"id": k, "prog": k, "e": todo[k]} for k in alive])
        wrong = []
        for i, l in enumerate(rng.sample(lines, 24)):
            q = json.loads(l)
            wrong.append(json.dumps(dict(q, id=-1 - i, out=spoil(rng, q["out"]))))
        bad, g, d = run.judge(c.work, "DslJudge", lines + wrong)
        c.states(g, d)
        real = sorted(k for k, _ in bad if k >= 0)
        for i in range(len(wrong)):
            if (-1 - i, 0) not in bad and not real:
                raise Tool("the judge accepted a wrong tree: %s" % wrong[i])
        spoiled += len(wrong)
        c.cov["traces_validated_against_impl"] += len(lines)
        by = {json.loads(l)["id"]: json.loads(l) for l in lines} if real or not c.cov["samples"] else {}
        if not c.cov["samples"]:
            c.cov["samples"] = [dict(by[k], text=text(by[k]["e"])) for k in sorted(by)[200::len(by) // 2]]
        for k in real:
            q = by[k]
            kf = [t for f, t in known if f["e"] == q["e"]]
            if kf:
                c.known.append(kf[0])
                continue
            c.violation("aegir!(%s) built %s" % (text(q["e"]), json.dumps(q["out"])), {"property": c.pid, "kind": "dsl", "e": q["e"]})
        c.log("round %d: %d trees judged, %d deviations" % (rnd + 1, len(lines), len(c.viol)))
        if c.viol:
            break
    c.cov["wrong_trees_planted_and_rejected"] = spoiled
    c.viol.sort(key=lambda v: len(json.dumps(v[1])))


def replay(obj):
    w = run.Work("replay")
    try:
        run.build("harness", ["world_z"])
        if not CRATE.build({0: code(0, obj["e"])}, print, may_drop=2):
            print("notation: aegir!(%s) does not compile" % text(obj["e"]))
            return 1
        line = CRATE.run([{"id": 1, "prog": 0, "e": obj["e"]}])[0]
        f = w.path("t.ndjson")
        with open(f, "w") as h:
            h.write(line + "\n")
        t, _, _ = run.tlc(w, "DslJudge", extra_env={"TRACE": f})
        print("notation: aegir!(%s)" % text(obj["e"]))
        print("built:    %s" % json.dumps(json.loads(line)["out"]))
        for m in re.finditer(r'<<"WANT", \d+, (.*?)>>\n', t.stdout, re.S):
            print("specification: %s" % m.group(1))
        return 1 if '"BAD"' in t.stdout else 0
    finally:
        w.close()
