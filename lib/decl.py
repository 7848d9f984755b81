"""What the declaration macros generate: declarations enumerated by TLC
(Decl.tla), written out as Rust, compiled, put through histories enumerated by
TLC (CtxMC.tla) and judged by TLC."""
import json, random, re
from concurrent.futures import ThreadPoolExecutor
import run, codegen
from run import Tool

HEAD = """#![allow(unused, non_camel_case_types)]
#[macro_use] extern crate aegir;
use aegir::buffers::{Buffer, Scalar};
use aegir::meta::{Constant, Variable};
use aegir::ops::{Add, Negate};
use aegir::{Contains, Context, Differentiable, Function, Identifier, Node, Read, Write};
use aegir_vh::js::*;
use serde_json::{json, Value};
ids!(I1::i1, I2::value, I3::q, I4, I5::r, I6::"six", I7, I8::i, I9::x);
fn no() -> Value { json!({"k": "none", "s": [], "d": []}) }
fn some<B: Flat>(b: &B) -> Value { json!({"k": "some", "s": b.dims_of(), "d": b.to_flat()}) }
fn shape<S: Dims>(s: &S) -> Value { json!({"k": "some", "s": s.dims(), "d": []}) }
fn opt<B: Flat>(b: &Option<B>) -> Value { b.as_ref().map_or_else(no, some) }
fn mk<B: Flat>(v: &Value) -> B { B::from_flat(&usizes(&v["s"]), &ints(&v["d"])) }
fn seen<I: Identifier, C: Read<I>>(c: &mut C, i: I, field: Value) -> Value
where C::Buffer: Flat, <C::Buffer as Buffer>::Field: Num, <C::Buffer as aegir::buffers::shapes::Shaped>::Shape: Dims, {
    let v = i.into_var();
    json!([
        guarded(|| opt(&c.read(i))).unwrap_or_else(|p| json!(p)),
        guarded(|| c.read_spec(i).map_or_else(no, |s| some(&s.unwrap()))).unwrap_or_else(|p| json!(p)),
        guarded(|| c.read_shape(i).map_or_else(no, |s| shape(&s))).unwrap_or_else(|p| json!(p)),
        field,
        guarded(|| v.evaluate(&mut *c).ok().map_or_else(no, |b| some(&b))).unwrap_or_else(|p| json!(p)),
        guarded(|| v.evaluate_shape(&mut *c).ok().map_or_else(no, |s| shape(&s))).unwrap_or_else(|p| json!(p)),
    ])
}
fn wr<I: Identifier, C: Write<I>>(c: &mut C, i: I, op: &Value) -> Value where C::Buffer: Flat, <C::Buffer as Buffer>::Field: Num, {
    match guarded(|| if op[0] == "write" { c.write(i, mk(&op[2])) } else { c.write_spec(i, read_spec(&op[2])) }) {
        Ok(()) => no(),
        Err(p) => json!(p),
    }
}
fn ca<I: Identifier, J: Identifier, B: Flat, C: Read<I, Buffer = B> + Write<J, Buffer = B>>(c: &mut C, i: I, j: J) -> Value {
    guarded(|| i.into_var().cached(j).evaluate(&mut *c).ok().map_or_else(no, |b| some(&b))).unwrap_or_else(|p| json!(p))
}
fn snap(ids: Vec<Value>, free: Vec<String>, ans: &Value) -> Value { json!({"ids": ids, "free": free, "ans": ans}) }
fn cps(s: String) -> Vec<u32> { s.chars().map(|c| c as u32).collect() }
/// An identifier told apart when the program runs only.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
struct Dyn(u8);
impl std::fmt::Display for Dyn { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "i{}", self.0) } }
impl Identifier for Dyn {}
macro_rules! dyns { ($($i:ident = $k:literal),+) => {$(
    impl PartialEq<$i> for Dyn { fn eq(&self, _: &$i) -> bool { self.0 == $k } }
    impl PartialEq<Dyn> for $i { fn eq(&self, d: &Dyn) -> bool { d.0 == $k } }
)+} }
dyns!(I1 = 1, I2 = 2, I3 = 3, I4 = 4, I5 = 5);
/// A user-defined operator.
#[derive(Contains)]
struct Two<A, B>(#[op] A, #[op] B);
impl<A, B> Node for Two<A, B> {}
macro_rules! table { ($($a:ident),+; $l:tt) => { vec![$(table!(@row $a $l)),+] };
    (@row $a:ident [$($b:ident),+]) => { vec![$($a == $b),+] } }
macro_rules! untable { ($($a:ident),+; $l:tt) => { vec![$(untable!(@row $a $l)),+] };
    (@row $a:ident [$($b:ident),+]) => { vec![$($a != $b),+] } }
macro_rules! has { ($($a:ident),+; $l:tt) => { vec![$(has!(@row $a $l)),+] };
    (@row $a:ident [$($b:ident),+]) => { vec![$($a.into_var().contains($b)),+] } }
"""

TYPES = {"f64": ("f64", []), "i32": ("i32", []), "arr": ("[f64; 2]", [2]), "mat": ("[[f32; 2]; 3]", [3, 2]),
         "pair": ("(f64, f64)", [2]), "vec": ("Vec<f64>", None), "t3": ("[[[i64; 2]; 1]; 2]", [2, 1, 2])}
FREE = {"str": ("&'a str", '"note"'), "string": ("String", '"text".to_string()'), "option": ("Option<f64>", "None"), "f64": ("f64", "2.5")}
IDS = ["I%d" % i for i in range(1, 10)]
PLAIN_NAMES = ["x", "value", "fid", "buf", "i1", "q", "spec", "ident", "c", "_i2", "field", "aegir", "target"]


def ctx_code(k, q):
    """q: style, fields with id, name and so on filled in by fill_ctx"""
    fs = q["fields"]
    gens, wheres, decl, init = [], [], [], []
    need = {f["ty"] for f in fs if f["role"] != "free"}
    life = any(f["role"] == "free" and f["cls"] == "str" for f in fs)
    bound = q["bound"]
    def gen(name, b):
        gens.append("%s: %s" % (name, b) if bound == "inline" else name)
        if bound == "where":
            wheres.append("%s: %s" % (name, b))
    if "shared" in need:
        gen("B", "Buffer")
    if need & {"gvec", "garr"}:
        gen("F", "Scalar")
    lab, free = [], []
    for n, f in enumerate(fs):
        nm = f["name"]
        if f["role"] == "free":
            t, e = FREE[f["cls"]]
            decl.append("%s%s: %s" % (f["vis"], nm, t))
            init.append("%s: %s" % (nm, e))
            free.append(nm)
            continue
        conc = TYPES[f["cls"]][0]
        t = {"conc": conc, "own": "G%d" % n, "shared": "B", "gvec": "Vec<F>", "garr": "[F; N]"}[f["ty"]]
        if f["ty"] == "own":
            gen("G%d" % n, "Buffer")
        cache = f["role"] == "cache"
        at = (["#[cache]"] if cache else []) + ["#[id(%s)]" % f["id"]]
        if f["flip"]:
            at.reverse()
        if f["doc"]:
            at.insert(1, "#[doc = \"a field\"]")
        decl.append("%s %s%s: %s" % (" ".join(at), f["vis"], nm, "Option<%s>" % t if cache else t))
        lab.append((f["id"], nm, cache, conc, f["cls"]))
        init.append("%s: %s" % (nm, "None::<%s>" % conc if cache else "mk::<%s>(&q[\"init\"][%d])" % (conc, len(lab) - 1)))
    if "garr" in need:
        gens.append("const N: usize")
    gl = (["'a"] if life else []) + gens
    if q["style"] == "derive":
        head = "    #[derive(Context)]\n    pub struct C%s%s { %s }\n" % (
            "<%s>" % ", ".join(gl) if gl else "", " where %s" % ", ".join(wheres) if wheres else "", ", ".join(decl))
        build = "C { %s }" % ", ".join(init)
    elif q["style"] == "type":
        head = "    ctx_type!(C { %s });\n" % ", ".join("%s%s: %s" % ("cache " if c else "", n, i) for i, n, c, _, _ in lab)
        build = "C { %s }" % ", ".join(init)
    elif q["style"] == "hand":
        rw = "".join("    impl Read<%s> for C { type Buffer = %s; fn read(&self, _: %s) -> Option<%s> { %s } }\n"
                     "    impl Write<%s> for C { fn write(&mut self, _: %s, v: %s) { self.%s = %s; } }\n"
                     % (i, t, i, t, "self.%s.clone()" % n if c else "Some(self.%s.clone())" % n, i, i, t, n, "Some(v)" if c else "v")
                     for i, n, c, t, _ in lab)
        head = "    pub struct C { %s }\n    impl AsMut<C> for C { fn as_mut(&mut self) -> &mut C { self } }\n    impl Context for C {}\n%s" % (
            ", ".join("%s: %s" % (n, "Option<%s>" % t if c else t) for _, n, c, t, _ in lab), rw)
        build = "C { %s }" % ", ".join(init)
    else:
        head = ""
        build = "ctx!{%s}" % ", ".join("%s = mk::<%s>(&q[\"init\"][%d])" % (i, t, n) for n, (i, _, _, t, _) in enumerate(lab))
        lab = [(i, "_" + i.lower(), c, t, s) for i, _, c, t, s in lab]
    snap = "snap(vec![%s], vec![%s], &ans)" % (
        ", ".join("{ let f = %s(&c.%s); seen(&mut c, %s, f) }" % ("opt" if c else "some", n, i) for i, n, c, _, _ in lab),
        ", ".join("format!(\"{:?}\", c.%s)" % n for n in free))
    writes = "".join("%d => wr(&mut c, %s, op), " % (n + 1, i) for n, (i, _, _, _, _) in enumerate(lab))
    caches = "".join("(%d, %d) => ca(&mut c, %s, %s), " % (a + 1, b + 1, lab[a][0], lab[b][0])
                     for a in range(len(lab)) for b in range(len(lab)) if a != b and lab[b][2] and lab[a][4] == lab[b][4])
    return ("mod m%d {\n    use super::*;\n%s    pub fn run(q: &Value) -> Value {\n        let mut c = %s;\n        let mut ans = no();\n"
            "        let mut out = vec![%s];\n        for op in q[\"ops\"].as_array().unwrap() {\n            ans = if op[0] == \"cache\" { match (op[1].as_u64().unwrap(), op[2].as_u64().unwrap()) { %s_ => json!(\"?\") } }\n"
            "            else { match op[1].as_u64().unwrap() { %s_ => json!(\"?\") } };\n            out.push(%s);\n        }\n        json!(out)\n    }\n}"
            % (k, head, build, snap, caches, writes, snap))


def fill_ctx(rng, d):
    q = {"style": d["style"], "bound": rng.choice(["none", "inline", "where"]), "fields": []}
    ids, names = rng.sample(IDS, len(IDS)), rng.sample(PLAIN_NAMES, len(PLAIN_NAMES))
    # the macros make one generic parameter per field of these styles
    for f in d["fields"]:
        f = dict(f, name=names.pop(), flip=rng.random() < 0.5, doc=rng.random() < 0.3, vis=rng.choice(["", "pub ", "pub(crate) "]))
        if f["role"] != "free":
            f["id"] = ids.pop()
        q["fields"].append(f)
    return q


def buf(rng, cls, form="raw"):
    s = TYPES[cls][1]
    s = [rng.randrange(0, 4)] if s is None else s
    n = 1
    for x in s:
        n *= x
    v = lambda: rng.choice([0, 1, rng.randrange(2, 100), 32749 - rng.randrange(1, 50)])
    d = [v() for _ in range(n if form == "raw" else 1)]
    x = rng.random()
    if form == "raw" and n > 1 and x < 0.35:         # all alike; entries that cancel; equal ends
        a = v()
        d = [a] * n if x < 0.15 else [a, (32749 - a) % 32749] * (n // 2) + [0] * (n % 2) if x < 0.25 else [a] + d[1:-1] + [a]
    return {"k": form, "s": s, "d": d}


def history(rng, q, h):
    """a behaviour of the model with contents put in; operations the types do not admit are dropped"""
    lab = [f for f in q["fields"] if f["role"] != "free"]
    ops = []
    for op in h:
        cls = lab[op[1] - 1]["cls"]
        if op[0] == "write":
            ops.append(["write", op[1], buf(rng, cls)])
        elif op[0] == "wspec":
            ops.append(["wspec", op[1], buf(rng, cls, op[2])])
        elif lab[op[2] - 1]["cls"] == cls:
            ops.append(op)
    init = [{"k": "some", **{x: v for x, v in buf(rng, f["cls"]).items() if x != "k"}} for f in lab]
    return {"what": "ctx", "caches": [f["role"] == "cache" for f in lab], "init": init, "ops": ops,
            "free": [{"str": '"note"', "string": '"text"', "option": "None", "f64": "2.5"}[f["cls"]] for f in q["fields"] if f["role"] == "free"]}


# ------------------------------------------------------------------ identifiers
LATIN = [chr(65 + i) for i in range(26)]
GREEK = "Alpha Beta Gamma Delta Epsilon Zeta Eta Theta Iota Kappa Lambda Mu Nu Xi Omicron Pi Rho Sigma Tau Upsilon Phi Chi Psi Omega".split()
TEXT = {"str:sigma": "\u03c3", "str:smile": "\U0001F600"}


def points(s):
    return [ord(c) for c in s]


def symbol(s):
    return None if s == "none" else TEXT.get(s, s.split(":", 1)[1])


def rust_string(s):
    return '"%s"' % "".join(c if c.isascii() and c not in '"\\' else "\\u{%x}" % ord(c) for c in s)


def ids_code(k, names, head):
    l = ", ".join(names)
    n = len(names)
    look = ", ".join("read_num(&c, %s)" % x for x in names)
    slope = ", ".join("vec![%s]" % ", ".join("%s.into_var().adjoint(%s).evaluate(&mut c).ok() == Some(1.0f64)" % (a, b) for b in names) for a in names)
    return ("mod m%d {\n    use super::*;\n    %s\n    #[derive(Context)]\n    struct Look { %s }\n    fn read_num<I: Identifier, C: Read<I, Buffer = f64>>(c: &C, i: I) -> i64 { c.read(i).map_or(-1, |x| x as i64) }\n"
            "    pub fn run(q: &Value) -> Value {\n        let mut c = Look { %s };\n        let slope: Vec<Vec<bool>> = vec![%s];\n        json!({\"shown\": vec![%s], \"vars\": vec![%s], \"eq\": table!(%s; [%s]), \"ne\": untable!(%s; [%s]), \"has\": has!(%s; [%s]), \"look\": vec![%s], \"slope\": slope})\n    }\n}"
            % (k, head, ", ".join("#[id(%s)] f%d: f64" % (x, i) for i, x in enumerate(names)), ", ".join("f%d: %d.0" % (i, i + 1) for i in range(n)), slope,
               ", ".join("cps(%s.to_string())" % x for x in names), ", ".join("cps(%s.into_var().to_string())" % x for x in names),
               l, l, l, l, l, l, look))


def ids_item(k, d):
    if d == "predefined":
        return ids_code(k, LATIN + GREEK, "use aegir::ids::*; use super::Contains;")
    parts = []
    for n, s in zip(d["names"], d["syms"]):
        parts.append(n if s == "none" else "%s::%s" % (n, s[3:] if s.startswith("id:") else rust_string(symbol(s))))
    return ids_code(k, d["names"], "ids!(%s);" % ", ".join(parts))


def ids_request(d):
    if d == "predefined":
        return {"what": "predefined"}
    return {"what": "ids", "names": [points(n) for n in d["names"]], "given": [[] if symbol(s) is None else [points(symbol(s))] for s in d["syms"]]}


# -------------------------------------------------------------------- operators
OPS = {"add": "Add", "user": "Two", "neg": "Negate"}


def operand(e, dyn=False):
    if e[0] == "const":
        return "Constant(2.0f64)"
    if e[0] == "var":
        return "Dyn(%d).into_var()" % e[1] if dyn else "%s.into_var()" % IDS[e[1] - 1]
    if e[0] == "cached":
        return "%s.cached(%s)" % (operand(e[1], dyn), "Dyn(%d)" % e[2] if dyn else IDS[e[2] - 1])
    return "%s(%s)" % (OPS[e[0]], ", ".join(operand(x, dyn) for x in e[1:]))


def type_of(e):
    if e[0] == "const":
        return "Constant<f64>"
    if e[0] == "var":
        return "Variable<%s>" % IDS[e[1] - 1]
    if e[0] == "cached":
        return "aegir::meta::Cached<%s, %s>" % (type_of(e[1]), IDS[e[2] - 1])
    return "%s<%s>" % (OPS[e[0]], ", ".join(map(type_of, e[1:])))


def form(e):
    return [e[0]] + [form(x) for x in e[1:] if isinstance(x, list)]


def op_item(k, d):
    n = len(d["args"])
    how = d.get("typing", "own")     # a type parameter each, one for all, concrete types, a parameter inside a type
    dyn = how == "shared"
    gs = d["gens"]
    if how == "shared":
        gs = [gs[0]] * n
    ps = [] if how == "conc" else sorted(set(gs[:n]), key=gs.index)
    ts = [type_of(a) for a in d["args"]] if how == "conc" else gs
    if how == "inner":
        ts = ["%s<%s>" % (OPS[a[0]], ", ".join([g] + [type_of(x) for x in a[2:]])) if a[0] in OPS else g for a, g in zip(d["args"], gs)]
    vis = ["", "pub ", "pub(crate) "]
    named = d["style"] == "named"
    fs = ["#[op] %s%s%s" % (vis[d["vis"][i]], "%s: " % d["names"][i] if named else "", ts[i]) for i in range(n)]
    if d["doc"]:
        fs[-1] = "#[doc = \"operand\"] " + fs[-1]
    where = " where %s: Node" % ps[0] if d["where"] and ps else ""
    angle = lambda l: "<%s>" % ", ".join(l) if l else ""
    g = angle(ps + (["const M: usize"] if d["const"] else []))
    gm = angle(ps + (["M"] if d["const"] else []))
    body = "%s%s {%s}" % (g, where, ", ".join(fs)) if named else "%s(%s)%s;" % (g, ", ".join(fs), where)
    turbo = "::" + angle(["_"] * len(ps) + ["3"]) if d["const"] else ""
    make = "Op%s {%s}" % (turbo, ", ".join("%s: %s" % (d["names"][i], operand(a, dyn)) for i, a in enumerate(d["args"]))) if named \
        else "Op%s(%s)" % (turbo, ", ".join(operand(a, dyn) for a in d["args"]))
    return ("mod m%d {\n    use super::*;\n    #[derive(Contains)]\n    pub struct Op%s\n    impl%s Node for Op%s%s {}\n    pub fn run(q: &Value) -> Value {\n        let e = %s;\n"
            "        json!([e.contains(I1), e.contains(I2), e.contains(I3), e.contains(I4)])\n    }\n}" % (k, body, g, gm, where, make))


def fill_op(rng, d):
    same = all(form(a) == form(d["args"][0]) for a in d["args"])
    return dict(d, typing=rng.choice(["own", "own", "conc", "inner"] + ["shared"] * (4 if same else 0)), gens=rng.sample(["A", "B", "L", "R", "N", "N1", "Inner", "X"], 5), names=rng.sample(["left", "right", "x", "inner", "node", "target", "op"], 5),
                vis=[rng.randrange(3) for _ in range(5)], doc=rng.random() < 0.3, where=rng.random() < 0.4, const=rng.random() < 0.3)


def main(ks):
    return """fn main() {
    quiet_panics();
    let fs: &[(u64, fn(&Value) -> Value)] = &[%s];
    for line in std::io::stdin().lines() {
        let mut q: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let k = q["prog"].as_u64().unwrap();
        q["out"] = guarded(|| fs.iter().find(|f| f.0 == k).unwrap().1(&q)).unwrap_or_else(|p| json!([p]));
        println!("{}", q);
    }
}""" % ", ".join("(%d, m%d::run)" % (k, k) for k in ks)


def crate(pid):
    return codegen.Crate("decl" + pid, "decl_%s_" % pid.lower(), HEAD, main)


def enumerate_(c):
    out = c.work.path("decls.ndjson")
    r, g, d = run.tlc(c.work, "DeclGen", extra_env={"OUT": out, "AREA": c.pid})
    if "No error has been found" not in r.stdout:
        raise Tool("DeclGen: %s" % r.stdout[-3000:])
    c.states(g, d)
    return sorted((json.loads(l) for l in open(out)), key=lambda q: json.dumps(q, sort_keys=True))


def histories(c):
    r, g, d = run.tlc(c.work, "CtxMC", extra_env={"DEPTH": "3", "FIELDS": "3"}, workers=4, heap="6g")
    if "No error has been found" not in r.stdout:
        raise Tool("CtxMC: %s" % r.stdout[-3000:])
    c.states(g, d)
    by = {}
    for m in re.finditer(r'^"H (.*)"$', r.stdout, re.M):
        h = json.loads(m.group(1).encode().decode("unicode_escape"))
        by.setdefault(tuple(h["c"]), []).append(h["ev"])
    for v in by.values():
        v.sort(key=json.dumps)
    c.log("context model: %d states, %d histories" % (d, sum(map(len, by.values()))))
    return by


def longer(rng, caches, hs):
    """a random history, longer than the model's"""
    return [op for _ in range(rng.randrange(2, 5)) for op in rng.choice(hs)]


def spoil(rng, r):
    r = json.loads(json.dumps(r))
    o = r["out"]
    if r["what"] == "ctx":
        s = rng.choice(o)
        if not s["ids"]:
            s["ans"] = {"k": "some", "s": [], "d": [3]}
            return r
        v = rng.choice(s["ids"])[rng.randrange(5)]
        if v["k"] == "none":
            v["k"] = "some"
        elif v["d"]:
            v["d"][-1] = (v["d"][-1] + 1) % 32749
        else:
            v["s"] = v["s"] + [1]
    elif r["what"] == "op":
        i = rng.randrange(4)
        o[i] = not o[i]
    else:
        n = len(o["eq"])
        k = rng.choice(["shown", "eq", "ne", "has", "look", "slope"])
        i, j = rng.randrange(n), rng.randrange(n)
        if k == "look":
            o[k][i] = 99
        elif k == "shown":
            o[k][i] = o[k][i] + [120]
        else:
            o[k][i][j] = not o[k][i][j]
    return r


def plan(c, rng, decls, hists, rnd):
    """(items, requests) of one round"""
    items, reqs = {}, []
    if c.pid == "C09":
        one = [d for d in decls if len(d["fields"]) == 1]
        rest = [d for d in decls if len(d["fields"]) > 1]
        n = 600 if c.thorough else 260
        ds = (one if rnd == 0 else []) + (rest[rnd * n:(rnd + 1) * n] if c.thorough else rng.sample(rest, n))
        # and wider ones
        pool = [f for d in one for f in d["fields"] if d["style"] == "derive"]
        own = [f for d in one for f in d["fields"] if d["style"] == "type"]
        plain = [f for f in own if f["role"] == "plain"]
        for _ in range(n // 6):
            k = rng.choice([3, 4, 4, 5, 5, 6, 7, 8, 9])
            fs = [rng.choice(pool) for _ in range(k)]
            ds.append({"style": "derive", "fields": fs})
            ds.append({"style": "type", "fields": [rng.choice(own) for _ in range(k)]})
            if rng.random() < .5:
                ds.append({"style": "ctx", "fields": [rng.choice(plain) for _ in range(k)]})
            elif rng.random() < .5:
                ds.append({"style": "hand", "fields": [rng.choice(own) for _ in range(k)]})
        for k, d in enumerate(ds):
            # a type parameter shared between fields holds one class of buffer
            q = fill_ctx(rng, d)
            items[k] = (ctx_code(k, q), q)
            caches = tuple(f["role"] == "cache" for f in q["fields"] if f["role"] != "free")
            for _ in range(14 if c.thorough else 10):
                if not caches:
                    h = []
                elif caches in hists and rng.random() < 0.6:
                    h = rng.choice(hists[caches])
                elif caches in hists:
                    h = longer(rng, caches, hists[caches])
                else:
                    h = random_history(rng, caches)
                reqs.append(dict(history(rng, q, h), prog=k))
    elif c.pid == "C18":
        ds = (["predefined"] if rnd == 0 else [])
        ones = [d for d in decls if len(d["names"]) == 1]
        rest = [d for d in decls if len(d["names"]) > 1]
        n = 900 if c.thorough else 300
        ds += (ones if rnd == 0 else []) + (rest[rnd * n:(rnd + 1) * n] if c.thorough else rng.sample(rest, n))
        for _ in range(n // 10):
            k = rng.randrange(4, 9)
            syms = sorted({s for d in ones for s in d["syms"]})
            ds.append({"names": rng.sample(["P", "Q", "R", "Left", "Right", "Up", "Sigma2", "Zz", "A1", "B_c"], k), "syms": [rng.choice(syms) for _ in range(k)]})
        for k, d in enumerate(ds):
            items[k] = (ids_item(k, d), d)
            reqs.append(dict(ids_request(d), prog=k))
    else:
        n = 600 if c.thorough else 200
        first = [d for d in decls if len(d["args"]) in (1, 4, 5)]
        rest = [d for d in decls if len(d["args"]) in (2, 3)]
        ds = (first if rnd == 0 else []) + (rest[rnd * n:(rnd + 1) * n] if c.thorough else rng.sample(rest, n))
        wrap = [lambda v: v, lambda v: ["neg", v], lambda v: ["user", ["const"], v], lambda v: ["cached", v, rng.randint(1, 4)]]
        for _ in range(n // 6):      # operands of one type
            w = rng.choice(wrap)
            ds.append({"style": rng.choice(["tuple", "named"]), "args": [w(["var", rng.randint(1, 4)]) for _ in range(rng.randint(2, 4))]})
        for k, d in enumerate(ds):
            d = fill_op(rng, d)
            items[k] = (op_item(k, d), d)
            reqs.append({"what": "op", "args": d["args"], "prog": k})
    return items, reqs


def random_history(rng, caches):
    n = len(caches)
    out = []
    for _ in range(rng.randrange(2, 9)):
        i = rng.randint(1, n)
        j = rng.randint(1, n)
        x = rng.random()
        if x < 0.3 and i != j and caches[j - 1]:
            out.append(["cache", i, j])
        elif x < 0.6:
            out.append(["wspec", i, rng.choice(["raw", "full", "diag"])])
        else:
            out.append(["write", i, 0])
    return out


def check(c):
    with ThreadPoolExecutor(3) as ex:
        fb = ex.submit(run.build, "harness", ["world_z"])
        fd = ex.submit(enumerate_, c)
        fh = ex.submit(histories, c) if c.pid == "C09" else None
        fb.result()
        decls, hists = fd.result(), fh.result() if fh else None
    c.log("%d declarations enumerated" % len(decls))
    c.cov["declarations_enumerated"] = len(decls)
    cr = crate(c.pid)
    planted = 0
    random.Random(7).shuffle(decls)
    for rnd in range({"C09": 4, "C18": 5, "C10": 1}[c.pid] if c.thorough else 1):
        rng = random.Random("decl-%s-%d-%d" % (c.pid, c.seed, rnd))
        items, reqs = plan(c, rng, decls, hists, rnd)
        alive = set(cr.build({k: v[0] for k, v in items.items()}, c.log, lambda k: json.dumps(items[k][1])[:300]))
        for k in sorted(set(items) - alive):
            c.violation("the code generated for this declaration does not compile: %s" % re.sub(r"\s+", " ", items[k][0].split("pub fn run")[0])[:600],
                        {"property": c.pid, "kind": "decl", "item": items[k][1], "request": {}})
        reqs = [q for q in reqs if q["prog"] in alive]
        for i, q in enumerate(reqs):
            q["id"] = i
        lines = cr.run(reqs)
        good = [l for l in lines if '"out":[{' in l or '"out":{' in l or '"out":[true' in l or '"out":[false' in l]
        wrong = [json.dumps(dict(spoil(rng, json.loads(l)), id=-1 - i)) for i, l in enumerate(rng.sample(good, min(40, len(good))))]
        bad, g, d = run.judge(c.work, "DeclJudge", lines + wrong)
        c.states(g, d)
        real = sorted(k for k, _ in bad if k >= 0)
        for i, w in enumerate(wrong):
            if (-1 - i, 0) not in bad and not real:
                raise Tool("the judge accepted a wrong answer: %s" % w)
        planted += len(wrong)
        c.cov["traces_validated_against_impl"] += len(lines)
        c.cov["declarations_compiled"] = c.cov.get("declarations_compiled", 0) + len(alive)
        by = {q["id"]: q for q in map(json.loads, lines)} if real or rnd == 0 else {}
        if rnd == 0:
            c.cov["samples"] = c.cov["samples"][:2] + [by[len(by) // 3]]
        for k in real:
            q = dict(reqs[k])
            code, src = items[q["prog"]]
            c.violation("%s: history %s saw %s %s" % (re.sub(r"\s+", " ", code.split("pub fn run")[0])[:400], json.dumps(q.get("ops", q.get("args", ""))),
                                                    json.dumps(by[k]["out"])[:500], sorted(bad[(k, 0)])),
                        {"property": c.pid, "kind": "decl", "item": src, "request": {x: v for x, v in q.items() if x not in ("id", "prog")}})
        c.log("round %d: %d declarations, %d answers judged, %d deviations" % (rnd + 1, len(alive), len(lines), len(c.viol)))
        if c.viol:
            break
    c.cov["wrong_answers_planted_and_rejected"] = c.cov.get("wrong_answers_planted_and_rejected", 0) + planted
    c.viol.sort(key=lambda v: len(json.dumps(v[1])))


def replay(obj):
    pid = obj["property"]
    w = run.Work("replay")
    try:
        run.build("harness", ["world_z"])
        src = obj["item"]
        code = {"C09": ctx_code, "C18": ids_item, "C10": op_item}[pid](0, src)
        cr = codegen.Crate("decl-replay", "decl_replay_", HEAD, main)
        if not cr.build({0: code}, print, may_drop=2):
            print(code)
            print("DEVIATION: does not compile")
            return 1
        out = cr.run([dict(obj["request"], id=1, prog=0)])
        print(code)
        print(out[0])
        bad, _, _ = run.judge(w, "DeclJudge", out)
        print("DEVIATION %s" % sorted(bad[(1, 0)]) if bad else "as specified")
        return 1 if bad else 0
    finally:
        w.close()
