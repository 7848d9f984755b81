"""The checks decided on single calls of the library's API: TLC enumerates the
requests from the specification, the contents are filled in at random, the
harness answers them and TLC judges every answer."""
import json, random, re
from concurrent.futures import ThreadPoolExecutor
import run
from run import Tool

WIDE = {"i32", "i64", "isize", "f64", "z"}      # hold every signed representative exactly


def card(s):
    n = 1
    for d in s:
        n *= d
    return n


def content(rng, f, n):
    if f not in WIDE:
        return [rng.randrange(13) for _ in range(n)]
    style = rng.randrange(3)
    if style == 0:      # sparse, with ones
        return [rng.choice([0, 0, 1, rng.randrange(32749)]) for _ in range(n)]
    return [rng.randrange(13 if style == 1 else 32749) for _ in range(n)]


def operand(rng, f, k, s):
    d = content(rng, f, card(s) if k == "raw" else 1)
    return {"k": k, "s": s, "d": d}


def grid(s):
    out = [[]]
    for d in s:
        out = [p + [i] for p in out for i in range(d)]
    return out


def fill_buf(rng, q):
    r = {k: q[k] for k in ("cls", "f", "s", "op", "rel")}
    r["a"] = operand(rng, q["f"], q["ak"], q["as"])
    r["b"] = operand(rng, q["f"], q["bk"], q["bs"])
    r["sub"] = []
    if q["op"] == "subset":
        g = grid(q["as"])
        p = rng.choice([0, 0.3, 0.7, 1])
        r["sub"] = [i for i in g if rng.random() < p]
        rng.shuffle(r["sub"])
        if r["sub"] and rng.random() < 0.3:
            r["sub"].append(r["sub"][0])
    return r


def reps_buf(q):
    return 1 if card(q["s"]) < 2 and q["op"] not in ("fold", "spec_zip") else 3


def fill_contract(rng, q):
    r = {k: q[k] for k in ("f", "ax", "op")}
    # i64 and f64 products stay exact on small values
    for x in "ab":
        k, s = q[x + "k"], q[x + "s"]
        n = card(s) if k == "raw" else 1
        d = [rng.randrange(32749) if q["f"] == "z" else (rng.randrange(1000) - 500) % 32749 for _ in range(n)]
        if rng.random() < 0.3:
            d = [rng.choice([0, 1, v]) for v in d]
        if k != "raw":
            d = [rng.choice([0, 1, d[0], d[0]])]
        r[x] = {"k": k, "s": s, "d": d}
    return r


def fill_shape(rng, q):
    return q


def iterator_histories(c):
    """behaviours of a pool of iterators; also model-checks the odometer"""
    r, g, d = run.tlc(c.work, "IterMC")
    if "No error has been found" not in r.stdout:
        raise Tool("IterMC: " + r.stdout[-3000:])
    c.states(g, d)
    r, g, d = run.tlc(c.work, "IterHist", extra_env={"DEPTH": "5" if c.thorough else "4"}, heap="6g")
    if "No error has been found" not in r.stdout:
        raise Tool("IterHist: " + r.stdout[-3000:])
    c.states(g, d)
    hs = {m.group(1) for m in re.finditer(r'^"H (.*)"$', r.stdout, re.M)}
    out = []
    for h in sorted(hs):
        h = json.loads(h.encode().decode("unicode_escape"))
        out.append({"op": "iter", "l": {"k": "dyn", "s": h["s"]}, "r": {"k": "st", "s": []}, "ev": h["ev"]})
    c.log("iterator model: %d histories to replay" % len(out))
    return out


def dual_histories(c):
    """all short histories from the model (whose invariants are checked), and
    longer random ones over the same operations"""
    r, g, d = run.tlc(c.work, "DualMC", extra_env={"DEPTH": "3" if c.thorough else "2"}, heap="6g")
    if "No error has been found" not in r.stdout:
        raise Tool("DualMC: " + r.stdout[-3000:])
    c.states(g, d)
    hs = [json.loads(m.group(1).encode().decode("unicode_escape")) for m in re.finditer(r'^"H (.*)"$', r.stdout, re.M)]
    c.log("dual number model: %d states, %d histories to replay" % (d, len(hs)))
    ops = sorted({tuple(o) for h in hs for o in h})
    rng = random.Random("dual-%d" % c.seed)
    for _ in range(6000 if c.thorough else 4500):
        hs.append([list(rng.choice(ops)) for _ in range(rng.randrange(3, 8))])
    return [{"op": "hist", "ops": h} for h in hs]


def fill_dual(rng, q):
    if q["op"] != "hist":
        n, f = card(q["s"]), q["f"].split("-")[1]
        return {"op": q["op"], "f": q["f"], "a": {"s": q["s"], "d": content(rng, f, n)}, "b": {"s": q["s"], "d": content(rng, f, n)}}
    f = rng.choice(["z", "z", "grad", "f64", "i64"]) if len(q["ops"]) < 5 else rng.choice(["z", "z", "grad"])
    small = f in ("f64", "i64")
    val = lambda: rng.randrange(-6, 7) % 32749 if small else rng.randrange(32749)
    ops = [o[:4] + [rng.choice([0, 1, val(), val()]) if o[1] in ("v", "rv") else 0] for o in q["ops"]]
    seeds = [[1, 0], [0, 1]] if f == "grad" else [[rng.choice([0, 1, 1, val()]), rng.choice([0, 0, 1, val()])]]
    return {"op": "hist", "f": f, "ops": ops, "at": [val(), val()], "seed": seeds,
            "mk": [rng.choice(["new", "dual", "from", "raw"]) for _ in range(2)]}


EXTRA = {"C16": dual_histories, "C14": iterator_histories}

# property -> (generator, judge, binary, filling in, repetitions)
AREAS = {
    "C13": ("BufGen", "BufJudge", "api_buf", fill_buf, reps_buf),
    "C19": ("BufGen", "BufJudge", "api_buf", fill_buf, reps_buf),
    "C14": ("ShapeGen", "ShapeJudge", "api_shape", fill_shape, lambda q: 1),
    "C15": ("ContractGen", "ContractJudge", "api_contract", fill_contract, lambda q: 8 if q["op"][:4] == "spec" else 4),
    "C16": ("DualGen", "DualJudge", "api_dual", fill_dual, lambda q: 1 if q["op"] == "hist" else 2),
}


def requests(work, pid):
    out = work.path("requests.ndjson")
    r, g, d = run.tlc(work, AREAS[pid][0], extra_env={"OUT": out, "AREA": pid}, timeout=600)
    if "No error has been found" not in r.stdout:
        raise Tool("%s: %s" % (AREAS[pid][0], r.stdout[-3000:]))
    return [json.loads(l) for l in open(out)], g, d


def spoil(rng, line):
    """a copy of a recorded answer that is wrong in one place"""
    r = json.loads(line)
    o = r["out"]
    if o["d"] and isinstance(o["d"][-1], int):
        i = rng.randrange(len(o["d"]))
        o["d"][i] = (o["d"][i] + 1) % 32749
    elif o["d"]:
        o["d"][-1] = o["d"][-1] + [7]
    else:
        o["k"] = "panic"
    return r


def check(c):
    gen, judge, binary, fill, reps = AREAS[c.pid]
    with ThreadPoolExecutor(2) as ex:
        fb = ex.submit(run.build, "harness", [binary])
        fr = ex.submit(requests, c.work, c.pid)
        c.log("harness built in %.1fs" % fb.result())
        reqs, g, d = fr.result()
    c.states(g, d)
    if c.pid in EXTRA:
        reqs += EXTRA[c.pid](c)
    c.log("%d requests enumerated from the specification" % len(reqs))
    known = c.known_inputs()
    n_spoiled = 0
    for rnd in range(((6 if fill is fill_dual else 10) if c.thorough and fill is not fill_shape else 1)):
        rng = random.Random("%s-%d-%d" % (c.pid, c.seed, rnd))
        todo = [fill(rng, q) for q in reqs for _ in range(reps(q) * (2 if c.thorough else 1))]
        if rnd == 0:
            todo += [dict(k) for k, _ in known]
        for i, q in enumerate(todo):
            q["id"] = i
        lines = run.run_bin(binary, [json.dumps(q) for q in todo])
        bad_lines = [spoil(rng, l) for l in rng.sample(lines, min(24, len(lines)))]
        for i, s in enumerate(bad_lines):
            s["id"] = -1 - i
        bad, g, d = run.judge(c.work, judge, lines + [json.dumps(s) for s in bad_lines])
        c.states(g, d)
        bad_real = {k for k, _ in bad if k >= 0}
        for i, s in enumerate(bad_lines):
            # spoiling a wrong answer can put it right; anything else must be seen
            if (-1 - i, 0) not in bad and not bad_real:
                raise Tool("the judge accepted a wrong answer: %s" % json.dumps(s))
        n_spoiled += len(bad_lines)
        c.cov["traces_validated_against_impl"] += len(lines)
        by = {json.loads(l)["id"]: l for l in lines} if bad_real or not c.cov["samples"] else {}
        if not c.cov["samples"]:
            c.cov["samples"] = [json.loads(by[i]) for i in (len(by) // 3, 2 * len(by) // 3)]
        for i in sorted(bad_real):
            src = {k: v for k, v in todo[i].items() if k != "id"}
            kf = [t for q, t in known if {k: v for k, v in q.items() if k != "id"} == src]
            if kf:
                c.known.append(kf[0])
                continue
            r = json.loads(by[i])
            c.violation("%s answered %s" % (json.dumps({k: v for k, v in r.items() if k not in ("out", "id")}), json.dumps(r["out"])),
                        {"property": c.pid, "kind": "api", "request": src})
        c.log("round %d: %d answers judged, %d deviations" % (rnd + 1, len(lines), len(c.viol)))
        if c.viol:
            break
    c.cov["requests_enumerated"] = len(reqs)
    c.cov["wrong_answers_planted_and_rejected"] = n_spoiled
    c.viol.sort(key=lambda v: len(json.dumps(v[1])))


def replay(obj):
    gen, judge, binary, fill, reps = AREAS[obj["property"]]
    w = run.Work("replay")
    try:
        run.build("harness", [binary])
        out = run.run_bin(binary, [json.dumps(dict(obj["request"], id=1))])
        f = w.path("t.ndjson")
        with open(f, "w") as h:
            h.write(out[0] + "\n")
        t, _, _ = run.tlc(w, judge, extra_env={"TRACE": f})
        r = json.loads(out[0])
        print("request: %s" % json.dumps(obj["request"]))
        print("answer:  %s" % json.dumps(r["out"]))
        bad = '"BAD"' in t.stdout
        for m in re.finditer(r'<<"WANT", \d+, (.*?)>>\n', t.stdout, re.S):
            print("specification: %s" % m.group(1))
        print("DEVIATION" if bad else "as specified")
        return 1 if bad else 0
    finally:
        w.close()
