"""The operators on floating-point numbers: special values enumerated by TLC
(Floats.tla), ordinary points drawn at random, every answer judged by TLC."""
import json, math, random, struct
from concurrent.futures import ThreadPoolExecutor
import run
from run import Tool

BIN, GEN, JUDGE = "api_float", "FloatGen", "FloatJudge"


def enc(f, x):
    if f == "f64":
        b = struct.unpack("<Q", struct.pack("<d", x))[0]
        return [b >> 63, (b >> 52) & 2047, (b >> 26) & (2 ** 26 - 1), b & (2 ** 26 - 1)]
    b = struct.unpack("<I", struct.pack("<f", x))[0]
    return [b >> 31, (b >> 23) & 255, b & (2 ** 23 - 1), 0]


def dec(f, v):
    if f == "f64":
        return struct.unpack("<d", struct.pack("<Q", v[0] << 63 | v[1] << 52 | v[2] << 26 | v[3]))[0]
    return struct.unpack("<f", struct.pack("<I", v[0] << 31 | v[1] << 23 | v[2]))[0]


def wide(rng):
    return rng.choice([-1, 1]) * 10 ** rng.uniform(-3, 3)


def off(x, *bad):
    """away from the points where the relative error of any method explodes"""
    return all(abs(x - b) > 0.05 * max(1, abs(b)) for b in bad)


PI = math.pi


def trig(rng, zeros):
    while True:
        x = rng.uniform(-20, 20)
        if abs(x) > 1e-2 and all(abs(x - k * PI / 2) > 0.05 for k in range(-14, 15)):
            return x


def pick(rng, *ranges):
    a, b = rng.choice(ranges)
    return rng.uniform(a, b)


# where the value and the slope are well conditioned
UN = {
    "addone": lambda r: pick(r, (-50, -1.2), (-0.8, 50)), "subone": lambda r: pick(r, (-50, 0.8), (1.2, 50)),
    "onesub": lambda r: pick(r, (-50, 0.8), (1.2, 50)),
    "square": wide, "double": wide, "neg": wide, "sign": wide, "abs": wide, "dirac": wide,
    "ln": lambda r: pick(r, (1e-3, 0.9), (1.1, 1e3)), "xlnx": lambda r: pick(r, (0.01, 0.3), (0.45, 0.9), (1.1, 1e3)),
    "exp": lambda r: pick(r, (-20, -0.01), (0.01, 20)),
    "rabbit": lambda r: pick(r, (-20, -0.05), (0.05, 0.45), (0.55, 0.9), (1.1, 20)),
    "sigmoid": lambda r: pick(r, (-12, 6)),
    "cos": lambda r: trig(r, 1), "sin": lambda r: trig(r, 0), "tan": lambda r: trig(r, 0),
    "cosh": lambda r: pick(r, (-10, 10)), "sinh": lambda r: pick(r, (-10, -0.05), (0.05, 10)), "tanh": lambda r: pick(r, (-6, -0.05), (0.05, 6)),
    "acos": lambda r: pick(r, (-0.95, 0.9)), "asin": lambda r: pick(r, (-0.95, -0.05), (0.05, 0.95)), "atan": lambda r: pick(r, (-50, -0.05), (0.05, 50)),
    "acosh": lambda r: pick(r, (1.2, 100)), "asinh": lambda r: pick(r, (-50, -0.2), (0.2, 50)), "atanh": lambda r: pick(r, (-0.95, -0.2), (0.2, 0.95)),
    "gamma": lambda r: pick(r, (0.2, 1.3), (1.6, 12)), "lgamma": lambda r: pick(r, (0.2, 0.8), (1.15, 1.35), (1.6, 1.85), (2.2, 30)),
    "digamma": lambda r: pick(r, (0.2, 1.3), (1.6, 30)), "erf": lambda r: pick(r, (-3, -0.05), (0.05, 3)),
}
PLAIN = {"addone", "subone", "onesub", "square", "double", "neg", "sign", "abs", "dirac"}


def ordinary(rng):
    f = rng.choice(["f64", "f64", "f32"])
    if rng.random() < 0.75:
        op = rng.choice(sorted(UN))
        return {"f": f, "op": op, "x": enc(f, UN[op](rng))}
    op = rng.choice(["add", "sub", "mul", "div", "pow"])
    if op == "pow":
        # the slope in the exponent vanishes with the base at one
        x, y = pick(rng, (0.1, 0.9), (1.1, 5)), pick(rng, (-3, -0.2), (0.2, 3))
    else:
        while True:
            x, y = wide(rng), wide(rng)
            if 1e-2 < abs(x / y) < 1e2 and abs(abs(x) - abs(y)) > 0.05 * abs(x):
                break
    return {"f": f, "op": op, "x": enc(f, x), "y": enc(f, y)}


NARROW = {"addone", "subone", "onesub", "double", "neg", "sign", "abs", "dirac", "rabbit"}


def broad(rng):
    """numbers of every magnitude; the slopes in closed form"""
    f = rng.choice(["f64", "f64", "f64", "f32"])
    m = lambda k: rng.choice([-1, 1]) * 2 ** rng.uniform(-k, k)
    if rng.random() < 0.25:
        op = rng.choice(["add", "sub", "mul", "div", "pow"])
        x, y = (abs(m(10)), m(4)) if op == "pow" else (m(30), m(30))
        if op == "pow":
            f = "f64"
        if op in ("add", "sub"):
            while 0.5 < abs(x / y) < 2:
                x = m(30)
        return {"f": f, "op": op, "wide": True, "x": enc(f, x), "y": enc(f, y)}
    while True:
        op = rng.choice(sorted(set(UN) - {"gamma", "lgamma", "digamma", "erf"} if f == "f64" else NARROW))
        x = m(60 if f == "f64" else 30)
        if op in ("exp", "sigmoid", "cosh", "sinh", "tanh"):
            x = rng.choice([m(8), rng.uniform(-690, 690), rng.uniform(-40, 40)])
            if op == "sigmoid":
                x = x if x < 6 else rng.choice([x, -x])
        if op in ("acos", "asin", "atanh"):
            x = rng.choice([-1, 1]) * 2 ** -abs(rng.uniform(0, 40))
        if op in ("ln", "xlnx", "acosh"):
            x = abs(x)
        # where a factor all but vanishes, rounding the others decides
        if {"ln": off(x, 1), "xlnx": off(x, 1, 1 / math.e), "rabbit": off(x, 0.5, 1), "acosh": x > 1.1, "addone": off(x, -1), "subone": off(x, 1),
            "onesub": off(x, 1), "cos": abs(x) < 1e6 and off(x % math.pi, math.pi / 2, 0, math.pi), "sin": abs(x) < 1e6 and off(x % math.pi, math.pi / 2, 0, math.pi),
            "tan": abs(x) < 1e6 and off(x % math.pi, math.pi / 2, 0, math.pi)}.get(op, True):
            return {"f": f, "op": op, "wide": True, "x": enc(f, x)}


def sigpair(rng):
    f = rng.choice(["f64", "f64", "f32"])
    x = rng.choice([rng.uniform(-40, 40), rng.uniform(-2, 2), rng.uniform(-800, 800), wide(rng)])
    if rng.random() < 0.5:
        y = x + abs(x) * rng.choice([1e-3, 1e-6, 1e-12, 1e-15])
    else:
        y = rng.choice([x + rng.uniform(0, 1), rng.uniform(-800, 800)])
    a, b = enc(f, min(x, y)), enc(f, max(x, y))
    return {"f": f, "op": "sigpair", "x": a, "y": b} if dec(f, a) < dec(f, b) else sigpair(rng)


def spoil(rng, q):
    """a wrong copy of an answer"""
    q = json.loads(json.dumps(q))
    f = q["f"]
    def wrong(v):
        x = dec(f, v)
        # an ordinary number where anything else was called for, else a nearby one
        if not math.isfinite(x) or abs(x) < (1e-290 if f == "f64" else 1e-28):
            return enc(f, 0.75)
        return enc(f, x * rng.choice([1 - 3e-3, -1, 0.5]))
    if q["op"] == "sigpair":
        q["out"][rng.choice([0, 1])] = enc(f, rng.choice([-0.25, 1.5]))
    elif q.get("adj") and "cx" not in q and (q["op"], q.get("wide")) != ("sigmoid", True) and rng.random() < 0.5:
        i = rng.randrange(len(q["adj"]))
        q["adj"][i] = wrong(q["adj"][i])
        if i == 0:
            q["dual"] = q["adj"][0]
    elif "cx" in q and q["forms"]:
        i = rng.randrange(len(q["forms"]))
        q["forms"][i] = wrong(q["forms"][i])
    elif "cx" not in q:
        q["out"] = wrong(q["out"])
        q["forms"] = [q["out"] for _ in q["forms"]]
    else:
        q["out"] = ["panic", "x"]
    return q


def requests(c):
    out = c.work.path("requests.ndjson")
    r, g, d = run.tlc(c.work, GEN, extra_env={"OUT": out, "AREA": c.pid}, timeout=600)
    if "No error has been found" not in r.stdout:
        raise Tool("FloatGen: %s" % r.stdout[-3000:])
    c.states(g, d)
    return sorted((json.loads(l) for l in open(out)), key=lambda q: json.dumps(q, sort_keys=True))


def show(q):
    f = q["f"]
    n = lambda v: v if isinstance(v[0], str) else repr(dec(f, v))
    s = "%s of %s at %s" % (q["op"], f, ", ".join(n(q[k]) for k in "xy" if k in q))
    if q["op"] == "sigpair":
        return s + ": sigmoids and 1 - sigmoid(-x) %s" % [n(v) for v in q["out"]]
    s += " is %s" % n(q["out"])
    if "adj" in q:
        s += ", slopes %s, dual part %s (differences %s)" % ([n(v) for v in q["adj"]], n(q["dual"]), [n(v) for v in q["slope"]])
    return s + "; elsewhere %s; standard %s" % ([n(v) for v in q["forms"]], n(q["ref"]))


def check(c):
    with ThreadPoolExecutor(2) as ex:
        fb = ex.submit(run.build, "harness", [BIN])
        fr = ex.submit(requests, c)
        c.log("harness built in %.1fs" % fb.result())
        reqs = fr.result()
    known = c.known_inputs()
    c.log("%d special requests enumerated from the specification" % len(reqs))
    planted = 0
    for rnd in range(12 if c.thorough else 1):
        rng = random.Random("C17-%d-%d" % (c.seed, rnd))
        todo = ([dict(k) for k, _ in known] + reqs) if rnd == 0 else []
        todo += [ordinary(rng) for _ in range(20000 if c.thorough else 15000)]
        todo += [broad(rng) for _ in range(20000 if c.thorough else 20000)]
        todo += [sigpair(rng) for _ in range(10000 if c.thorough else 4000)]
        for i, q in enumerate(todo):
            q["id"] = i
        lines = run.run_bin(BIN, [json.dumps(q) for q in todo])
        wrong = []
        for i, l in enumerate(rng.sample(lines, 60)):
            wrong.append(json.dumps(dict(spoil(rng, json.loads(l)), id=-1 - i)))
        bad, g, d = run.judge(c.work, JUDGE, lines + wrong)
        c.states(g, d)
        real = sorted(k for k, _ in bad if k >= 0)
        unseen = [w for i, w in enumerate(wrong) if (-1 - i, 0) not in bad]
        if unseen and not real:
            raise Tool("the judge accepted a wrong answer: %s" % unseen[0])
        planted += len(wrong)
        c.cov["traces_validated_against_impl"] += len(lines)
        by = {}
        if real or rnd == 0:
            by = {q["id"]: q for q in map(json.loads, lines)}
        if rnd == 0:
            c.cov["samples"] = [by[len(by) // 3], by[len(by) - 5000], by[len(by) - 5]]
        for k in real:
            src = {x: v for x, v in todo[k].items() if x != "id"}
            kf = [t for q, t in known if {x: v for x, v in q.items() if x != "id"} == src]
            if kf:
                c.known.append(kf[0])
                continue
            c.violation("%s %s" % (show(by[k]), sorted(bad[(k, 0)])), {"property": c.pid, "kind": "float", "request": src})
        c.log("round %d: %d answers judged, %d deviations" % (rnd + 1, len(lines), len(c.viol)))
        if c.viol:
            break
    c.cov["requests_enumerated"] = len(reqs)
    c.cov["wrong_answers_planted_and_rejected"] = planted


def replay(obj):
    w = run.Work("replay")
    try:
        run.build("harness", [BIN])
        out = run.run_bin(BIN, [json.dumps(dict(obj["request"], id=1))])
        bad, _, _ = run.judge(w, JUDGE, out)
        print(show(json.loads(out[0])))
        print("DEVIATION %s" % sorted(bad[(1, 0)]) if bad else "as specified")
        return 1 if bad else 0
    finally:
        w.close()
