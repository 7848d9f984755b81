#!/usr/bin/env python3
"""writes MANIFEST.json from the registry of checks"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import registry

TRACE = "TLA+ specification checked with TLC; histories recorded from the library judged event by event against the specification's transitions"
NOTES = {
    "C01": ("derivatives as jets (chain rule only) in Jet.tla/Expr.tla; " + TRACE,
            "Exhaustive over all compositions of two operators (Gen.tla) at seeded points, random beyond; exact arithmetic over a prime field (and integers in f64), so identities that need real analysis are replaced by algebraic stand-ins (Field.tla). Trusts the harness' dynamic trees to compose the library's node types faithfully."),
    "C02": ("jets of level 2 and 3; " + TRACE, "As C01, for two and three differentiations in both orders."),
    "C03": ("the library's derivative rewriting as a function on trees (Rewrite.tla), model-checked against the Jacobian (StaticMC.tla) on every enumerated program; the programs are compiled against the library and their recorded values, shapes and structured values judged by Trace.tla", "5,900 programs of up to two operators and second derivatives enumerated (20,000 thorough), 480 per run compiled (5,000 thorough) covering every pair of operators; vector, matrix, scalar and absent targets; exact arithmetic over a prime field at random points. Ranks above 2 only where the library can evaluate them. Programs with the three known defects of the design are left out except as known findings."),
    "C04": ("denotation by index arithmetic in Tensor.tla; " + TRACE, "Exhaustive over all compositions of two operators on nine buffer sorts, random beyond; both the prime field and f64."),
    "C05": ("Ev over structured cells against its dense twin; " + TRACE, "Every source is dense, full (0, 1, other) or diagonal; twin evaluation recorded in the same history."),
    "C06": ("shape query as a transition of the model, with the fail lattice of AegirMC.tla; " + TRACE, "All 108 contexts x 54 expressions of the failure lattice, all small programs, random programs."),
    "C07": ("error paths in Eval.tla, failure lattice model-checked in AegirMC.tla; " + TRACE, "All 108 combinations of missing and mis-sized inputs x 54 expressions, random beyond."),
    "C08": ("context transition system AegirMC.tla (cache scenario, all histories of 4 operations) model-checked and replayed; " + TRACE, "Probes count evaluations through a user-defined operator. Random histories beyond the scenario."),
    "C09": ("a context as a map (Ctx.tla), its histories model-checked for isolation and definedness (CtxMC.tla); declarations for derive(Context), ctx_type! and ctx! enumerated by TLC (Decl.tla), compiled, put through the model's histories and judged snapshot by snapshot by TLC",
            "Every declaration of one field, a sample of those of two and three (all in thorough rounds) and random ones of up to five; seven classes of buffers, declared by the macros or written by hand with read and write only, concrete, generic, shared and const-generic fields. The whole context (read, read_spec, read_shape, the field, the variable) is observed after every operation."),
    "C10": ("occurrence defined in Expr.tla and, for operators made by the derive macro, in Decl.tla (declarations enumerated by TLC, compiled, judged by TLC); " + TRACE, "Membership of every small program, random programs with caches, probes and adjoints; derived operators of one to five operands, named and unnamed, with generic and const parameters."),
    "C11": ("the grammar of the notation and the trees it denotes (Dsl.tla); notations enumerated by TLC, expanded by the real macro in compiled programs, the trees they build judged by TLC", "All chains of up to three operators over variables, literals, groups, calls and blocks enumerated; about 3,600 per run compiled (all of them in thorough rounds) plus random nestings and the same notation inside other Rust notation (blocks, conditionals, matches, closures, tuples, arrays, macro_rules). Literals inside identifiers are left out."),
    "C12": ("a parser for mathematical notation in Render.tla and the denotation of what it reads; " + TRACE, "Compared at one random positive point per program in a prime field of 32749 elements: a wrong rendering agrees by chance with probability about 1/32749."),
    "C20": ("context transition system AegirMC.tla (history scenario, all histories of 4 operations) model-checked and replayed; " + TRACE, "Random histories with up to 9 operations on 3 expressions beyond the scenario."),
    "C13": ("the operations on a buffer as functions on index-addressed contents (Buf.tla); TLC enumerates every class x field x shape x operation x operand form, the harness answers each request and TLC judges every answer",
            "Ranks 0 to 6 of the library's array types, tuples, vectors and vectors of run-time length; contents random. Narrow and unsigned fields hold small contents only."),
    "C14": ("the odometer as a state machine (IterMC.tla, model-checked invariants), histories of a pool of iterators (IterHist.tla) and the shape algebra (Shapes.tla) enumerated by TLC, replayed and judged by TLC",
            "All shapes with small extents (static rank 0 to 6, run-time rank 0 to 4) and all pairs for joining, splitting and broadcasting."),
    "C15": ("Einstein sums by index arithmetic (Contract.tla); all supported operand classes x structures enumerated by TLC, replayed and judged by TLC",
            "Every pair of operand types the library implements at extents 1 to 3, structured and dense, with the predicted shape."),
    "C16": ("dual numbers as a state machine over a two-register machine whose invariant is the derivative of the polynomial computed (DualMC.tla), model-checked; its histories and longer random ones replayed and judged by TLC",
            "All histories up to depth 2 (3 thorough) and random ones up to length 7 over all operator forms."),
    "C17": ("IEEE 754 numbers and the operators' limits at every class of special input (Floats.tla); special requests and sigmoid pairs enumerated by TLC, ordinary points drawn at random, every answer judged by TLC", "14 classes of inputs (and all pairs of classes for binary operators) in f64 and f32, values, slopes and dual parts; at ordinary points the value is compared with the standard function and the slope with extrapolated finite differences, to a few units of 2^-26 (value) and 4e-6 (slope) in f64. Single-precision functions linked by special-fun are asked for limits in the known findings only."),
    "C18": ("identifiers with their symbols (Decl.tla); declaration lists enumerated by TLC, compiled, and the tables of comparisons, membership, look-ups and slopes judged by TLC",
            "Lists of up to eight identifiers with no symbol, a word or any string, among them repeated symbols and other identifiers' names, and the fifty predefined ones."),
    "C19": ("constructors and structural wrappers as functions on index-addressed contents (Buf.tla); enumerated by TLC, replayed and judged by TLC",
            "As C13."),
}
PENDING = "check under construction"


def main():
    props = [json.loads(l)["id"] for l in open("properties.jsonl")]
    checks, na = [], []
    for p in props:
        if p in registry.CHECKS:
            t, n = NOTES[p]
            checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                           "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                           "evidence_file": "evidence/%s.json" % p, "technique": t,
                           "level": "model_checking", "level_note": n})
        else:
            na.append({"property": p, "reason": PENDING})
    m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
         "notes": "Specification in TLA+ (spec/), checked with TLC. No hooks in /repo: the harness uses the public API only. Known findings and fixed defects: known_findings.txt."}
    json.dump(m, open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
    open("MANIFEST.json", "a").write("\n")


main()
