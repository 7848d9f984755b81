import run, traces, profiles, api, static, dsl, floats, decl

CHECKS = {p: traces.check for p in profiles.PROFILES}
CHECKS.update({p: api.check for p in api.AREAS})
CHECKS["C03"] = static.check
CHECKS["C11"] = dsl.check


def occurrence(c):
    traces.check(c)
    decl.check(c)


def compiled_too(c):
    traces.check(c)
    if not c.viol:
        static.check(c)


CHECKS["C10"] = occurrence
CHECKS.update({p: compiled_too for p in ("C05", "C06", "C07", "C20")})
CHECKS["C09"] = decl.check
CHECKS["C18"] = decl.check
CHECKS["C17"] = floats.check


def setup():
    run.build("harness")


def replay(obj):
    return {"trace": traces.replay, "api": api.replay, "static": static.replay, "dsl": dsl.replay, "float": floats.replay, "decl": decl.replay}[obj["kind"]](obj)
