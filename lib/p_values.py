"""C23 equality, hashing and copying by value; C24 printing of escapes.

Values.tla says when two values are equal, what a set with such keys answers,
and what escape writers and effect collections print; TLC judges records of
the real library (TraceValues.tla)."""
import json
import re

from core import ToolError
from p_modes import check_traces
from p_render import driver, export, wrap


def records(ctx, b, kind, k, feat):
    out = ctx.path("values.json")
    st = driver(ctx, f"{kind} [{feat}]", [b, kind, str(ctx.seed), str(k), out], ctx.prop)
    if ctx.violations:
        return
    recs = json.load(open(out))
    ctx.log(f"{kind} [{feat}]: {len(recs)} records, {st}")
    r = ctx.tlc("TraceValues", "TraceValues.cfg", env={"TRACES": out}, expect_ok=False, mem="12g", at_least=len(recs))
    ctx.count("traces_validated_against_impl", len(recs))
    ctx.count("pairs_compared", sum(len(x["v"]) ** 2 for x in recs if x["k"] == "pairs"))
    ctx.count("key_operations", sum(len(x["evs"]) for x in recs if x["k"] == "keys"))
    for key in ("printed", "shown", "rejections"):
        if key in st:
            ctx.count(key, st[key])
    for x in recs[-1:] + recs[len(recs) // 2:len(recs) // 2 + 1]:
        ctx.sample({kind: json.dumps(x)[:600]})
    if not r.ok:
        i = re.findall(r"i = (\d+)", r.last_state() or r.out)
        if not i:
            raise ToolError(r.tail())
        x = recs[int(i[-1]) - 1]
        if r.invariant != "Right" and "evaluating" not in r.out.lower():
            raise ToolError(r.tail())
        ctx.violation(f"{kind} [{feat}]: the library does {describe(x)}, the specification does not", x)


def describe(x):
    if x["k"] == "pairs":
        vs = x["v"]
        for a, v in enumerate(vs):
            for b, w in enumerate(vs):
                if (b + 1 in x["eq"][a]) != (v == w) or (b + 1 in x["ne"][a]) != (v != w):
                    return f"{x['ty']}: {v} == {w} is {b + 1 in x['eq'][a]}, != is {b + 1 in x['ne'][a]}"
                if v == w and x["hashed"] and any(h[a] != h[b] for h in x["h"]):
                    return f"{x['ty']}: different hashes of {v}"
        return f"{x['ty']}: a copy differs"
    return json.dumps(x)[:900]


def feats(ctx):
    return ["none", "strip"] if ctx.quick else ["none", "std", "level", "strip"]


def C23(ctx):
    for feat in feats(ctx):
        b = ctx.build_api(feat, ["values"])
        if b is None:
            return
        records(ctx, b["values"], "pairs", 3 if ctx.quick else 20, feat)
        records(ctx, b["values"], "keys", 60 if ctx.quick else 1000, feat)
    ctx.cov["exhaustive"] = False
    ctx.assumptions += ["all pairs of ANSI, 256-color and CSS colors, effects, streams and modes; RGB colors, general colors, "
                        "effect collections and styles are sampled, with many pairs that differ in one attribute only"]


def C24(ctx):
    tables = export(ctx)[0]
    for feat in feats(ctx):
        b = ctx.build_api(feat, ["values"])
        if b is None:
            return
        records(ctx, b["values"], "print", 2 if ctx.quick else 10, feat)
        wrap(ctx, feat, tables, 2 if ctx.quick else 30)
    ctx.cov["exhaustive"] = False
    ctx.assumptions += ["of the combinations of format options, 500 are tried on a sample and random ones on all others"]


def C25(ctx):
    ctx.tlc("MCPieces", "MCPieces.cfg")
    for feat in feats(ctx):
        b = ctx.build_api(feat, ["pieces"])
        if b is None:
            return
        out = ctx.path("pieces.json")
        st = driver(ctx, f"pieces [{feat}]", [b["pieces"], str(ctx.seed + 5)]
                    + (["1500", "30"] if ctx.quick else ["12000", "50"]) + [out], ctx.prop)
        if ctx.violations:
            return
        traces = json.load(open(out))
        ctx.log(f"pieces [{feat}]: {st}, {sum(map(len, traces))} escapes")
        check_traces(ctx, "TracePieces", "TracePieces.cfg", traces, f"pieces [{feat}]")
        ctx.count("escapes_validated", sum(map(len, traces)))
        ctx.sample({"feature_set": feat, "history": [
            {**e, "b": bytes(e["b"]).decode(errors="replace")} for e in traces[-1][:4]]})
    ctx.cov["exhaustive"] = False
    ctx.assumptions += ["a terminal keeps the thirteen effects as separate attributes; an off code clears its SGR group"]
