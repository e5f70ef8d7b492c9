"""C16 building styles, C17 convenience methods, C18 effect collections.

Build.tla gives every builder method as an action; MCBuild explores all short
sequences of operations, checks the properties on the history of operations and
exports the sequences, which are replayed on the real library; TLC judges
recorded operations of the real library (TraceBuild.tla)."""
import json
import re

from core import ToolError
from p_render import driver


EFFS = ["Bold", "Dimmed", "Italic", "Underline", "DoubleUnderline", "Blink", "BlinkFast", "Reversed", "Hidden",
        "Strikethrough", "Overline", "SuperScript", "SubScript"]


def arg(a):
    """An argument of the specification in the driver's notation."""
    if isinstance(a, str):
        return str(EFFS.index(a)) if a in EFFS else a
    if a and a[0] in ("ansi", "xterm", "none"):
        return {"ansi": "a", "xterm": "x", "none": "n"}[a[0]] + ("" if a[0] == "none" else str(a[1]))
    return ".".join(str(EFFS.index(x)) for x in a)


def color(c):
    return {"ansi": "a", "xterm": "x", "none": "n"}[c[0]] + ("" if c[0] == "none" else str(c[1]))


def replay(ctx, b, cfg, values):
    out = ctx.path(f"sequences-{cfg}")
    ctx.tlc("MCBuild", f"MCBuild-{cfg}.cfg", env={"EDGES": out})
    p = ctx.path(f"sequences-{cfg}.txt")
    n = 0
    with open(out) as f, open(p, "w") as g:
        for line in f:
            e = json.loads(json.loads(line))
            ls = " ".join("/".join([color(x["fg"]), color(x["bg"]), color(x["ul"]),
                                    str(sum(v << k for k, v in enumerate(x["eff"]))), x["stream"]]) for x in e["l"])
            t = " ".join(f"{w},{m},{arg(a)}" for w, m, a in e["h"]) + "|" + ls
            g.write(t + "\n")
            n += 1
            if n in (1000, 12345):
                ctx.sample({"operations|expected": t})
    st = driver(ctx, f"sequences {cfg}", [b, "replay", "values" if values else "styles", p])
    if not ctx.violations and st.get("replayed") != n:
        raise ToolError(f"replayed {st.get('replayed')} of {n} sequences")
    ctx.count("traces_validated_against_impl", n)
    ctx.count("sequences_replayed", n)


def records(ctx, b, kind, k, feat):
    out = ctx.path("records.json")
    st = driver(ctx, f"{kind} [{feat}]", [b, kind, str(ctx.seed), str(k), out])
    if ctx.violations:
        return
    recs = json.load(open(out))
    ctx.log(f"{kind} [{feat}]: {len(recs)} records, {st}")
    cfg, inv = ("TraceBuild-alloc.cfg", "Frugal") if ctx.prop == "C21" else ("TraceBuild.cfg", "Right")
    r = ctx.tlc("TraceBuild", cfg, env={"TRACES": out}, expect_ok=False, mem="12g", at_least=len(recs))
    ctx.count("traces_validated_against_impl", len(recs))
    ctx.count("pairs_of_sets", st.get("pairs", 0))
    for x in recs[:1] + recs[len(recs) // 2:len(recs) // 2 + 1]:
        ctx.sample({kind: json.dumps(x)[:600]})
    if not r.ok:
        i = re.findall(r"i = (\d+)", r.last_state() or r.out)
        if not i:
            raise ToolError(r.tail())
        x = recs[int(i[-1]) - 1]
        if r.invariant != inv and "evaluating" not in r.out.lower():
            raise ToolError(r.tail())
        ctx.violation(f"{kind} [{feat}]: the library does {json.dumps(x)[:900]}, the specification does not", x)


def feats(ctx):
    return ["none", "strip"] if ctx.quick else ["none", "std", "level", "strip"]


def check(ctx, seqs, kind, k):
    for feat in feats(ctx):
        b = ctx.build_api(feat, ["builders"], profile="cold")
        if b is None:
            return
        b = b["builders"]
        if seqs:
            if feat == feats(ctx)[0]:
                replay(ctx, b, seqs if ctx.quick else seqs + "-deep", seqs == "values")
        records(ctx, b, kind, k, feat)


def C16(ctx):
    check(ctx, "styles", "styles", 3 if ctx.quick else 12)
    ctx.cov["exhaustive"] = False
    ctx.assumptions += ["sequences longer than the exhaustive ones are covered because every step is checked from every kind of style, "
                        "and by random chains"]


def C17(ctx):
    check(ctx, "values", "values", 2 if ctx.quick else 8)
    ctx.cov["exhaustive"] = False


def C18(ctx):
    check(ctx, None, "flags", 60 if ctx.quick else 600)
    ctx.cov["exhaustive"] = False
    ctx.assumptions += ["a collection has no observable state other than what its queries, equality, hash and iteration tell"]
