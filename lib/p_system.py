"""C26: whole programs.

System.tla puts Build, Parse, ColorMode and Sgr together; TLC checks it against
a reference encoder (MCSystem) and judges recorded runs of programs that use
the real library (TraceSystem)."""
import json

import p_render
from core import DETECTION, STRIP
from p_modes import check_traces
from p_render import driver

LEVELS = {"none": "0", "terminal": "0,3", "level": "0,1,2,3"}


def programs(ctx, feat, seed, num, steps):
    b = ctx.build_api(feat, ["system"], profile="cold")
    if b is None:
        return
    out = ctx.path("programs.json")
    d = DETECTION[feat]
    st = driver(ctx, f"programs [{feat}]", [b["system"], str(seed), str(num), str(steps), LEVELS[d], out], ctx.prop)
    if ctx.violations:
        return
    traces = json.load(open(out))
    prints = sum(e["o"] == "printed" for t in traces for e in t)
    ctx.log(f"programs [{feat}]: {st}, {prints} prints")
    ctx.count("prints_validated", prints)
    ctx.count("events_validated", sum(map(len, traces)))
    for e in traces[3][:8]:
        if "b" in e:
            e = {**e, "b": bytes(e["b"]).decode(errors="replace")}
        ctx.sample({"feature_set": feat, "event": e})
    check_traces(ctx, "TraceSystem", f"TraceSystem-{d}{'-strip' if feat in STRIP else ''}.cfg", traces, f"program [{feat}]")


def C26(ctx):
    for c in ["terminal", "strip"] if ctx.quick else ["terminal", "strip", "level", "deep"]:
        ctx.tlc("MCSystem", f"MCSystem-{c}.cfg", timeout=3000)
    for n, feat in enumerate(["level", "std", "none", "strip"]):
        for k in range(1 if ctx.quick else 4):
            programs(ctx, feat, 4 * (ctx.seed + 31 * k) + n, 500 if ctx.quick else 3000, 24 if k % 2 == 0 else 60)
            if ctx.violations:
                return
    tables = p_render.export(ctx)[0]
    for feat in ["level"] if ctx.quick else ["none", "std", "level", "strip"]:
        p_render.wrap(ctx, feat, tables, 2 if ctx.quick else 20)
    ctx.cov["exhaustive"] = False
    ctx.assumptions += ["terminals keep the thirteen effects as separate attributes; an off code clears its SGR group",
                        "a closed layer leaves its colors and effect groups at the terminal's default (the library's documented behaviour), not as the enclosing layer had them"]
