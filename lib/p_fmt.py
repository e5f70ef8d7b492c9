"""C13, C14, C15: formatting styled values.

Fmt.tla (layers, writes, faults, panics, settings changed meanwhile) is explored
exhaustively by TLC (MCFmt-*.cfg); every complete behaviour is replayed on the
real library, and random formattings of the real library, recorded write by
write, are validated by TLC (TraceFmt.tla, FmtRecs.tla)."""
import json
import os

from core import DETECTION, ToolError
from p_modes import check_traces
from p_render import driver


def replay(ctx, cfg, feats):
    out = ctx.path(f"behaviours-{cfg}")
    ctx.tlc("MCFmt", f"MCFmt-{cfg}.cfg", env={"EDGES": out}, mem="20g", timeout=3000)
    for feat in feats:
        b = ctx.build(feat, ["fmt"])["fmt"]
        st = driver(ctx, f"behaviours of {cfg} [{feat}]", [b, "replay", out, ctx.prop])
        ctx.log(f"{cfg} [{feat}]: {st}")
        ctx.count("traces_validated_against_impl", st.get("replayed", 0))
        ctx.count("behaviours_replayed", st.get("replayed", 0))
    with open(out) as f:
        for k, line in enumerate(f):
            if k in (17, 5001, 40000):
                ctx.sample({"configuration": cfg, "behaviour (settings|steps|output|results|settings after)": line.strip()})
    os.unlink(out)


def record(ctx, feat, num, length):
    b = ctx.build(feat, ["fmt"])["fmt"]
    r = ctx.run([b, "record", ctx.prop, str(ctx.seed), str(num), str(length)], check=False)
    lines = r.stdout.decode(errors="replace").splitlines()
    traces = [json.loads(x[6:]) for x in lines if x.startswith("TRACE ")]
    for x in lines:
        if x.startswith("BAD "):
            ctx.violation(f"recording [{feat}]: {x}", x)
    if not lines or lines[-1] != "DONE":
        ctx.violation(f"recording [{feat}]: the driver died: {lines[-1:]} {r.stderr[-500:].decode(errors='replace')}")
    ctx.count("events_validated", sum(map(len, traces)))
    if traces:
        ctx.sample({"feature_set": feat, "recorded_events": traces[0][:10]})
    check_traces(ctx, "TraceFmt", f"TraceFmt-{DETECTION[feat]}.cfg", traces, f"formatting [{feat}]", env={"PROP": ctx.prop})


def options(ctx, feat, keep, dense):
    b = ctx.build(feat, ["fmt"])["fmt"]
    out = ctx.path("options.json")
    st = driver(ctx, f"format options [{feat}]", [b, "options", str(ctx.seed), str(keep), out] + (["dense"] if dense else []))
    ctx.log(f"format options [{feat}]: {st}")
    for k, v in st.items():
        if not k.startswith("bad"):
            ctx.count(k, v)
    if ctx.prop != "C13" or not os.path.exists(out):
        return
    r = ctx.tlc("FmtRecs", "FmtRecs.cfg", env={"TRACES": out}, expect_ok=False, at_least=len(json.load(open(out))))
    if r.ok:
        recs = json.load(open(out))
        ctx.count("traces_validated_against_impl", sum(len(x["pairs"]) + len(x["calls"]) if x["how"] == "probe" else len(x["recs"]) for x in recs))
    elif r.violated:
        import re
        i = re.search(r"i = (\d+)", r.last_state())
        rec = json.load(open(out))[int(i.group(1)) - 1] if i else None
        bad = None
        if rec and rec["how"] == "probe":
            bad = [p for p in rec["pairs"] if p[0] != p[1]][:3] or [
                c for c in rec["calls"] if c["gt"] != c["t"] or not c["ok"] or c["pre"] != (c["op"] if c["on"] else "") or c["post"] != (c["cl"] if c["on"] else "")][:3]
        elif rec:
            bad = [x for x in rec["recs"] if x["got"] != (x["op"] + x["bare"] + x["cl"] if x["on"] else x["bare"])][:3]
        ctx.violation(f"format options [{feat}]: the value is not formatted as the bare value: {json.dumps(bad)[:900]}", bad)
    else:
        raise ToolError(r.tail())


ASSUME = ["a value can observe and do only what core::fmt offers: the formatter's options, writing, and failing",
          "the destination rejects single writes; later writes would succeed again"]


def wraps(ctx):
    """every effect set, the layers' kinds and format options around values"""
    import p_render
    tables = p_render.export(ctx)[0]
    for feat in ("none", "std", "level", "strip"):
        p_render.wrap(ctx, feat, tables, 2 if ctx.quick else 30)


def C13(ctx):
    options(ctx, "std", 60 if ctx.quick else 20, not ctx.quick)
    if not ctx.quick:
        options(ctx, "level", 100, True)
        options(ctx, "none", 100, True)
    for feat in ["level"] if ctx.quick else ["none", "std", "level"]:
        record(ctx, feat, 400 if ctx.quick else 6000, 150)
    wraps(ctx)
    ctx.assumptions += ASSUME


def C14(ctx):
    replay(ctx, "settings" if ctx.quick else "settings-deep", ["none"] if ctx.quick else ["none", "std", "level"])
    for feat in ["none", "std", "level"]:
        record(ctx, feat, 250 if ctx.quick else 4000, 150)
    wraps(ctx)
    ctx.cov["exhaustive"] = True
    ctx.assumptions += ASSUME


def C15(ctx):
    replay(ctx, "faults" if ctx.quick else "faults-deep", ["none"] if ctx.quick else ["none", "std", "level"])
    for feat in ["std"] if ctx.quick else ["none", "std", "level"]:
        record(ctx, feat, 400 if ctx.quick else 6000, 150)
    # afterwards everything is as if they had not been
    import p_modes
    for feat in ["std"] if ctx.quick else ["none", "std", "level"]:
        p_modes.validate(ctx, p_modes.mode_bin(ctx, feat), feat, *((100, 100) if ctx.quick else (2000, 200)), env=False,
                         detect=feat != "none", bad=True, what="history with failures")
    ctx.cov["exhaustive"] = True
    ctx.assumptions += ASSUME
