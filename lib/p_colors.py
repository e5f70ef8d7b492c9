"""C05 RGB encoding, C06 named colors.

Colors.tla says what every accessor and conversion of a color must give; TLC
evaluates it on records dumped from the real library.  The RGB space is swept
exhaustively with the decimal table and layer prefixes exported by TLC."""
import json

from core import ToolError
from p_render import driver, export, as_text  # noqa: F401


def records(ctx, cmd, cfg, what):
    r = ctx.run(cmd, check=False)
    try:
        recs = json.loads(r.stdout)
    except ValueError:
        ctx.violation(f"{what}: the driver died (exit {r.returncode}): {r.stderr[-1500:].decode(errors='replace')}")
        return
    p = ctx.write("colors.json", r.stdout.decode())
    t = ctx.tlc("Colors", cfg, env={"TRACES": p}, expect_ok=False, at_least=len(recs))
    ctx.count("records_validated", len(recs))
    ctx.count("traces_validated_against_impl", len(recs))
    ctx.count("accessor_results", int(r.stderr.split()[0]) if r.stderr[:1].isdigit() else 0)
    ctx.sample({"color": recs[0]["c"], "texts": [
        {**x, "b": bytes(x["b"]).decode(errors="replace")} for x in recs[0]["texts"][:3]], "convs": recs[0]["convs"][:2]})
    if t.ok:
        return
    if not t.violated:
        raise ToolError(f"TLC failed on color records:\n{t.tail()}")
    import re
    m = re.findall(r"i = (\d+)", t.last_state() or t.out)
    rec = recs[int(m[-1]) - 1] if m else None
    short = "" if rec is None else json.dumps(
        {"c": rec["c"], "texts": [{**x, "b": bytes(x["b"]).decode(errors="replace")} for x in rec["texts"]],
         "convs": rec["convs"], "kinds": rec["kinds"]})
    ctx.violation(f"{what}: {t.invariant} does not hold of {short[:1500]}", rec)


def kinds(ctx, feat):
    """The kind of every color (C10)."""
    b = ctx.build(feat, ["named", "rgbs"], profile="cold")
    records(ctx, [b["named"]], "Colors-kinds.cfg", f"kinds of named colors [{feat}]")
    records(ctx, [b["rgbs"], "records", str(ctx.seed), "20"], "Colors-kinds.cfg", f"kinds of RGB colors [{feat}]")


def C05(ctx):
    for feat in ["none", "strip"] if ctx.quick else ["none", "std", "level", "strip"]:
        b = ctx.build(feat, ["rgbs"], features="" if ctx.quick else "full")["rgbs"]
        tables, _ = export(ctx)
        records(ctx, [b, "records", str(ctx.seed), "800" if ctx.quick else "20000"], "Colors.cfg", f"RGB colors [{feat}]")
        st = driver(ctx, f"all RGB colors [{feat}]", [b, "exhaust", tables, "0", "256"])
        ctx.count("rgb_colors_encoded", st.get("rgb", 0))
        ctx.log(st)
    ctx.cov["exhaustive"] = True
    ctx.assumptions += ["compile-time RGB types: 1048 (thorough: 7000) of the 2^24 types, covering every value of every "
                        "channel and every combination of digit counts"]


def C06(ctx):
    for feat in ["none", "strip"] if ctx.quick else ["none", "std", "level", "strip"]:
        b = ctx.build(feat, ["named"], profile="cold")["named"]
        records(ctx, [b], "Colors.cfg", f"named colors [{feat}]")
    ctx.cov["exhaustive"] = True
    ctx.assumptions += ["the 256-color names are the crate's documented list; CSS values are those of the CSS standard"]
