"""C01-C04, C21: rendering of styles.

Session.tla (design) is model checked; its terminal and style meaning (Sgr.tla)
are exported as tables by TLC and interpreted over an exhaustive sweep of the
real library (all effect sets x all combinations of color representations);
recorded sessions of the real library are validated by TLC (TraceSession.tla);
the interpreter itself is validated against Sgr.tla (TraceEngine.tla)."""
import json
import os

from p_modes import check_traces

LAYER = {"fg": 0, "bg": 1, "ul": 2}


def export(ctx):
    """Tables of the specification: (path of the text form, the JSON value)."""
    out = ctx.path("tables.json")
    ctx.tlc("ExportTables", "ExportTables.cfg", env={"OUT": out}, workers=1)
    t = json.load(open(out))
    return ctx.write("tables.txt", as_text(t)), t


def code(c):
    return {"default": lambda: 0xffffffff, "idx": lambda: 0x01000000 | c[1], "pal": lambda: 0x02000000 | c[1],
            "rgb": lambda: 0x03000000 | c[1] << 16 | c[2] << 8 | c[3]}[c[0]]()


def as_text(t):
    names = [e["name"] for e in t["effects"]]

    def mask(s):
        return sum(1 << names.index(x) for x in s)
    out = []
    for p in t["params"]:
        k = p[0]
        out.append("param " + {"reset": lambda: "reset", "bad": lambda: "bad",
                               "on": lambda: f"on {mask(p[1])}", "off": lambda: f"off {mask(p[1])}",
                               "color": lambda: f"color {LAYER[p[1]]} {code(p[2])}",
                               "ext": lambda: f"ext {LAYER[p[1]]}"}[k]())
    for k in ("ansi", "xterm", "css"):
        out += [f"{k} " + " ".join(str(code(c)) for c in row) for row in t[k]]
    out += [f"group {mask(e['group'])}" for e in t["effects"]]
    out.append(f"anyul {mask(t['anyUnderline'])}")
    out += ["dec " + "".join(map(chr, d)) for d in t["decimals"]]
    out += ["rgbprefix " + "".join(map(chr, d)) for d in t["rgbPrefix"]]
    out.append("clearall " + " ".join(map(str, t["clearAll"])))
    return "\n".join(out) + "\n"


def driver(ctx, what, cmd, only=None, timeout=None):
    """Runs a render driver; `BAD <prop>` lines of this property are violations."""
    r = ctx.run(cmd, timeout=timeout or (400 if ctx.quick else 3000), check=False)
    lines = r.stdout.decode(errors="replace").splitlines()
    stats = {}
    for line in lines:
        if line.startswith("BAD "):
            _, prop, d = line.split(" ", 2)
            if only is None or prop == (only or ctx.prop):
                try:
                    d = json.loads(d)
                except ValueError:
                    pass
                ctx.violation(f"{what}: {json.dumps(d)[:700] if not isinstance(d, str) else d}", d)
        elif line.startswith("STAT "):
            _, k, v = line.split(" ")
            stats[k] = stats.get(k, 0) + int(v)
    if not lines or lines[-1] != "DONE":
        ctx.violation(f"{what}: the driver died (exit {r.returncode}): {r.stderr[-1500:].decode(errors='replace')}",
                      {"cmd": cmd, "exit": r.returncode})
    return stats


def wrap(ctx, feat, tables=None, values=2):
    """Every effect set around values and under format options; all type kinds."""
    tables = tables or export(ctx)[0]
    b = ctx.build(feat, ["wrap"])["wrap"]
    st = driver(ctx, f"wrap [{feat}]", [b, tables, str(ctx.seed + 3), str(values)], ctx.prop)
    ctx.log(f"wrap [{feat}]: {st}")
    ctx.count("styles_rendered", st.get("renders", 0))
    ctx.count("distinct_nonplain", st.get("nonplain", 0))
    return st


def render(ctx, bins, feats, sweep_values=1, sessions=(300, 40), full=False):
    ctx.tlc("MCSession", "MCSession.cfg")
    tables, _ = export(ctx)
    for feat in feats:
        b = ctx.build(feat, bins + ["session"], features="full" if full else "")
        for name in bins:
            st = driver(ctx, f"{name} [{feat}]", [b[name], tables, str(ctx.seed), str(sweep_values)], ctx.prop)
            ctx.log(f"{name} [{feat}]: {st}")
            ctx.count("styles_rendered", st.get("renders", 0))
            ctx.count("distinct_nonplain", st.get("nonplain", 0))
            ctx.count("type_combinations", st.get("jobs", 0))
        n, ln = sessions
        r = ctx.run([b["session"], "sessions", str(ctx.seed + 1), str(n), str(ln)], check=False)
        try:
            traces = json.loads(r.stdout)
        except ValueError:
            ctx.violation(f"recording sessions [{feat}]: the driver died (exit {r.returncode}) "
                          f"{r.stderr[-800:].decode(errors='replace')}")
            continue
        check_traces(ctx, "TraceSession", "TraceSession.cfg", traces, f"session [{feat}]", env={"PROP": ctx.prop})
        ctx.count("session_events_validated", sum(map(len, traces)))
        ctx.sample({"feature_set": feat, "session": [
            {**e, "b": bytes(e["b"]).decode(errors="replace")} for e in traces[0][:3]]})
    for feat in ("none", "std", "level", "strip"):
        wrap(ctx, feat, tables, 2 if ctx.quick else 30)
    # the interpreter the sweep relies on is the specification's terminal
    recs = json.loads(ctx.run([b["session"], "engine", tables, str(ctx.seed + 2), "2000" if ctx.quick else "20000"]).stdout)
    p = ctx.write("engine.json", json.dumps(recs))
    ctx.tlc("TraceEngine", "TraceEngine.cfg", env={"TRACES": p}, at_least=len(recs))
    ctx.count("interpreter_answers_validated", len(recs))
    ctx.cov["exhaustive"] = False
    ctx.assumptions += ["a terminal keeps the thirteen effects as separate attributes; an off code clears its SGR group",
                        "the interpreter in the driver implements Sgr.tla (validated by TraceEngine.tla on samples)"]


def feats(ctx, quick):
    return quick if ctx.quick else ["none", "std", "level", "strip"]


def C01(ctx):
    render(ctx, ["sweep", "statics"], feats(ctx, ["level"]), 3 if ctx.quick else 40, (300, 40) if ctx.quick else (4000, 60),
           full=not ctx.quick)


def C02(ctx):
    render(ctx, ["sweep", "statics"], feats(ctx, ["std"]), 3 if ctx.quick else 40, (300, 40) if ctx.quick else (4000, 60),
           full=not ctx.quick)


def C03(ctx):
    render(ctx, ["sweep", "statics"], feats(ctx, ["strip"]), 3 if ctx.quick else 40, (300, 40) if ctx.quick else (4000, 60),
           full=not ctx.quick)


def C04(ctx):
    render(ctx, ["sweep", "statics", "erase"], feats(ctx, ["level"]), 3 if ctx.quick else 40,
           (100, 40) if ctx.quick else (1000, 60), full=not ctx.quick)


def C21(ctx):
    render(ctx, ["sweep", "statics", "erase"], feats(ctx, ["level"]), 2 if ctx.quick else 20,
           (300, 40) if ctx.quick else (4000, 60), full=False)
    import p_build
    import p_fmt
    import p_modes
    import p_parse
    for feat in ["level"] if ctx.quick else ["none", "std", "level", "strip"]:
        p_fmt.options(ctx, feat, 100000, not ctx.quick)
        b = ctx.build(feat, ["builders"], profile="cold")["builders"]
        for kind, k in (("styles", 2), ("values", 2), ("flags", 30)):
            p_build.records(ctx, b, kind, k if ctx.quick else 4 * k, feat)
        p_parse.records(ctx, ctx.build(feat, ["parse"])["parse"], p_parse.machines(ctx), 2000 if ctx.quick else 20000)
    for feat in ["std", "level"] if ctx.quick else ["none", "std", "level", "strip"]:
        p_modes.validate(ctx, p_modes.mode_bin(ctx, feat), feat, *((100, 60) if ctx.quick else (3000, 150)),
                         env=False, detect=True)
