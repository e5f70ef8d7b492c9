"""C09 precedence, C10 detection, C11 environment, C12 stripped builds.

ColorMode.tla is explored exhaustively by TLC (MCColorMode-*.cfg), every edge of
the state graph is replayed on the real library in tours, and random histories
of the real library are validated against the specification (TraceMode.tla)."""
import collections
import json
import os

from core import BuildError, DETECTION, FEATS, STRIP, RunTimeout, Stop  # noqa: F401

FDS = ("Stdout", "Stderr")
KIND = {"Ansi": "A", "Xterm": "X", "Rgb": "R", "NoColor": "N"}
ENVV = ("NO_COLOR", "ALWAYS_COLOR", "CLICOLOR_FORCE", "FORCE_COLOR")
# concrete values for the abstract environment values
SET_VALUES = [b"1", b"true", b"00", b"0 ", b" 0", b"01", b"no", b"false", b"never", b"-0", b"0.0", b"off", b"10",
              b"\xff\xfe", b"0\xff", "０".encode(), b"x" * 300, b"2", b"\t", b"auto"]
# variables that are none of the four
OTHERS = ["NOCOLOR", "COLOR", "no_color", "CLICOLORS_FORCE", "ALWAYS_COLORS", "COLORZ", "NO_COLOR_", "Force_Color",
          "CLICOLOR", "CLICOLOR", "CLICOLOR", "TERM", "TERM", "COLORTERM", "CI", "TERM_PROGRAM", "COLORFGBG", "CARGO_TERM_COLOR", "NO_COLOUR",
          "FORCE_HYPERLINK", "IGNORE_IS_TERMINAL", "LS_COLORS", "RUST_LOG_STYLE"]


def concrete_env(rng, x):
    if x == "-":
        return "-"
    if x == "0":
        return "30"
    if x == "":
        return ""
    return rng.choice(SET_VALUES).hex()


def query_text(rng, stream, kinds, how):
    letters = [KIND[k] for k in kinds]
    letters = ["C" if c == "R" and rng.random() < 0.5 else c for c in letters]
    if how == "m":
        seq = letters + [rng.choice(letters) for _ in range(rng.randrange(3)) if letters]
        rng.shuffle(seq)
        if letters and rng.random() < 0.1:
            # a long list, one kind of which comes last or first
            one = rng.choice(letters)
            seq = [c for c in seq if c != one]
            seq = [rng.choice(seq) if seq else one for _ in range(rng.randrange(40))] + seq + [one]
            if rng.random() < 0.3:
                seq.reverse()
        return f"Q:{stream}:{''.join(seq)}:m"
    colors = [c for c in letters if c != "N"]
    if len(colors) < 3 and colors and rng.random() < 0.4:
        colors.append(rng.choice(colors))
    pos = colors + ["N"] * (3 - len(colors))
    rng.shuffle(pos)
    return f"Q:{stream}:{''.join(pos)}:{how}"


def op_texts(rng, op, variants):
    """The concrete operations that realise one abstract operation."""
    o = op[0]
    if o == "SM":
        return [f"SM:{op[1]}"]
    if o == "SD":
        return [f"SD:{op[1]}"]
    if o == "R":
        return [f"R:{op[1]}:{op[2]}"]
    if o == "SV":
        return [f"SV:{op[1]}:{concrete_env(rng, op[2])}"]
    if o == "Q":
        hows = ["m"] + (list("sfdxSFD") if variants == "all" else rng.sample(list("sfdxSFD"), variants))
        return [query_text(rng, op[1], op[2], h) for h in hows]
    return [o]


def want(res):
    return {True: "yes", False: "no"}.get(res, res)


def explore(ctx, cfg):
    """TLC explores the configuration; returns its edges and checks its properties."""
    out = ctx.path(f"edges-{cfg}")
    ctx.tlc("MCColorMode", f"MCColorMode-{cfg}.cfg", env={"EDGES": out})
    edges = []
    with open(out) as f:
        for line in f:
            e = json.loads(json.loads(line))
            edges.append((tuple(e[0]), e[1], e[2], tuple(e[3])))
    os.unlink(out)
    return edges


def tours(ctx, edges, variants, skip=(), length=120):
    """Scripts that together execute every edge (in every chosen variant)."""
    rng = ctx.rng
    loops, moves = collections.defaultdict(list), collections.defaultdict(list)
    n = 0
    for src, op, res, dst in edges:
        if op[0] in skip:
            continue
        for text in op_texts(rng, op, variants):
            (loops if src == dst else moves)[src].append((f"{text}={want(res)}", dst))
            n += 1
    states = set(loops) | set(moves) | {e[3] for e in edges}
    inits = [s for s in states if s[0] == "Detect" and s[1] == "AlwaysColor" and s[2] == s[3] == 9
             and all(x == "-" for x in s[6:])]
    succ = {s: list({d: t for t, d in moves[s]}.items()) for s in moves}
    unused = {s: list(ms) for s, ms in moves.items()}
    for s in list(unused):
        rng.shuffle(unused[s])
    todo_loops = {s for s in loops if loops[s]}
    work = {s for s in states if unused.get(s) or s in todo_loops}

    def start(s):
        return [f"R:Stdout:{s[4]}=ok", f"R:Stderr:{s[5]}=ok"]

    def path_to_work(srcs, limit=None):
        """Shortest path from any of srcs to a state with work left."""
        seen = {s: None for s in srcs}
        q = collections.deque(srcs)
        k = 0
        while q:
            s = q.popleft()
            if s in work:
                path = []
                while seen[s] is not None:
                    p, t = seen[s]
                    path.append(t)
                    s = p
                return s, path[::-1]
            k += 1
            if limit and k > limit:
                return None
            for d, t in succ.get(s, ()):
                if d not in seen:
                    seen[d] = (s, t)
                    q.append(d)
        return None

    scripts = []
    while work:
        r = path_to_work(inits)
        if r is None:
            break
        s0, path = r
        script = start(s0)
        cur = s0
        for t in path:
            script.append(t)
            cur = next(d for x, d in moves[cur] if x == t)
        while True:
            if cur in todo_loops:
                ls = [t for t, _ in loops[cur]]
                rng.shuffle(ls)
                script += ls
                todo_loops.discard(cur)
            if not unused.get(cur):
                work.discard(cur)
                if len(script) > length:
                    break
                r = path_to_work([cur], 60)
                if r is None:
                    break
                for t in r[1]:
                    script.append(t)
                    cur = next(d for x, d in moves[cur] if x == t)
                continue
            t, d = unused[cur].pop()
            script.append(t)
            if not unused[cur] and cur not in todo_loops:
                work.discard(cur)
            cur = d
            if len(script) > length:
                if cur in todo_loops:
                    continue
                break
        scripts.append(script)
    assert not work or all(s not in states for s in work), "unreachable work"
    return scripts, n


def replay(ctx, binary, scripts, what, timeout=None):
    """Runs scripts with expectations; every difference is a violation."""
    text = "\n".join(" ".join(s) for s in scripts) + "\n"
    try:
        r = ctx.run([binary, "--quiet"], stdin=text.encode(), timeout=timeout)
    except RunTimeout as e:
        ctx.violation(f"{what}: the replay of specification behaviours did not finish", {"error": str(e)})
        return
    for line in sorted(r.stdout.decode(errors="replace").splitlines())[:5]:
        i, *got = line.split(" ")
        s = scripts[int(i)]
        k = max(0, len(got) - 1)
        wanted = [x.rsplit("=", 1)[1] for x in s]
        if got[k] == wanted[k]:
            ctx.violation(f"{what}: the process died: {line[-200:]}", {"script": s, "got": got})
            continue
        ctx.violation(f"{what}: after `{' '.join(x.rsplit('=', 1)[0] for x in s[:k])}` "
                      f"`{s[k].rsplit('=', 1)[0]}` gave `{got[k]}`, the specification says `{wanted[k]}`",
                      {"script": s[:k + 1], "got": got})


def run_scripts(ctx, binary, scripts, timeout=None, opts=()):
    r = ctx.run([binary, *opts], stdin=("\n".join(" ".join(s) for s in scripts) + "\n").encode(), timeout=timeout)
    out = {}
    for line in r.stdout.decode(errors="replace").splitlines():
        i, *got = line.split(" ")
        out[int(i)] = got
    return out


def random_history(rng, n, feat, env, detect, bad=False):
    """One random history of concrete operations and its abstract events."""
    ops, evs = [], []
    levels = {"none": [0], "terminal": [0, 3], "level": [0, 1, 2, 3]}[DETECTION[feat]]
    has_env = "std" in FEATS[feat].split(",")
    streams = list(FDS) + ["AlwaysColor", "NeverColor"] if detect else ["AlwaysColor", "NeverColor"]

    def add(op, o, a):
        ops.append(op)
        evs.append((o, a))

    def redirect():
        if detect:
            f = rng.choice(FDS)
            ops.append(f"R:{f}:{rng.choice(levels)}")
            evs.append(None)

    def ask(q):
        ks = {"A": "Ansi", "X": "Xterm", "R": "Rgb", "C": "Rgb", "N": "NoColor"}
        ops.append("SNAP")
        evs.append(("SNAP", None))
        _, s, k, _ = q.split(":")
        add(q, "Q", [s, [ks[c] for c in k]])

    def burst():
        """the same question before and after many, many operations"""
        q = query_text(rng, rng.choice(streams + ["None", "None"]), rng.sample(list(KIND), rng.randrange(1, 4)), rng.choice("mmsfdxSFD"))
        total = rng.choice([rng.randrange(2, 300), 64, 128, 255, 256, 256, 257, 512, 1024, 4096, 65535, 65536, 65536])
        kind = rng.choice(["SM", "SM", "SD", "SD", "both", "BAD" if bad else "SM", "Q"])
        if kind == "Q":
            # (the answers are all the same)
            ops.append("SNAP")
            evs.append(("SNAP", None))
            _, s, k, _ = q.split(":")
            ks = {"A": "Ansi", "X": "Xterm", "R": "Rgb", "C": "Rgb", "N": "NoColor"}
            add(f"REP@{min(total, 5000)}@{q}", "Q", [s, [ks[c] for c in k]])
            return
        ask(q)
        m, d = rng.choice(["Detect", "Detect", "Always", "Never"]), rng.choice(streams)
        if kind == "BAD":
            how, r = rng.choice([("e", "failed"), ("p", "panicked"), ("w0", "failed")])
            add(f"REP@{min(total, 1024)}@BAD:{how}", "BAD", [r])
        elif kind == "SM":
            ops.append(f"REP@{total - 1}@SM:{rng.choice(['Detect', 'Always', 'Never'])}@SM:{rng.choice(['Detect', 'Always', 'Never'])}")
            evs.append(None)
            add(f"SM:{m}", "SM", [m])
        elif kind == "SD":
            ops.append(f"REP@{total - 1}@SD:{rng.choice(streams)}@SD:{rng.choice(streams)}")
            evs.append(None)
            add(f"SD:{d}", "SD", [d])
        else:
            if total > 2:
                ops.append(f"REP@{total - 2}@SM:Always@SD:{rng.choice(streams)}")
                evs.append(None)
            add(f"SD:{d}", "SD", [d])
            add(f"SM:{m}", "SM", [m])
        ask(q)

    redirect()
    redirect()
    for _ in range(n):
        if rng.random() < 0.02:
            burst()
        x = rng.random()
        if x < 0.14:
            # Detect more often, or streams would never decide
            m = rng.choice(["Detect", "Detect", "Always", "Never"])
            add(f"SM:{m}", "SM", [m])
        elif x < 0.26:
            s = rng.choice(streams)
            add(f"SD:{s}", "SD", [s])
        elif x < 0.34:
            add("GM", "GM", [])
        elif x < 0.42:
            add("GD", "GD", [])
        elif x < 0.50:
            redirect()
        elif bad and x < 0.62:
            how, r = rng.choice([("e", "failed"), ("p", "panicked"), ("w0", "failed"), ("e", "failed")])
            add(f"BAD:{how}", "BAD", [r])
        elif env and has_env and x < 0.75:
            y = rng.random()
            if y < 0.5:
                v, e = rng.choice(ENVV), rng.choice(["-", "0", "1", "", "-"])
                add(f"SV:{v}:{concrete_env(rng, e)}", "SV", [v, e])
            elif y < 0.6:
                # variables that are none of the four
                v = rng.choice(OTHERS)
                ops.append(f"SV:{v}:" + rng.choice(["31", "31", "30", "", "64756d62", "66616c7365", "-"]))
                evs.append(None)
            elif y < 0.8:
                add("ER", "ER", [])
            else:
                add("ES", "ES", [])
        else:
            s = rng.choice(streams + ["None", "None"])
            ask(query_text(rng, s, rng.sample(list(KIND), rng.randrange(0, 4)), rng.choice("mmsfdxSFD")))
    return ops, evs


def validate(ctx, binary, feat, num, length, env, detect, bad=False, what="history"):
    """Records random histories of the real library; TLC validates them."""
    hist = [random_history(ctx.rng, length, feat, env, detect, bad) for _ in range(num)]
    out = run_scripts(ctx, binary, [h[0] for h in hist], opts=["--allocs"])
    traces, scripts = [], []
    for k, (ops, evs) in enumerate(hist):
        got = out.get(k, [])
        if len(got) != len(ops):
            ctx.violation(f"{what} [{feat}]: the process died after {len(got)} operations: {' '.join(got[-3:])}",
                          {"script": ops, "got": got})
            continue
        tr = []
        for op, ev, r in zip(ops, evs, got):
            if ev is None:
                continue
            o, a = ev
            r, al = r.rsplit("@", 1)
            if o == "SNAP":
                a, r = [int(x) for x in r.split(",")], "ok"
            tr.append({"o": o, "a": a, "r": r, "al": int(al)})
        traces.append(tr)
        scripts.append(ops)
    cfg = f"TraceMode-{DETECTION[feat]}{'-strip' if feat in STRIP else ''}.cfg"
    check_traces(ctx, "TraceMode", cfg, traces, f"{what} [{feat}]")
    if traces:
        ctx.sample({"feature_set": feat, "recorded_history": traces[0][:12]}, limit=8)


def check_traces(ctx, module, cfg, traces, what, env=None):
    """TLC validates recorded traces (a trace that cannot be continued deadlocks)."""
    if not traces:
        return True
    p = ctx.write("traces.json", json.dumps(traces))
    e = {"TRACES": p, "PROP": ctx.prop}
    e.update(env or {})
    r = ctx.tlc(module, cfg, env=e, expect_ok=False, at_least=sum(map(len, traces)))
    if r.ok:
        ctx.count("traces_validated_against_impl", len(traces))
        return True
    if not r.violated:
        from core import ToolError
        raise ToolError(f"TLC failed on recorded traces:\n{r.tail()}")
    st = r.last_state()
    import re
    tr = re.search(r"/\\ tr = (\d+)", st)
    i = re.search(r"/\\ i = (\d+)", st)
    d = {"spec_state": st}
    msg = f"{what}: a recorded trace of the library is not a behaviour of the specification"
    if tr and i:
        t, k = traces[int(tr.group(1)) - 1], int(i.group(1))
        d["trace"] = t[:k]
        msg += f": after {k - 1} events, event {json.dumps(t[k - 1]) if k <= len(t) else '-'} is impossible in {' '.join(st.split())[:400]}"
    if r.invariant or r.property:
        msg += f" (violates {r.invariant or r.property})"
    ctx.violation(msg, d)
    return False


def mode_bin(ctx, feat, optional=False):
    try:
        return ctx.build(feat, ["mode"])["mode"]
    except BuildError:
        if optional:
            ctx.log(f"feature set {feat} does not build; skipped (it is not an official one)")
            return None
        raise


def tour(ctx, cfg, feats, variants, skip=lambda f: ()):
    edges = explore(ctx, cfg)
    for feat in feats:
        b = mode_bin(ctx, feat, optional=feat not in ("none", "std", "level", "strip"))
        if b is None:
            continue
        scripts, n = tours(ctx, edges, variants, skip(feat))
        ctx.log(f"{cfg} on {feat}: {len(edges)} edges as {n} operations in {len(scripts)} histories")
        replay(ctx, b, scripts, f"{cfg} [{feat}]")
        ctx.count("traces_validated_against_impl", len(scripts))
        ctx.count("operations_replayed", sum(len(s) for s in scripts))
        ctx.count("edges_replayed", len(edges))
        ctx.sample({"feature_set": feat, "configuration": cfg, "replayed_history": scripts[0][:15]})


def no_env(feat):
    return () if "std" in FEATS[feat].split(",") else ("ER", "ES", "SV")


def C09(ctx):
    v = "all"
    tour(ctx, "prec-none", ["none"] + ([] if ctx.quick else ["alloc"]), v)
    tour(ctx, "prec-terminal", ["std"], v)
    tour(ctx, "prec-level", ["level"] + ([] if ctx.quick else ["level-only"]), v)
    n, ln = (150, 60) if ctx.quick else (3000, 150)
    for feat in ("none", "std", "level"):
        validate(ctx, mode_bin(ctx, feat), feat, n, ln, env=False, detect=True)
    import p_render
    p_render.wrap(ctx, "std", None, 2 if ctx.quick else 30)
    ctx.cov["exhaustive"] = True
    ctx.assumptions += ["isatty is replaced by a table the driver controls (link-time interposition); "
                        "the terminal kind seen by supports-color is controlled through TERM"]


def C10(ctx):
    tour(ctx, "detect-none", ["none"], "all")
    tour(ctx, "detect-terminal", ["std"], "all")
    tour(ctx, "detect-level", ["level"] + ([] if ctx.quick else ["level-only"]), 2 if ctx.quick else "all")
    n, ln = (200, 60) if ctx.quick else (4000, 150)
    for feat in ("std", "level"):
        validate(ctx, mode_bin(ctx, feat), feat, n, ln, env=False, detect=True)
    import p_colors
    for feat in ["level"] if ctx.quick else ["level", "none", "strip"]:
        p_colors.kinds(ctx, feat)
    import p_render
    for feat in ("std", "level"):
        p_render.wrap(ctx, feat, None, 2 if ctx.quick else 30)
    # with environment variables that also steer supports-color
    validate(ctx, mode_bin(ctx, "level"), "level", n, ln, env=True, detect=True)
    ctx.cov["exhaustive"] = True
    ctx.assumptions += ["isatty is replaced by a table the driver controls (link-time interposition); "
                        "color levels come from the real supports-color crate, steered through TERM",
                        "under color-level detection the underline color counts as a color of the style even "
                        "without an underline effect (as documented in DESIGN.md)"]


def C11(ctx):
    tour(ctx, "env-terminal", ["std", "level"], 0 if ctx.quick else 2)
    n, ln = (150, 60) if ctx.quick else (3000, 150)
    for feat in ("std", "level"):
        validate(ctx, mode_bin(ctx, feat), feat, n, ln, env=True, detect=True)
    ctx.cov["exhaustive"] = True
    ctx.assumptions += ["an environment variable set to the empty string counts as set (documented: anything but 0)"]


def C12(ctx):
    tour(ctx, "strip-level", ["strip"], "all")
    tour(ctx, "strip-level", ["strip-std", "strip-only"], "all") if not ctx.quick else None
    tour(ctx, "strip-none", ["strip-only"], "all")
    tour(ctx, "env-strip", ["strip"], 1)
    n, ln = (150, 60) if ctx.quick else (3000, 150)
    validate(ctx, mode_bin(ctx, "strip"), "strip", n, ln, env=True, detect=True)
    # explicit sequences are the same in every build
    import p_render
    tables = p_render.export(ctx)[0]
    seqs = {f: p_render.wrap(ctx, f, tables, 2 if ctx.quick else 30).get("digest") for f in ("none", "std", "level", "strip")}
    if len({d for f, d in seqs.items() if f != "strip"}) == 1 and seqs["strip"] not in (None, seqs["none"]):
        ctx.violation("the explicit sequences of some styles differ in the build with stripping", seqs)
    esc = {}
    for feat in ("none", "std", "level", "strip"):
        esc[feat] = run_scripts(ctx, mode_bin(ctx, feat), [["ESC"], ["SM:Never", "ESC"], ["SD:NeverColor", "ESC"]])
    base = esc["none"][0][0]
    for feat, o in esc.items():
        for k in o:
            if o[k][-1] != base:
                ctx.violation(f"explicit sequences differ in build {feat}: {o[k][-1]} instead of {base}", {"all": esc})
    ctx.count("escape_sequences_compared", sum(len(o) for o in esc.values()))
    ctx.cov["exhaustive"] = True
