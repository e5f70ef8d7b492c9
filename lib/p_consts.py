"""C22: styles and styled values in constant expressions.

TLC's simulator generates programs from MCConst.tla, with the values they must
give; they are compiled as constant expressions and run as ordinary ones.  If
the constant form does not compile but the ordinary form does, an operation
cannot be used in constant expressions."""
import json
import random
import re

from core import BuildError, ToolError
from p_build import EFFS
from p_render import driver

STREAM = {"None": "None", **{s: f"Some(Stream::{s})" for s in ("Stdout", "Stderr", "AlwaysColor", "NeverColor")}}


def names():
    """Index -> name of ANSI and 256 colors, from the specification."""
    import os
    from core import SPEC
    t = open(os.path.join(SPEC, "Palette.tla")).read()

    def seq(n):
        return re.findall(r'"(\w+)"', re.search(n + r" == <<(.*?)>>", t, re.S).group(1))
    return seq("AnsiNames"), seq("XtermNames")


ANSI, XTERM = names()


def color(rng, c, static):
    """An expression for a color, and whether its type is a compile-time color."""
    form = rng.randrange(6)
    if static:
        form = 0
    k = c[0]
    if k == "none":
        return [("NoColor", True), ("None::<Color>", False)][form > 2]
    if k == "rgb":
        st, dyn, d = f"rgb::Rgb::<{c[1]}, {c[2]}, {c[3]}>", f"rgb::RgbColor {{ red: {c[1]}, green: {c[2]}, blue: {c[3]} }}", "Rgb"
    else:
        n = {"ansi": lambda: ANSI[c[1]], "xterm": lambda: XTERM[c[1]], "css": lambda: c[1]}[k]()
        t = {"ansi": "AnsiColor", "xterm": "XtermColor", "css": "CssColor"}[k]
        st, dyn, d = f"{k}::{n}", f"{k}::{t}::{n}", {"ansi": "Ansi", "xterm": "Xterm", "css": "Css"}[k]
        if k == "xterm" and form == 5:
            return f"xterm::XtermColor::from_code({c[1]})", False
    return [(st, True), (st, True), (st, True), (dyn, False), (f"Color::{d}({dyn})", False), (f"Some(Color::{d}({dyn}))", False)][form]


def effs(a):
    return "[" + ", ".join(f"Effect::{e}" for e in a) + "]"


def program(rng, p):
    """(constant expression, ordinary expression) of one behaviour of MCConst."""
    h = p["h"]
    if p["flags"]:
        e = "EffectFlags::new()"
        for m, a in h:
            if m in ("new", "all"):
                e = f"EffectFlags::{m}()"
            elif m == "from_array":
                e = f"EffectFlags::from_array({effs(a)})"
            else:
                e += f".{m}(Effect::{a})"
        return e, e
    c = r = "Style::new()"
    # styles to be erased are built from compile-time colors only
    erase_at = max([k for k, (m, _) in enumerate(h) if m == "erase"], default=-1)
    for k, (m, a) in enumerate(h):
        if m == "erase":
            if k != erase_at:
                continue
            x = ".const_into_runtime_style()"
        elif m in ("fg", "bg", "underline_color"):
            x = f".{m}({color(rng, a, k < erase_at)[0]})"
        elif m in ("with", "without", "toggled"):
            x = f".{m}(Effect::{a})"
        elif m == "effects_array":
            x = f".effects_array({effs(a)})" if a else ".effects_array([])"
        elif m == "effect_flags":
            x = f".effect_flags(EffectFlags::from_array({effs(a)}))"
        elif m == "value":
            c, r = (f"StyledValue::new(VALUE, {y}, {STREAM[a]})" for y in (c, r))
            continue
        elif m == "stream":
            x = f".stream(Stream::{a})"
        elif m == "stream_opt":
            x = f".stream_opt({STREAM[a]})"
        elif m == "style":
            c, r = f"(&const {{ {c} }}).style()", f"leak({r}).style()"
            continue
        else:
            x = f".{m}()"
        c, r = c + x, r + x
    return c, r


def texts(rng):
    base = [b"detect", b"always", b"never", b"stdout", b"stderr"]
    out = {b"", b"x", b"auto", b"alwaysc", b"nev", b"stdin", b"none"}
    for w in base:
        out |= {w, w.upper(), w.title(), w + b" ", b" " + w, w + b"\0", w[:-1], w + w[-1:], w[:-1] + b"\0", w + b"\0\0", w + b"12"}
        for _ in range(8):
            t = bytearray(w)
            t[rng.randrange(len(t))] ^= 1 << rng.randrange(8)
            out.add(bytes(t))
            out.add(bytes(b ^ (rng.randrange(2) << 5) for b in w))
    return sorted(out)


def source(ctx, progs, rng):
    out, fns = [], 0
    todo = []
    for p in progs:
        c, r = program(rng, p)
        if p["flags"]:
            want = str(sum(v << k for k, v in enumerate(p["set"])))
        else:
            want = "[" + ",".join(json.dumps({"fg": x["fg"], "bg": x["bg"], "ul": x["ul"],
                                              "eff": sum(v << k for k, v in enumerate(x["eff"])), "stream": x["stream"]},
                                             separators=(",", ":")) for x in p["l"]) + "]"
        todo.append((c, r, want))
    for k in range(0, len(todo), 40):
        out.append(f"fn programs{fns}(run: &mut Run) {{")
        for c, r, want in todo[k:k + 40]:
            out.append(f"    run.prog({json.dumps(c)}, r#\"{want}\"#, cst!({c}), {{ {r} }});")
        out.append("}")
        fns += 1
    src = "\n".join(out)
    src += "\nfn programs(run: &mut Run) {" + " ".join(f"programs{k}(run);" for k in range(fns)) + "}\n"
    src += "fn texts(run: &mut Run, out: &mut Vec<String>) {\n"
    for t in texts(rng):
        src += "    text!(run, out, b\"" + "".join(f"\\x{b:02x}" for b in t) + "\");\n"
    return src + "}\n", todo


def plain(src):
    """The programs without constant blocks."""
    return re.sub(r"cst!\((.*)\), \{ (.*) \}\);$", lambda m: f"{{ {m.group(2)} }}, {{ {m.group(2)} }});", src, flags=re.M)


def consts(ctx, feat, num, n, tag):
    out = ctx.path(f"programs-{tag}")
    cfg = ctx.write(f"MCConst-{tag}.cfg", f"SPECIFICATION Spec\nCONSTANT N = {n}\nINVARIANT Export\nCHECK_DEADLOCK FALSE\n")
    r = ctx.tlc("MCConst", cfg, env={"EDGES": out}, workers=1,
                extra=["-simulate", f"num={num}", "-depth", str(n + 2), "-seed", str(ctx.seed)])
    m = re.search(r"The number of states generated: ([\d,]+)", r.out)
    if m:
        ctx.count("states", int(m.group(1).replace(",", "")))
        ctx.count("transitions", int(m.group(1).replace(",", "")))
    progs = {}
    for line in open(out):
        p = json.loads(json.loads(line))
        p["flags"] = all(m in ("new", "all", "from_array", "with", "without", "toggled") for m, _ in p["h"]) and not any(
            v for x in p["l"] for v in x["eff"]) and all(x["stream"] == "None" for x in p["l"])
        progs[json.dumps(p["h"])] = p
    progs = list(progs.values())
    src, todo = source(ctx, progs, random.Random(f"{ctx.seed}:{tag}"))
    gen = ctx.write(f"gen-{tag}.rs", src)
    for c, _, want in todo[:2]:
        ctx.sample({"program": c, "value": want})
    try:
        b = ctx.build(feat, ["consts"], profile="cold", env={"COLORZ_GEN": gen})["consts"]
    except BuildError as e:
        gen2 = ctx.write(f"gen-{tag}-plain.rs", plain(src))
        try:
            ctx.build(feat, ["consts"], profile="cold", features="noconst", env={"COLORZ_GEN": gen2})
        except BuildError as e2:
            raise ToolError(f"the programs do not compile even as ordinary expressions: {e2}")
        errs = re.findall(r"^error[^\n]*\n[^\n]*\n(?:[^\n]*\n){0,4}", e.output, re.M)
        ctx.violation(f"[{feat}] these expressions run, but cannot be evaluated in constant expressions: " + "\n".join(errs[:4])[:1500],
                      {"errors": errs[:20]})
        return
    p1, p2 = ctx.path("palette.json"), ctx.path("texts.json")
    st = driver(ctx, f"constant expressions [{feat}]", [b, p1, p2])
    ctx.log(f"constant expressions [{feat}]: {st}")
    ctx.count("traces_validated_against_impl", st.get("programs", 0))
    ctx.count("constant_values_compared", st.get("compared", 0))
    for module, path in (("Colors", p1), ("TraceParse", p2)):
        recs = json.load(open(path))
        r = ctx.tlc(module, f"{module}.cfg", env={"TRACES": path}, expect_ok=False, at_least=len(recs))
        ctx.count("traces_validated_against_impl", len(recs))
        if not r.ok:
            i = re.findall(r"i = (\d+)", r.last_state() or r.out)
            if not r.violated or not i:
                raise ToolError(r.tail())
            if r.invariant == "KindsRight":
                continue
            ctx.violation(f"[{feat}] a constant expression gives what the specification does not: {json.dumps(recs[int(i[-1]) - 1])[:900]}",
                          recs[int(i[-1]) - 1])


def C22(ctx):
    for feat in ["none", "strip"] if ctx.quick else ["none", "std", "level", "strip"]:
        consts(ctx, feat, 400 if ctx.quick else 2500, 5, "short")
        if not ctx.violations:
            consts(ctx, feat, 300 if ctx.quick else 2500, 12, "long")
    ctx.cov["exhaustive"] = False
    ctx.assumptions += ["the operations offered for compile time are those listed in the property"]
