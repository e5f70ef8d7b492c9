"""C07 color strings, C08 mode and stream names.

Parse.tla describes the parsers as machines; TLC explores them (MCParse), checks
them against the property stated directly on texts, and exports them.  The
driver runs the exported machines next to the real parsers on exhaustive and
generated families of texts; TLC judges recorded calls (TraceParse)."""
import json
import os
import re

from core import REPO, ToolError
from p_render import driver


def machines(ctx):
    out = ctx.path("machines.json")
    ctx.tlc("MCParse", "MCParse.cfg", env={"OUT": out})
    ms = {}
    for line in open(out):
        s = json.loads(json.loads(line))
        ms.setdefault(s["mc"], []).append(s)
    text = []
    for mc, states in ms.items():
        ids = {s["q"]: k + 1 for k, s in enumerate(states)}
        text += [f"machine {mc}", "dead error" + (" UnknownColor" if mc == "color" else "")]
        for s in states:
            text.append(f"state {ids[s['q']]} {int(s['start'])} " + " ".join(map(str, s["res"])))
        words = []
        for s in states:
            for q, m, a, bs in s["next"]:
                text.append(f"edge {ids[s['q']]} {ids[q]} {m} {a} " + " ".join(map(str, bs)))
            if s["res"][0] in ("ansi", "ok"):
                words.append(list(map(int, re.findall(r"\d+", s["q"]))))
        if mc == "color":
            words += [list(map(ord, w)) for w in ("#0", "#f", "#a0", "#ff", "#abcdef", "#012345", "0", "9", "10", "99", "100", "255", "256", "300")]
        text += ["word " + " ".join(map(str, w)) for w in words]
        ctx.count("machine_states", len(states))
    return ctx.write("machines.txt", "\n".join(text) + "\n")


def records(ctx, b, ms, num):
    """Recorded calls of the parsers, judged by TLC."""
    r = ctx.run([b, "records", ms, str(ctx.seed + 1), str(num), ctx.prop])
    recs = json.loads(r.stdout)
    cfg, inv = ("TraceParse-alloc.cfg", "Frugal") if ctx.prop == "C21" else ("TraceParse.cfg", "LibraryRight")
    t = ctx.tlc("TraceParse", cfg, env={"TRACES": ctx.write("parse.json", r.stdout.decode())}, expect_ok=False, at_least=len(recs))
    ctx.count("traces_validated_against_impl", len(recs))
    ctx.sample([{**x, "s": bytes(x["s"]).decode(errors="replace")} for x in recs[:3] + recs[-2:]])
    if not t.ok:
        m = re.findall(r"i = (\d+)", t.last_state() or t.out)
        if t.invariant != inv or not m:
            raise ToolError(f"TLC on recorded parses: {t.tail()}")
        x = recs[int(m[-1]) - 1]
        ctx.violation(f"the {x['mc']} parser gives {x['r']} for {bytes(x['s'])!r} with {x['al']} allocations, the specification does not", x)


COMMON = """transparent none inherit initial default current currentcolor reset auto normal bold dim light dark bright
hi lo intense vivid pale deep medium red green blue yellow black white cyan magenta purple gray grey orange pink brown
violet lime navy teal aqua fuchsia silver maroon olive gold indigo turquoise rgb rgba hsl hsv hex ansi xterm css color
colour fg bg on off yes no true false enable enabled disable disabled force forced tty ansi256 truecolor 24bit 8bit
out err std stdin std_out std_err stdio both any all never always detect detected stdout stderr streams tty1 dev
0x 0X x X # ## $ % & \\x \\e \\033 0b 0o + - U+ u8 i8 _ . , ; : / ( ) [ ] { } < > = ' \" ` ~ ! ? * | ^ @""".split()


def dictionary(ctx):
    """Words the library's sources mention, and some that parsers like these
    tend to know: seeds for the texts (the specification decides about them)."""
    words = set(COMMON)
    src = os.path.join(REPO, "src")
    for d, _, fs in os.walk(src):
        for f in fs:
            if not f.endswith(".rs"):
                continue
            t = open(os.path.join(d, f), errors="replace").read()
            t = re.sub(r"(?m)^\s*//.*$", "", t)
            for w in re.findall(r'"((?:[^"\\\n]|\\.)*)"', t):
                w = w.replace("\\0", "\0").replace("\\n", "\n").replace("\\x1b", "\x1b")
                if 0 < len(w) <= 24:
                    words.add(w)
            # byte patterns such as [b'r', b'e', b'd', ..]
            for run in re.findall(r"(?:b?'[^'\\]'\s*,?\s*){2,}", t):
                words.add("".join(re.findall(r"'(.)'", run)))
            for run in re.findall(r"\[[^\[\]]*b'[^\[\]]*\]", t):
                words.add("".join(re.findall(r"b'([^'\\])'", run)) or "#")
            if f in ("from_str.rs", "mode.rs", "ansi.rs", "css.rs", "xterm.rs"):
                for w in re.findall(r"\b[A-Z][A-Za-z0-9]{2,23}\b", t):
                    words.add(w)
                    words.add(re.sub(r"(?<=[a-z0-9])(?=[A-Z])", " ", w))
    ctx.count("dictionary_words", len(words))
    return ctx.write("words.txt", "\n".join(sorted(w.encode().hex() for w in words)) + "\n")


def parse(ctx, feats):
    words = dictionary(ctx)
    ms = machines(ctx)
    for feat in feats:
        b = ctx.build(feat, ["parse"])["parse"]
        st = driver(ctx, f"texts [{feat}]", [b, "exhaust", ms, str(ctx.seed), "1" if ctx.quick else "40", ctx.prop, words])
        ctx.log(st)
        ctx.count("texts_parsed", st.get("texts", 0))
        ctx.count("texts_accepted", st.get("accepted", 0))
        records(ctx, b, ms, (4000 if feat == "none" else 2000) if ctx.quick else 40000)
    ctx.cov["exhaustive"] = False
    ctx.assumptions += ["texts beyond the exhaustive families (all texts of up to 3 bytes, all #rrggbb, all one- and many two-byte "
                        "changes of accepted texts) are sampled"]


def C07(ctx):
    parse(ctx, ["none", "strip"] if ctx.quick else ["none", "std", "strip"])


def C08(ctx):
    parse(ctx, ["none", "strip"] if ctx.quick else ["none", "std", "strip"])
