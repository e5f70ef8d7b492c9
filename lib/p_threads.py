"""C19 shared settings, C20 concurrent decisions.

SharedMode.tla: the settings and caches, atomic access by atomic access, on a
release/acquire memory; TLC checks the properties on every interleaving (and
finds their violation when an ordering is weakened).  The same programs run on
the real library under every schedule, with reads answered by the memory model
(crate hook), and on Miri; TLC validates every distinct recorded history
against what the properties promise (TraceShared.tla)."""
import concurrent.futures
import glob
import json
import os
import re
import signal
import subprocess
import threading

from core import BuildError, DETECTION, DRIVER, FEATS, REPO, STRIP, ToolError, cargo_env

KINDS = {"A": "Ansi", "X": "Xterm", "R": "Rgb", "C": "Rgb", "N": "NoColor"}


# ------------------------------------------------------------------ programs
def op_json(text):
    p = text.split(":")
    if p[0] == "D":
        how = p[1]
        layers = []
        for layer in p[2].split(","):
            s, k = layer.split("/")
            layers.append({"s": s, "k": sorted({KINDS[c] for c in k}) if how != "t" else ["Ansi"]})
        return {"o": "D", "a": layers}
    if p[0] == "ES":
        return {"o": "SM", "a": [p[1]]}
    return {"o": p[0], "a": p[1:]}


class Program:
    def __init__(self, text):
        self.text = text
        parts = [x.split() for x in text.split("|")]
        self.sup = [int(x) for x in parts[0][0].split(",")]
        self.before, self.threads, self.after = parts[1], parts[2:-1], parts[-1]

    def ops(self, t):
        return self.before + self.after if t == 0 else self.threads[t - 1]

    def json(self):
        j = [[op_json(o) for o in th] for th in [self.before, *self.threads, self.after]]
        return {"sup": self.sup, "before": j[0], "th": j[1:-1], "after": j[-1]}

    def history(self, text):
        """A recorded history as events for TraceShared."""
        ev = []
        after = False
        for w in text.split():
            if w in ("fork", "join"):
                after = after or w == "join"
                ev.append({"e": w, "t": 0, "o": "-", "a": [], "r": ""})
                continue
            e, rest = w[0], w[1:].split(":", 2)
            t, k = int(rest[0]), int(rest[1])
            if t == 0 and after:
                k += len(self.before)
            o = op_json(self.ops(t)[k])
            r = rest[2] if e == "r" else ""
            if e == "r" and o["o"] == "D":
                r = r.split(",")
            ev.append({"e": e, "t": t, "o": o["o"], "a": o["a"], "r": r})
        return {"n": len(self.threads), "sup": self.sup, "ev": ev}

    def outcome(self, text):
        """What every thread got, for comparison with TLC's outcomes."""
        out = {t: [] for t in range(4)}
        for w in text.split():
            if w[0] == "r":
                t, _, r = w[1:].split(":", 2)
                out[int(t)].append(r)
        return json.dumps(out)


def spec_outcome(o):
    items = o.items() if isinstance(o, dict) else enumerate(o)
    return json.dumps({int(t): [",".join(r) if isinstance(r, list) else r for r in rs] for t, rs in items})


# litmus programs: support | before | threads | after
SETTINGS = [
    # message passing, both ways round
    "3,0 | | SD:NeverColor SM:Always | GM GD | GM GD",
    "3,0 | | SM:Never SD:Stderr | GD GM | GM GD",
    "3,0 | GM GD | SM:Always SM:Never | GM GM | GM GD",
    "3,0 | GM GD | SD:Stdout SD:Stderr | GD GD GD | GM GD",
    # lost or mixed up updates
    "3,0 | | SM:Always GD | SD:NeverColor GM | GM GD",
    "3,0 | SM:Never SD:Stdout | SM:Always GM | SD:Stderr GD | GM GD",
    "3,0 | | SM:Always GM | SM:Never GM | GM",
    "3,0 | | SD:NeverColor GD | SD:Stdout GD | GD",
    # the same seen by two readers
    "3,0 | | SM:Always SM:Never | GM GM | GM GM | GM",
    "3,0 | | SM:Always | SD:NeverColor | GM GD | GM GD",
    # causality through a third thread
    "3,0 | | SM:Always | GM SD:NeverColor | GD GM | GM GD",
    "3,0 | | SD:Stdout | GD SM:Never | GM GD | GM GD",
    # through a decision
    "3,0 | | SD:NeverColor SM:Always | GM D:m:None/A GD | GM",
    "3,0 | | SM:Never SD:NeverColor | D:m:None/A GM GD | GD GM",
    # values set again
    "3,0 | | SM:Always SM:Detect SD:NeverColor | GD GM | GM GD",
    "3,0 | SM:Always | SM:Detect SM:Always | GM GM GM | GM",
]
DECISIONS = [
    # simultaneous first detection
    "3,0 | | D:m:Stdout/A | D:m:Stdout/A | D:m:Stdout/A",
    "3,0 | | D:f:Stderr/A | D:s:Stderr/A | D:f:Stderr/A",
    "0,3 | | D:m:Stdout/A D:m:Stderr/A | D:f:Stderr/R D:t:Stdout/A | D:m:Stdout/A D:m:Stderr/A",
    "3,0 | | D:m:Stdout/A D:m:Stdout/A | D:m:Stdout/A D:m:Stderr/A | D:m:Stdout/A",
    "3,3 | SD:Stdout | D:f:None/A | D:m:None/A | SD:Stderr | D:m:None/A",
    "2,1 | | D:m:Stdout/X D:m:Stdout/R | D:f:Stdout/R D:s:Stdout/X | D:m:Stdout/X D:m:Stdout/R",
    "1,3 | | D:f:Stdout/AR D:f:Stderr/AR | D:m:Stdout/A D:m:Stdout/X | D:m:Stderr/R",
    "0,0 | | D:m:Stdout/A | D:m:Stderr/A | D:m:Stdout/A D:f:Stderr/A",
    # three threads at once
    "3,0 | | D:m:Stdout/A | D:f:Stdout/A | D:m:Stdout/A | D:m:Stdout/A",
    "0,3 | | D:m:Stderr/A | D:m:Stdout/A | D:m:Stderr/A | D:m:Stdout/A",
    # decisions and settings
    "3,0 | | D:m:None/A | SM:Never | D:m:None/A",
    "3,0 | | D:f:None/A D:f:None/A | SD:NeverColor | D:f:None/A",
    "3,0 | SD:NeverColor | D:f:None/A D:m:None/A | SM:Always SM:Detect | D:m:None/A",
    "3,0 | | D:m:None/A | SD:NeverColor SM:Always | GM GD",
    "0,3 | SD:Stdout | D:f:None/A | SD:Stderr SM:Never | D:f:None/A",
    "0,3 | SD:Stdout | D:m:None/A GD | SD:Stderr | D:f:None/A",
    "3,0 | SM:Never | D:f:Stderr/A D:f:Stdout/A | SM:Detect | D:f:Stderr/A",
    "0,3 | SM:Always | D:t:Stdout/A | SM:Detect SM:Never | D:m:Stdout/A D:m:Stderr/A",
    # nested values while settings change
    "3,0 | | D:n:None/A,None/R | SD:NeverColor | D:m:None/A",
    "3,0 | | D:n:Stdout/A,None/R | SM:Never | D:m:None/A",
    "3,0 | | D:n:None/A,Stderr/R | SM:Always SD:NeverColor | GD",
    "3,0 | SD:NeverColor | D:f:None/ARX | SM:Always SM:Never SM:Detect | D:f:None/A",
    "0,3 | | D:n:Stdout/A,Stderr/A | D:n:Stderr/A,Stdout/A | D:n:Stdout/A,Stderr/A",
]


def decision(rng, level):
    how = rng.choice("mmffstn")
    s = lambda: rng.choice(["None", "None", "Stdout", "Stderr", "AlwaysColor", "NeverColor"])  # noqa: E731
    k = lambda: "".join(rng.choice("AXRN") for _ in range(rng.randrange(1, 4))) if level else "A"  # noqa: E731
    return f"D:{how}:{s()}/{k()}" + (f",{s()}/{k()}" if how == "n" else "")


def random_program(rng, about, level):
    sup = ",".join(str(rng.choice([0, 1, 2, 3] if level else [0, 3])) for _ in "12")

    def op():
        x = rng.random()
        d = 0.15 if about == "settings" else 0.6
        if x < d:
            return decision(rng, level)
        x = rng.random()
        if x < 0.3:
            return "SM:" + rng.choice(["Always", "Never", "Detect"])
        if x < 0.6:
            return "SD:" + rng.choice(["AlwaysColor", "NeverColor", "Stdout", "Stderr"])
        return rng.choice(["GM", "GD"])
    n = rng.choice([2, 2, 3])
    k = 3 if n == 2 else 2
    before = [op() for _ in range(rng.randrange(0, 3))]
    ths = [[op() for _ in range(rng.randrange(1, k + 1))] for _ in range(n)]
    after = ["GM", "GD"] + ([decision(rng, level)] if about != "settings" else [])
    return " | ".join([sup, *[" ".join(x) for x in [before, *ths, after]]])


# ---------------------------------------------------------------- validation
def accepted(ctx, feat, traces, diag=False):
    cfg = f"TraceShared-{DETECTION[feat]}{'-strip' if feat in STRIP else ''}.cfg"
    out = ctx.path("accepted")
    if os.path.exists(out):
        os.unlink(out)
    env = {"TRACES": ctx.write("traces.json", json.dumps(traces)), "ACCEPTED": out}
    if diag:
        env["DIAG"] = "1"
    ctx.tlc("TraceShared", cfg, env=env)
    if not os.path.exists(out):
        return []
    with open(out) as f:
        return [json.loads(json.loads(line)) for line in f]


def validate(ctx, feat, items, what):
    """items: (program, history text, information)."""
    items = list(items)
    if not items:
        return
    good = []
    for p, h, info in items:
        if re.search(r":(panic|error|garbled)\b", h):
            ctx.violation(f"{what} [{feat}]: `{p.text}` gave {h}", {"program": p.text, "history": h, "info": info})
        else:
            good.append((p, h, info))
    traces = [p.history(h) for p, h, _ in good]
    ok = {t for t, _ in accepted(ctx, feat, traces)}
    ctx.count("traces_validated_against_impl", len(traces))
    bad = [k for k in range(len(traces)) if k + 1 not in ok]
    if not bad:
        return
    reach = accepted(ctx, feat, [traces[k] for k in bad[:50]], diag=True)
    for n, k in enumerate(bad[:20]):
        p, h, info = good[k]
        i = max([i for t, i in reach if t == n + 1] or [1])
        e = traces[k]["ev"][i - 1]
        ctx.violation(f"{what} [{feat}]: a history of the library is impossible: program `{p.text}`, history `{h}`, "
                      f"event {i} {json.dumps({x: e[x] for x in 'etoar'})} cannot be explained",
                      {"program": p.text, "history": h, "event": e, "info": info})


# ------------------------------------------------------------------- drivers
def other_locks():
    """Does the library use blocking synchronisation the hook does not see?  Then
    stale reads simulated by the hook might be impossible, and only Miri knows."""
    for f in glob.glob(os.path.join(REPO, "src", "*.rs")):
        if f.endswith("verif_sync.rs"):
            continue
        s = re.sub(r"//.*", "", open(f).read())
        if re.search(r"\b(Mutex|RwLock|OnceLock|LazyLock|Once|Condvar|Barrier|mpsc|ReentrantLock)\b|thread_local", s):
            return True
    return False


def hooked(ctx, feat):
    try:
        return ctx.build(feat, ["threads"], hooks=True, profile="cold")["threads"], True
    except BuildError as e:
        ctx.log("the crate does not build with its verification hook; exploring without it:\n" + e.output[-1500:])
        return ctx.build(feat, ["threads"], profile="cold")["threads"], False


def explore(ctx, feat, programs, cap, secs):
    binary, hook = hooked(ctx, feat)
    weak = hook and not other_locks()
    if not weak:
        ctx.assumptions.append("weak memory effects were left to Miri in this run")
    found, execs, complete, cut = [], 0, 0, 0

    def one(k):
        p = programs[k]
        r = ctx.run([binary, p.text, str(cap), "ra" if weak else "sc", str(ctx.seed * 1000 + k), str(secs)],
                    timeout=secs * 4 + 150)
        return p, r.stdout.decode(errors="replace")
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for p, out in ex.map(one, range(len(programs))):
            for line in out.splitlines():
                if line.startswith("STAT"):
                    _, a, b, c, _ = line.split()
                    execs += int(a) + int(b)
                    complete += c == "true"
                    cut += c != "true"
                elif line.startswith("BAD"):
                    ctx.violation(f"concurrent program `{p.text}` [{feat}]: the process hangs or dies ({line})",
                                  {"program": p.text, "line": line})
                elif line.startswith("H "):
                    _, n, choices, h = line.split(" ", 3)
                    found.append((p, h, {"choices": choices, "feature_set": feat, "mode": "ra" if weak else "sc"}))
    ctx.log(f"{feat}: {len(programs)} programs, {execs} executions ({complete} programs completely explored, {cut} sampled), "
            f"{len(found)} distinct histories")
    ctx.count("executions", execs)
    ctx.count("programs", len(programs))
    ctx.count("programs_completely_explored", complete)
    for p, h, i in found[:2]:
        ctx.sample({"feature_set": feat, "program": p.text, "history": h})
    return found


def model(ctx, cfg, programs, expect=None):
    """TLC on SharedMode for these programs: outcomes per program."""
    out = ctx.path("outcomes")
    if os.path.exists(out):
        os.unlink(out)
    r = ctx.tlc("MCShared", f"MCShared-{cfg}.cfg",
                env={"PROGRAMS": ctx.write("programs.json", json.dumps([p.json() for p in programs])), "OUTCOMES": out},
                expect_ok=expect is None)
    if expect is not None:
        if r.invariant != expect:
            raise ToolError(f"MCShared-{cfg} should violate {expect}:\n{r.tail()}")
        return None
    res = {}
    with open(out) as f:
        for line in f:
            p, o = json.loads(json.loads(line))
            res.setdefault(p - 1, set()).add(spec_outcome(o))
    return res


def compare(ctx, programs, outcomes, found, feat):
    """Do the specification and the library have the same outcomes?  (evidence of
    how complete the exploration was; the judgement is TraceShared's)"""
    seen = {}
    for p, h, _ in found:
        seen.setdefault(p.text, set()).add(p.outcome(h))
    both = sum(len(outcomes.get(k, set()) & seen.get(p.text, set())) for k, p in enumerate(programs))
    spec = sum(len(v) for v in outcomes.values())
    real = sum(len(seen.get(p.text, ())) for p in programs)
    ctx.log(f"{feat}: outcomes predicted by SharedMode {spec}, observed {real}, both {both}")
    ctx.cov.setdefault("outcomes", []).append({"feature_set": feat, "predicted": spec, "observed": real, "both": both})


# ---------------------------------------------------------------------- Miri
RESULTS = ("ok", "Detect", "Always", "Never", "Stdout", "Stderr", "AlwaysColor", "NeverColor", "no", "yes", "yes,yes",
           "yes,no", "no,yes", "no,no", "garbled", "panic")


def timed(nums):
    """[fork, join, (before, after, thread, k, result)*] as the words of a history."""
    fork, join, *rest = nums
    ev = [(fork, "fork"), (join, "join")]
    for n in range(0, len(rest), 5):
        a, b, t, k, r = rest[n:n + 5]
        ev += [(a, f"c{t}:{k}"), (b, f"r{t}:{k}:{RESULTS[r]}")]
    return " ".join(w for _, w in sorted(ev))


def miri(ctx, feat, programs, seeds, rounds, timeout, preempt="0.15", host=False):
    """Runs programs on Miri (real threads, C11 weak memory emulation).  Under its
    isolation both streams are terminals; on the host stdout is a pipe and stderr a pty."""
    env = cargo_env()
    env["RUSTUP_TOOLCHAIN"] = "nightly"
    target = os.path.join(ctx.scratch, "miri-target")
    env["CARGO_TARGET_DIR"] = target
    base = ["cargo", "miri", "run", "--offline", "--quiet", "--manifest-path", os.path.join(DRIVER, "Cargo.toml"),
            "--bin", "miri_threads"]
    if FEATS[feat]:
        base += ["--features", FEATS[feat]]
    env["MIRIFLAGS"] = (f"-Zmiri-many-seeds={ctx.seed * 1000}..{ctx.seed * 1000 + seeds} -Zmiri-preemption-rate={preempt} "
                        "-Zmiri-many-seeds-keep-going -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-ignore-leaks -Zmiri-env-set=TERM=xterm-256color")
    env["RUSTFLAGS"] = "-Zmir-opt-level=3 -Copt-level=0"
    if host:
        env["MIRIFLAGS"] += " -Zmiri-disable-isolation"
        env["TERM"] = "xterm-256color"
        master, slave = os.openpty()
    err = []
    pr = subprocess.Popen(base + ["--", str(rounds)] + [p.text for p in programs], env=env, stdin=subprocess.DEVNULL,
                          stdout=subprocess.PIPE, stderr=slave if host else subprocess.PIPE, start_new_session=True)

    def reader():
        try:
            while True:
                b = os.read(master if host else pr.stderr.fileno(), 65536)
                if not b:
                    break
                err.append(b)
        except OSError:
            pass
    if host:
        os.close(slave)
    th = threading.Thread(target=reader, daemon=True)
    th.start()
    killer = threading.Timer(timeout, lambda: os.killpg(pr.pid, signal.SIGKILL))
    killer.start()
    out = pr.stdout.read().decode(errors="replace")
    code = pr.wait()
    killer.cancel()
    th.join(10)
    if host:
        os.close(master)
    err = b"".join(err).decode(errors="replace")
    found = {}
    n = 0
    for line in out.splitlines():
        k, *nums = [ord(c) - 48 for c in line.strip("\r")] or [-1]
        if 0 <= k < len(programs) and len(nums) % 5 == 4 and min(nums) >= 0:
            n += 1
            found.setdefault((k, tuple(nums[:2]), timed(nums[2:])), 0)
    if code != 0 and n and re.search(r"^thread .* panicked at", err, re.M):
        ctx.violation(f"Miri [{feat}]: a thread panicked: {err[err.find('panicked at'):][:300]}", {"stderr": err[-4000:]})
    elif "error: Undefined Behavior" in err or "error: deadlock" in err or "the evaluated program deadlocked" in err:
        ctx.violation(f"Miri [{feat}]: {err[err.find('error:'):][:700]}", {"stderr": err[-4000:]})
    elif n == 0:
        # Miri is the second engine: without it the exploration above still stands
        ctx.log(f"Miri ran nothing: {err[-1500:]}")
        ctx.assumptions.append("Miri was not usable in this run")
        return []
    ctx.log(f"Miri [{feat}]: {seeds} seeds, {n} histories, {len(found)} distinct")
    ctx.count("miri_histories", n)
    by_sup = {}
    items = []
    for k, sup, h in found:
        p = by_sup.get((k, sup))
        if p is None:
            p = by_sup[k, sup] = Program(f"{sup[0]},{sup[1]}" + programs[k].text[programs[k].text.index(" |"):])
        items.append((p, h, {"engine": "miri", "feature_set": feat}))
    ctx.log(f"Miri [{feat}]: support of the streams: {sorted({s for _, s, _ in found})}")
    return items


def shared(ctx, about, base):
    quick = ctx.quick
    rng = ctx.rng
    feats = ["std", "level"] if about == "decisions" else ["std"]
    if not quick:
        feats = ["none", "std", "level", "strip"]
    nrand, cap, secs = (12, 1500, 12) if quick else (150, 60000, 120)
    for feat in feats:
        level = DETECTION[feat] == "level"
        texts = list(base) + [random_program(rng, about, level) for _ in range(nrand)]
        if feat == "none":
            texts = [t for t in texts]
        programs = [Program(t) for t in dict.fromkeys(texts)]
        if DETECTION[feat] != "level":
            # terminal detection only knows all or nothing
            for p in programs:
                s = [3 if x else 0 for x in p.sup]
                if s != p.sup:
                    p.text = f"{s[0]},{s[1]}" + p.text[p.text.index(" |"):]
                    p.sup = s
        cfg = "level-strip" if feat in STRIP else DETECTION[feat]
        # one thread of SharedMode implements ColorMode
        ctx.tlc("MCSharedSeq", f"MCSharedSeq-{cfg}{'' if quick else '-deep'}.cfg")
        small = programs[:len(base)] if quick else programs
        outcomes = model(ctx, cfg, small)
        found = explore(ctx, feat, programs, cap, secs)
        compare(ctx, small, outcomes, found, feat)
        validate(ctx, feat, found, "interleaving")
        if feat in ("std", "level"):
            texts = list(base) + [random_program(rng, about, level) for _ in range(4 if quick else 40)]
            texts = [t for t in texts if len(t.split("|")) <= 5]
            progs = [Program(t) for t in texts]
            for host in ([feat == "level"] if quick else [False, True]):
                validate(ctx, feat, miri(ctx, feat, progs, 16 if quick else 128, 3 if quick else 8, 120 if quick else 1500,
                                         host=host), "Miri")
    ctx.assumptions += [
        "reads are answered by a release/acquire view model of the C11 memory (no load buffering, writes ordered by the "
        "schedule); anything it allows, the C11 memory model allows",
        "isatty is replaced by a table the driver controls (link-time interposition)"]


def C19(ctx):
    # which orderings the property needs: weakening any of them breaks it in the specification
    progs = [Program(t) for t in SETTINGS]
    model(ctx, "relaxed-store", progs, expect="NeverOlder")
    model(ctx, "relaxed-load", progs, expect="NeverOlder")
    shared(ctx, "settings", SETTINGS)


def C20(ctx):
    shared(ctx, "decisions", DECISIONS)
