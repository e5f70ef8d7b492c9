"""Shared machinery of the checks: building the drivers against /repo, running
TLC, reporting violations, writing evidence."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("COLORZ_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
DRIVER = os.path.join(VERIF, "driver")

# cargo features of the four official feature sets, and some further ones
FEATS = {
    "none": "",
    "std": "std",
    "level": "std,supports-color",
    "strip": "std,supports-color,strip-colors",
    "level-only": "supports-color",
    "strip-only": "strip-colors",
    "strip-std": "std,strip-colors",
    "alloc": "alloc",
}
OFFICIAL = ["none", "std", "level", "strip"]
DETECTION = {"none": "none", "std": "terminal", "level": "level", "strip": "level",
             "level-only": "level", "strip-only": "none", "strip-std": "terminal", "alloc": "none"}
# these feature sets are built as a release is (no debug assertions, no overflow
# checks), the others as a debug build is
RELEASE_LIKE = {"std", "strip"}
STRIP = {"strip", "strip-only", "strip-std"}


class ToolError(Exception):
    """The check itself could not do its work (exit 2)."""


class BuildError(ToolError):
    def __init__(self, what, output):
        super().__init__(f"{what} does not build:\n{output[-6000:]}")
        self.output = output


class Violation(Exception):
    def __init__(self, what, data=None):
        super().__init__(what)
        self.what, self.data = what, data


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        if os.path.isdir(p):
            for d, ds, fs in sorted(os.walk(p)):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(q.encode() + b"\0")
                    with open(q, "rb") as fh:
                        h.update(fh.read())
        elif os.path.exists(p):
            h.update(p.encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


def repo_inputs():
    return [os.path.join(REPO, x) for x in ("src", "Cargo.toml", "Cargo.lock", "README.md", "build.rs")]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.quick = tier == "quick"
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.assumptions = []
        self.scratch = os.path.join(BUILD, "run", f"{prop}-{os.getpid()}")
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch)
        self.rng = random.Random(f"{seed}:{prop}")
        self.known = load_known(prop)
        self._n = 0

    # ------------------------------------------------------------ reporting
    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(x)

    def violation(self, what, data=None, key=None):
        """Records a violation; `key` identifies it among known findings."""
        for k in self.known:
            if key is not None and k["key"] == key:
                if k not in [x for x, _ in self.known_hit]:
                    self.known_hit.append((k, what))
                return
        self.violations.append((what, data))
        self.log("violation:", str(what)[:2000])
        if len(self.violations) >= 20:
            raise Stop()

    known_hit = []

    def path(self, name):
        return os.path.join(self.scratch, name)

    def write(self, name, text):
        p = self.path(name)
        with open(p, "w") as f:
            f.write(text)
        return p

    # ------------------------------------------------------------ building
    def build(self, feat, bins, hooks=False, extra_rustflags="", pkg=DRIVER, profile=None, optional=False,
              bootstrap=True, features="", env=None):
        """Builds driver binaries against /repo's current tree; name -> path."""
        key = file_hash(repo_inputs() + [pkg])
        root = os.path.join(BUILD, "t")
        os.makedirs(root, exist_ok=True)
        top = os.path.join(root, key)
        if not os.path.isdir(top):
            olds = sorted((os.path.join(root, d) for d in os.listdir(root)), key=os.path.getmtime)
            for d in olds[:-4]:
                if time.time() - os.path.getmtime(d) > 1800:
                    shutil.rmtree(d, ignore_errors=True)
        os.makedirs(top, exist_ok=True)
        target = os.path.join(top, feat + ("-hook" if hooks else ""))
        flags = extra_rustflags
        if hooks:
            flags = (flags + " --cfg colorz_verif").strip()
        extra_env = env or {}
        env = cargo_env(flags)
        env.update(extra_env)
        if feat in RELEASE_LIKE:
            for prof in ("DEV", "FAST", "COLD"):
                env[f"CARGO_PROFILE_{prof}_DEBUG_ASSERTIONS"] = "false"
                env[f"CARGO_PROFILE_{prof}_OVERFLOW_CHECKS"] = "false"
        if bootstrap:
            env["RUSTC_BOOTSTRAP"] = "1"
        env["CARGO_TARGET_DIR"] = target
        cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(pkg, "Cargo.toml")]
        if os.path.exists(os.path.join(pkg, "Cargo.lock")):
            cmd.append("--locked")
        f = ",".join(x for x in (FEATS[feat], features) if x)
        if f:
            cmd += ["--features", f]
        if profile:
            cmd += ["--profile", profile]
        for b in dict.fromkeys(bins):
            cmd += ["--bin", b]
        t = time.time()
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=800)
        if r.returncode != 0:
            raise BuildError(f"driver {bins} ({feat})", r.stdout)
        self.log(f"built {','.join(bins)} [{feat}{' +hooks' if hooks else ''}] in {time.time() - t:.1f}s")
        return {b: os.path.join(target, profile or "debug", b) for b in bins}

    def build_api(self, feat, bins, **kw):
        """As `build`; a public method the drivers use and that is gone is a violation."""
        try:
            return self.build(feat, bins, **kw)
        except BuildError as e:
            gone = re.findall(r"^error\[E0599\]: (no (?:method|function or associated item|associated item|variant)[^\n]* found[^\n]*)",
                              e.output, re.M)
            if not gone or "could not compile `colorz`" in e.output:
                raise
            self.violation(f"[{feat}] the library builds, but lacks documented methods: {'; '.join(gone[:5])}", {"errors": gone})
            return None

    def run(self, cmd, timeout=None, env=None, stdin=None, check=True):
        timeout = timeout or (400 if self.quick else 3000)
        e = clean_env()
        e.update(env or {})
        try:
            r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                               input=stdin)
        except subprocess.TimeoutExpired as x:
            raise RunTimeout(f"{cmd[0]} did not finish in {timeout}s", x)
        if check and r.returncode != 0:
            raise ToolError(f"{' '.join(cmd)[:300]} exited with {r.returncode}: {r.stderr[-3000:].decode(errors='replace')}")
        return r

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=8, timeout=None, extra=(), mem="8g", expect_ok=True, java=(), at_least=0):
        """Runs TLC; returns a TlcResult.  Counts go into the evidence."""
        timeout = timeout or (800 if self.quick else 3000)
        self._n += 1
        meta = self.path(f"tlc{self._n}")
        os.makedirs(meta)
        e = clean_env()
        e["JDK_JAVA_OPTIONS"] = f"-Xmx{mem} -Xss64m -Djava.io.tmpdir={meta} " + " ".join(java)
        e.update(env or {})
        if not os.path.isabs(cfg):
            cfg = os.path.join(SPEC, cfg)
        cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-nowarning", "-noGenerateSpecTE", "-config", cfg, *extra,
               os.path.join(SPEC, module + ".tla")]
        t = time.time()
        try:
            r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=timeout, cwd=SPEC)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC on {module}/{os.path.basename(cfg)} did not finish in {timeout}s")
        finally:
            pass
        res = TlcResult(r.returncode, r.stdout, time.time() - t)
        shutil.rmtree(meta, ignore_errors=True)
        self.count("states", res.distinct)
        self.count("transitions", res.generated)
        self.log(f"TLC {module} [{os.path.basename(cfg)}]: {res.distinct} states, {res.generated} transitions, "
                 f"{res.wall:.1f}s, {'ok' if res.ok else 'exit %d' % res.code}")
        if res.ok and res.distinct < at_least:
            raise ToolError(f"TLC on {module} looked at {res.distinct} states, not at {at_least}:\n{res.tail()}")
        if expect_ok and not res.ok:
            raise ToolError(f"TLC on {module}/{os.path.basename(cfg)} failed:\n{res.tail()}")
        return res

    # ------------------------------------------------------------ finishing
    def evidence(self, level):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        p = os.path.join(VERIF, "evidence", f"{self.prop}.json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p + ".tmp", p)

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


class Stop(Exception):
    """Enough violations."""


class RunTimeout(Exception):
    pass


class TlcResult:
    def __init__(self, code, out, wall):
        self.code, self.out, self.wall = code, out, wall
        # TLC can exit with 0 after an internal error, so the message counts as well
        done = ("Model checking completed. No error has been found.", "The number of states generated:")
        self.ok = code == 0 and any(d in out for d in done) and "Error:" not in out
        m = re.findall(r"([\d,]+) states generated,? .*?([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.deadlock = "Deadlock reached" in out
        m = re.search(r"Invariant (\w+) is violated", out)
        self.invariant = m.group(1) if m else None
        m = re.search(r"(?:property|properties) (\w+) .*violated", out)
        self.property = m.group(1) if m else None

    @property
    def violated(self):
        return self.deadlock or self.invariant is not None or "is violated" in self.out or "was violated" in self.out

    def tail(self, n=3500):
        return self.out[-n:]

    def last_state(self):
        """The last state TLC printed in an error trace."""
        parts = re.split(r"\nState \d+: ", self.out)
        if len(parts) < 2:
            return ""
        return parts[-1].split("\n\n")[0]


def clean_env():
    e = {k: v for k, v in os.environ.items()
         if k in ("PATH", "HOME", "LANG", "USER", "TMPDIR", "LD_LIBRARY_PATH", "RUSTUP_HOME", "CARGO_HOME")}
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    return e


def cargo_env(rustflags=""):
    e = clean_env()
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
    if rustflags:
        e["RUSTFLAGS"] = rustflags
    return e


def load_known(prop):
    """KNOWN_FINDINGS.txt: lines `known: property=<id> key=<key> <text>`;
    `fixed:` lines suppress nothing."""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append({"key": m.group(2), "text": m.group(3)})
    return out


def write_replay(ctx):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{ctx.prop}-{ctx.tier}-{ctx.seed}.json")
    with open(p, "w") as f:
        json.dump({"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed,
                   "violations": [{"what": str(w), "data": d} for w, d in ctx.violations]}, f, indent=1, default=str)
    return p


def main(prop, fn, level="model_checking"):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier if tier in ("quick", "thorough") else "quick", seed)
    ctx.known_hit = []
    code = 0
    try:
        try:
            fn(ctx)
        except Stop:
            pass
        except Violation as v:
            ctx.violations.append((v.what, v.data))
        for k, what in ctx.known_hit:
            print(f"KNOWN-FINDING: property={prop} {k['text']}")
        if ctx.violations:
            p = write_replay(ctx)
            for what, _ in ctx.violations[:3]:
                print("  " + str(what)[:1500])
            print(f"VIOLATION property={prop} replay={p}")
            code = 1
        ctx.evidence(level)
    except RunTimeout as e:
        # the drivers need a small fraction of this time
        ctx.violations.append((f"the library does not come to an end: {e}", {"error": str(e)}))
        p = write_replay(ctx)
        print(f"  {e}\nVIOLATION property={prop} replay={p}")
        ctx.evidence(level)
        code = 1
    except ToolError as e:
        print(f"ERROR property={prop}: {e}")
        code = 2
    except Exception:
        import traceback
        traceback.print_exc()
        print(f"ERROR property={prop}: internal error of the check")
        code = 2
    finally:
        ctx.cleanup()
    if code == 0:
        print(f"OK property={prop} ({time.time() - ctx.t0:.1f}s)")
    sys.stdout.flush()
    return code
