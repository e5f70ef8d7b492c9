#!/usr/bin/env python3
"""Tries the judges: corrupts recorded data and looks whether TLC rejects it.

  corrupt.py collect DIR C01 C02 ...   runs checks (quick) and keeps the data they hand to TLC
  corrupt.py try DIR N SEED [NAME]     N corruptions of every kind of data; prints those that TLC accepts

A corruption changes one leaf of one trace or record (a number, a truth value,
a text), or drops or doubles an element of a list in it.  Accepted ones are
either inputs changed into other inputs with the same answer, or holes."""
import concurrent.futures
import copy
import glob
import json
import os
import random
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core


def collect(where, props):
    os.makedirs(where, exist_ok=True)
    real = core.Ctx.tlc
    n = {}

    def tlc(self, module, cfg, env=None, **kw):
        r = real(self, module, cfg, env=env, **kw)
        if env and "TRACES" in env and r.ok:
            name = f"{self.prop}-{module}-{os.path.basename(cfg)[:-4]}"
            n[name] = n.get(name, 0) + 1
            shutil.copy(env["TRACES"], f"{where}/{name}-{n[name]}.json")
            json.dump({"module": module, "cfg": os.path.basename(cfg), "env": {k: v for k, v in env.items() if k != "TRACES"}},
                      open(f"{where}/{name}-{n[name]}.meta", "w"))
        return r

    core.Ctx.tlc = tlc
    import importlib
    import importlib.machinery
    import importlib.util
    path = os.path.join(core.VERIF, "check")
    for p in props:
        loader = importlib.machinery.SourceFileLoader("check_" + p, path)
        src = open(path).read()
        sys.argv = ["check", p, "quick"]
        try:
            exec(compile(src, path, "exec"), {"__name__": "__main__", "__file__": path})
        except SystemExit:
            pass


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        if x:
            yield path, "list"
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
    else:
        yield path, "leaf"


def at(x, path):
    for p in path:
        x = x[p]
    return x


def shape(path):
    return ".".join("#" if isinstance(p, int) else p for p in path)


def corrupt(rng, x, words):
    """One corrupted copy of x; the kinds of places are equally likely."""
    places = {}
    for path, kind in leaves(x):
        places.setdefault((shape(path), kind), []).append(path)
    for _ in range(100):
        key = rng.choice(sorted(places))
        path = rng.choice(places[key])
        y = copy.deepcopy(x)
        if key[1] == "list":
            l = at(y, path)
            i = rng.randrange(len(l))
            how = rng.choice(["drop", "double", "swap"])
            if how == "drop":
                del l[i]
            elif how == "double":
                l.insert(i, copy.deepcopy(l[i]))
            else:
                j = rng.randrange(len(l))
                l[i], l[j] = l[j], l[i]
            what = f"{how} {i}"
        else:
            if not path:
                continue
            v = at(y, path)
            if isinstance(v, bool):
                w = not v
            elif isinstance(v, int):
                w = rng.choice([v + 1, v - 1, v ^ 1, 0]) if v else 1
                w = max(w, 0)
            elif isinstance(v, str):
                w = rng.choice(sorted(words.get(key[0], set()) - {v}) or [v])
            else:
                continue
            at(y, path[:-1])[path[-1]] = w
            what = f"{v} -> {w}"
        if y != x:
            return y, key[0], f"{'/'.join(map(str, path))}: {what}"
    return None


def judge(job):
    k, where, meta, y, key, what = job
    d = f"{where}/run{k}"
    os.makedirs(d, exist_ok=True)
    json.dump([y], open(f"{d}/t.json", "w"))
    e = core.clean_env()
    e["JDK_JAVA_OPTIONS"] = f"-Xmx3g -Xss64m -XX:ParallelGCThreads=1 -XX:TieredStopAtLevel=1 -Djava.io.tmpdir={d}"
    e.update(meta["env"], TRACES=f"{d}/t.json")
    try:
        r = subprocess.run(["tlc", "-workers", "1", "-metadir", f"{d}/m", "-nowarning", "-noGenerateSpecTE", "-config",
                            f"{core.SPEC}/{meta['cfg']}", f"{core.SPEC}/{meta['module']}.tla"], env=e, cwd=core.SPEC,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        ok = core.TlcResult(r.returncode, r.stdout, 0).ok
    except subprocess.TimeoutExpired:
        ok = None
    shutil.rmtree(d)
    return key, what, ok, y


def trying(where, num, seed, only):
    files = sorted(glob.glob(f"{where}/*.meta"))
    for f in files:
        name = os.path.basename(f)[:-5]
        if only and only not in name:
            continue
        meta = json.load(open(f))
        data = json.load(open(f[:-5] + ".json"))
        rng = random.Random(f"{seed}:{name}")
        words = {}
        for x in data[:2000]:
            for path, kind in leaves(x):
                if kind == "leaf" and isinstance(at(x, path), str):
                    words.setdefault(shape(path), set()).add(at(x, path))
        small = [x for x in data if len(json.dumps(x)) < 200000] or data
        jobs = [(k, where, meta, rng.choice(small), "control", "none") for k in range(3)]
        while len(jobs) < num:
            c = corrupt(rng, rng.choice(small), words)
            if c:
                jobs.append((len(jobs), where, meta, *c))
        with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
            res = list(ex.map(judge, jobs))
        print(f"== {name}: {sum(r[2] is False for r in res)} of {len(res)} rejected", flush=True)
        for key, what, ok, y in res:
            if ok is not False:
                print(f"   {'accepted' if ok else 'no end'}: {key}  {what[:160]}", flush=True)
        json.dump([(k, w, y) for k, w, ok, y in res if ok is not False], open(f"{where}/{name}.accepted", "w"))


if __name__ == "__main__":
    sys.argv[2] = os.path.abspath(sys.argv[2])
    if sys.argv[1] == "collect":
        collect(sys.argv[2], sys.argv[3:])
    else:
        trying(sys.argv[2], int(sys.argv[3]), sys.argv[4], sys.argv[5] if len(sys.argv) > 5 else "")
