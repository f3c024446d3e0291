"""The generator under hostile conditions: same files whatever the environment, repeated, interrupted, restricted."""
import hashlib
import os
import random
import re
import shutil
import subprocess
import sys
import time

import vf

ENVS = [
    ("plain", {}, None), ("hash seed 1", {"PYTHONHASHSEED": "1"}, None), ("hash seed 2, C locale, other folder", {"PYTHONHASHSEED": "2", "LC_ALL": "C"}, "/"),
    ("random hash seed, UTC+9, no UTF-8 mode", {"PYTHONHASHSEED": "random", "TZ": "UTC-9", "LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, None),
    ("hash seed 3, narrow terminal, optimised", {"PYTHONHASHSEED": "3", "COLUMNS": "20", "PYTHONOPTIMIZE": "2"}, "/tmp"),
    ("random hash seed, path with spaces", {"PYTHONHASHSEED": "random"}, "space"), ("random hash seed, umask 077", {"PYTHONHASHSEED": "random"}, "umask"),
    ("another date", {"PYTHONHASHSEED": "random"}, "date"),
]
# seen by the interpreter before the generator: another day
DATE = """import datetime, time
class date(datetime.date):
    @classmethod
    def today(cls): return cls(2031, 2, 3)
class dt(datetime.datetime):
    @classmethod
    def now(cls, tz=None): return cls(2031, 2, 3, 4, 5, 6, 7, tz)
    @classmethod
    def today(cls): return cls(2031, 2, 3, 4, 5, 6, 7)
    @classmethod
    def utcnow(cls): return cls(2031, 2, 3, 4, 5, 6, 7)
datetime.date, datetime.datetime = date, dt
"""


def tree(d, strip=False):
    """files outside egg/ -> digest of their contents"""
    out = {}
    for p, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x != "__pycache__" and (p, x) != (d, "egg")]
        for f in fs:
            q = os.path.join(p, f)
            with open(q, "rb") as fd:
                b = fd.read()
            if strip:
                b = re.sub(rb"/\*.*?\*/", b"", b, flags=re.S)
            out[os.path.relpath(q, d)] = hashlib.sha1(b).hexdigest()
    return out


def fresh(c, name):
    d = os.path.join(c.tmp, name)
    os.makedirs(d)
    shutil.copytree(os.path.join(vf.REPO, "egg"), d + "/egg", ignore=shutil.ignore_patterns("__pycache__"))
    return d


def hatch(d, args, env=None, cwd=None, umask=-1):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    e.update(env or {})
    return subprocess.run([sys.executable, "-B", d + "/egg/hatch.py", *args], cwd=cwd or d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300, umask=umask)


def same(c, key, what, want, got, subset=False):
    n = 0
    for f in sorted(set(want) | set(got)):
        c.evals += 1
        c.seen.add((key, f))
        if f not in got:
            if not subset:
                n += 1
                c.add_viol(key + "/missing", 1, "%s: %s was not written" % (what, f), "hatch")
        elif f not in want:
            n += 1
            c.add_viol(key + "/extra", 1, "%s: %s is written only there" % (what, f), "hatch")
        elif want[f] != got[f]:
            n += 1
            c.add_viol(key + "/differs", 1, "%s: %s is different" % (what, f), "hatch")
    return n


def run(c):
    c.rule = ("the generator run with different hash seeds, locales, time zones, folders and umasks, over its own output, without force over a tree with changed and removed files, killed half way and run again, and restricted to each "
              "extension (whose headers then compile a program); every file compared byte for byte (tests up to comments); distinct = distinct (condition, file)")
    c.seen = set()
    th = c.tier == "thorough"
    rnd = random.Random(c.seed * 7919 + 5)
    base = fresh(c, "base")
    r = hatch(base, ["-lf"])
    if r.returncode:
        c.add_viol("hatch/fails", 1, r.stdout[-1500:], "hatch")
        return
    want = tree(base)
    c.samples.append("%d files, e.g. %s" % (len(want), ", ".join(sorted(want)[::len(want) // 3 + 1])))

    def check(r, key):
        if r.returncode:
            c.add_viol(key + "/fails", 1, r.stdout[-1500:], "hatch")
        return r.returncode == 0

    def env(k, args=("-lf",), strip=False, ref=None):
        name, e, where = ENVS[k]
        d = fresh(c, "a folder with spaces %d" % len(args) if where == "space" else "env%d%s" % (k, "t" if strip else ""))
        key = "tests" if strip else "environment"
        if where == "date":
            p = d + ".date"
            os.makedirs(p, exist_ok=True)
            with open(p + "/sitecustomize.py", "w") as fd:
                fd.write(DATE)
            e = dict(e, PYTHONPATH=p)
        if check(hatch(d, list(args), e, where if where and where[0] == "/" else None, 0o77 if where == "umask" else -1), key):
            same(c, key, name, ref or want, tree(d, strip))
        c.counters["environments"] = c.counters.get("environments", 0) + 1
        shutil.rmtree(d)

    def again():
        d = fresh(c, "again")
        ok = check(hatch(d, ["-lf"]), "again")
        # files of an earlier version, truncated ones, and ones dated in the future are all written again
        for k, f in enumerate(rnd.sample(sorted(want), 90)):
            q = os.path.join(d, f)
            with open(q, "r+b") as fd:
                if k % 3:
                    fd.truncate(rnd.randrange(os.path.getsize(q)))
                else:
                    fd.seek(0, 2)
                    fd.write(b"/* an earlier version */\n")
            if k % 2:
                os.utime(q, (time.time() + 86400,) * 2)
        if ok and check(hatch(d, ["-lf"], {"PYTHONHASHSEED": "random"}), "again"):
            same(c, "again", "forced run over earlier, truncated and newer output", want, tree(d))
        # without force: what is there stays, what is missing comes back
        mod, gone = set(rnd.sample(sorted(want), 40)), set(rnd.sample(sorted(want), 60))
        expect = dict(want)
        for f in mod | gone:
            if f in gone:
                os.remove(os.path.join(d, f))
            else:
                with open(os.path.join(d, f), "w") as fd:
                    fd.write("mine\n")
                expect[f] = hashlib.sha1(b"mine\n").hexdigest()
        if check(hatch(d, ["-l"]), "no-force"):
            same(c, "no-force", "run without force over changed and removed files", expect, tree(d))
        shutil.rmtree(d)

    def killed(k, frac, took):
        d = fresh(c, "kill%d" % k)
        p = subprocess.Popen([sys.executable, "-B", d + "/egg/hatch.py", "-lf"], cwd=d, env=dict(os.environ, PYTHONHASHSEED="0"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        time.sleep(frac * took)
        p.kill()
        p.wait()
        n = len(tree(d))
        c.counters["interrupted runs"] = c.counters.get("interrupted runs", 0) + 1
        if 0 < n < len(want):
            c.counters["interrupted half way"] = c.counters.get("interrupted half way", 0) + 1
        if check(hatch(d, ["-lf"]), "killed"):
            same(c, "killed", "forced run after a killed one (%d files were there)" % n, want, tree(d))
        shutil.rmtree(d)

    def listed():
        d = fresh(c, "list")
        for f in vf.repo_files():
            q = os.path.join(d, f)
            if os.path.isfile(os.path.join(vf.REPO, f)) and not f.startswith("egg/"):
                os.makedirs(os.path.dirname(q), exist_ok=True)
                shutil.copyfile(os.path.join(vf.REPO, f), q)
        before = tree(d)
        r = hatch(d, ["-L"], {"PYTHONHASHSEED": "random"})
        if check(r, "list"):
            same(c, "list/writes", "--list-files (which only prints names)", before, tree(d))
            names = {os.path.relpath(os.path.normpath(x), d) for x in r.stdout.split("\n") if x.startswith("/")}
            for f in sorted(want):
                c.evals += 1
                c.seen.add(("list", f))
                if f not in names:
                    c.add_viol("list/missing", 1, "--list-files does not name " + f, "hatch")
        shutil.rmtree(d)

    def only(e):
        d = fresh(c, "only_" + e)
        if check(hatch(d, ["-lf", "-D", e], {"PYTHONHASHSEED": "random"}), "restricted"):
            same(c, "restricted", "generation for %s only" % e, want, tree(d), True)
            for f in vf.repo_files():
                if f.startswith("include/"):
                    q = os.path.join(d, f)
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    shutil.copyfile(os.path.join(vf.REPO, f), q)
            s = d + "/use.cpp"
            with open(s, "w") as fd:
                fd.write("#include <nsimd/nsimd-all.hpp>\nint main() { nsimd::pack<float> a(1.0f); nsimd::pack<i64> b(2); return nsimd::addv(a + a) < 0.0f || nsimd::any(b != b); }\n")
            p = subprocess.run(["g++", "-std=c++11", "-w", "-fsyntax-only", "-I" + d + "/include", *vf.EXT_FLAGS[e], s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            c.evals += 1
            if p.returncode:
                c.add_viol("restricted/compile/" + e, 1, p.stdout[-1200:], "hatch")
        shutil.rmtree(d)

    def tests():
        d = fresh(c, "tests0")
        if check(hatch(d, ["-tf"]), "tests"):
            t0 = tree(d, True)
            for k in (range(1, len(ENVS)) if th else [1 + c.seed % 3]):
                env(k, ("-tf",), True, t0)
        shutil.rmtree(d)
    t = time.time()
    env(0)
    took = time.time() - t
    ex = list(vf.EXT_FLAGS)
    plan = [tests, again, listed, *[lambda k=k: env(k) for k in range(1, len(ENVS))], *[lambda e=e: only(e) for e in ex]]
    plan += [lambda k=k, f=rnd.uniform(0.1, 1.0): killed(k, f, took) for k in range(24 if th else 4)]
    if th:
        plan += [lambda k=k: env_seed(k) for k in range(20)]

    def env_seed(k):
        d = fresh(c, "seed%d" % k)
        if check(hatch(d, ["-lf"], {"PYTHONHASHSEED": str(100 + 17 * k + c.seed)}), "environment"):
            same(c, "environment", "hash seed %d" % (100 + 17 * k + c.seed), want, tree(d))
        c.counters["environments"] = c.counters.get("environments", 0) + 1
        shutil.rmtree(d)
    c.parallel(plan)
    c.distinct = len(c.seen)
    c.counters["files compared"] = c.evals
