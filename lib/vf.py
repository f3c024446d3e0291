"""Framework: stages /repo (runs its generator), builds harnesses against the
staged tree, runs them, folds their verdicts, writes evidence."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SRC = os.path.join(VERIF, "src")
NCPU = os.cpu_count() or 4

EXT_FLAGS = {
    "cpu": ["-DCPU"],
    "sse2": ["-DSSE2", "-msse2"],
    "sse42": ["-DSSE42", "-msse4.2"],
    "avx": ["-DAVX", "-mavx", "-mno-avx256-split-unaligned-load", "-mno-avx256-split-unaligned-store"],
    "avx2": ["-DAVX2", "-mavx2", "-mno-avx256-split-unaligned-load", "-mno-avx256-split-unaligned-store",
             "-mfma", "-DFP16", "-mf16c", "-DFMA"],
    "avx512_knl": ["-DAVX512_KNL", "-mavx512f", "-mavx512pf", "-mavx512er", "-mavx512cd", "-mfma", "-DFP16", "-mf16c"],
    "avx512_skylake": ["-DAVX512_SKYLAKE", "-mavx512f", "-mavx512dq", "-mavx512cd", "-mavx512bw", "-mavx512vl",
                       "-mfma", "-DFP16", "-mf16c"],
}
SLEEF_FLAGS = {
    "sse2": ["-DNSIMD_SSE2", "-DENABLE_SSE2=1"], "sse42": ["-DNSIMD_SSE42", "-DENABLE_SSE4=1"],
    "avx": ["-DNSIMD_AVX", "-DENABLE_AVX=1"], "avx2": ["-DNSIMD_AVX2", "-DENABLE_AVX2=1"],
    "avx512_knl": ["-DNSIMD_AVX512_KNL", "-DENABLE_AVX512F=1"],
    "avx512_skylake": ["-DNSIMD_AVX512_SKYLAKE", "-DENABLE_AVX512F=1"],
}
CHAIN = {"cpu": ["cpu"], "sse2": ["cpu", "sse2"], "sse42": ["cpu", "sse2", "sse42"],
         "avx": ["cpu", "sse2", "sse42", "avx"], "avx2": ["cpu", "sse2", "sse42", "avx", "avx2"],
         "avx512_knl": ["cpu", "sse2", "sse42", "avx", "avx2", "avx512_knl"],
         "avx512_skylake": ["cpu", "sse2", "sse42", "avx", "avx2", "avx512_skylake"]}
ALL_EXTS = list(EXT_FLAGS)


def cpu_flags():
    try:
        with open("/proc/cpuinfo") as f:
            for line in f:
                if line.startswith("flags"):
                    return set(line.split(":", 1)[1].split())
    except OSError:
        pass
    return set()


def runnable_exts(exts=None):
    fl = cpu_flags()
    need = {"cpu": [], "sse2": ["sse2"], "sse42": ["sse4_2"], "avx": ["avx"], "avx2": ["avx2", "fma", "f16c"],
            "avx512_knl": ["avx512f", "avx512cd", "fma", "f16c"],
            "avx512_skylake": ["avx512f", "avx512dq", "avx512cd", "avx512bw", "avx512vl", "fma", "f16c"]}
    return [e for e in (exts or ALL_EXTS) if all(n in fl for n in need[e])]


class HarnessError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def repo_files():
    r = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-co", "--exclude-standard", "-z"],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    if r.returncode == 0 and r.stdout:
        return [f for f in r.stdout.split("\0") if f]
    raise HarnessError("git ls-files failed in " + REPO)


class Check:
    def __init__(self, prop, tier=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        self.cache = os.environ.get("VF_CACHE")
        self.viol = {}       # key -> (n, detail, unit)
        self.evals = 0
        self.distinct = 0
        self.counters = {}
        self.samples = []
        self.units = []
        self.assumptions = []
        self.skipped = []
        self.extra = {}
        self.rule = ""

    # ---- staging ---------------------------------------------------------
    def stage(self):
        files = [f for f in repo_files() if f.split("/")[0] in ("egg", "include", "src")]
        h = hashlib.sha256()
        for f in sorted(files):
            p = os.path.join(REPO, f)
            if not os.path.isfile(p):
                continue
            h.update(f.encode() + b"\0")
            with open(p, "rb") as fd:
                h.update(hashlib.sha256(fd.read()).digest())
        self.tree = h.hexdigest()[:24]
        if self.cache:
            d = os.path.join(self.cache, "stage-" + self.tree)
            if os.path.isdir(d):
                self.inc, self.nsrc, self.stagedir = d + "/include", d + "/src", d
                return
        d = os.path.join(self.tmp, "stage")
        os.makedirs(d)
        shutil.copytree(os.path.join(REPO, "egg"), d + "/egg", ignore=shutil.ignore_patterns("__pycache__"))
        r = sh([sys.executable, "-B", "egg/hatch.py", "-lf"], cwd=d,
               env=dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1"))
        if r.returncode:
            raise HarnessError("egg/hatch.py failed:\n" + r.stdout[-3000:])
        for f in files:
            if f.startswith(("include/", "src/")):
                p, q = os.path.join(REPO, f), os.path.join(d, f)
                if os.path.isfile(p):
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    shutil.copyfile(p, q)
        if self.cache:
            os.makedirs(self.cache, exist_ok=True)
            q = os.path.join(self.cache, "stage-" + self.tree)
            if not os.path.isdir(q):
                shutil.copytree(d, q)
            d = q
        self.inc, self.nsrc, self.stagedir = d + "/include", d + "/src", d

    # ---- building --------------------------------------------------------
    def _harness_hash(self):
        h = hashlib.sha256()
        for f in sorted([*os.listdir(SRC), "hipstub/cuda_fp16.h", *("hipstub/hip/" + x for x in os.listdir(SRC + "/hipstub/hip"))]):
            p = os.path.join(SRC, f)
            if os.path.isfile(p) and f.endswith((".hpp", ".h", ".c", ".inc")):
                with open(p, "rb") as fd:
                    h.update(f.encode() + fd.read())
        return h.hexdigest()

    def compile(self, out, cmd, srcs=()):
        """Runs cmd (without -o) to make out; cached on content when VF_CACHE is set."""
        if self.cache:
            k = hashlib.sha256(("\0".join(cmd) + self.tree + self._harness_hash()).replace(self.tmp, "@").encode())
            for s in srcs:
                with open(s, "rb") as fd:
                    k.update(fd.read())
            ck = os.path.join(self.cache, "o-" + k.hexdigest()[:32])
            if os.path.exists(ck):
                shutil.copy2(ck, out)
                return
        r = sh(cmd + ["-o", out])
        if r.returncode:
            raise HarnessError("build failed: %s\n%s\n%s" % (" ".join(cmd), "\n".join(re.findall(r"[^\n]*error:[^\n]*", r.stdout)[:3]), r.stdout[-6000:]))
        if self.cache:
            shutil.copy2(out, ck + ".tmp%d" % os.getpid())
            os.rename(ck + ".tmp%d" % os.getpid(), ck)

    def compile_h(self, unit, out, cmd, srcs=()):
        """Compiles a harness unit, that is, legal user code: if the compiler rejects it, the library broke it.
        Returns True, or False after recording the violation."""
        try:
            self.compile(out, cmd, srcs)
            return True
        except HarnessError as e:
            t = str(e)
            if re.search(r"internal compiler error|Killed|cannot allocate|No space left|[Ss]egmentation fault", t) or not re.search(r"error:", t):
                raise
            first = re.search(r"[^\n]*error:[^\n]*", t).group(0)
            self.add_viol("compile/" + unit, 1, "user code that uses the documented API is rejected: " + first, unit)
            return False

    def link_h(self, unit, cmd):
        r = sh(cmd)
        if r.returncode == 0:
            return True
        m = re.search(r"[^\n]*(undefined reference|multiple definition|redefinition)[^\n]*", r.stdout)
        if not m:
            raise HarnessError("link failed: " + r.stdout[-4000:])
        self.add_viol("link/" + unit, 1, "user code that uses the documented API does not link: " + m.group(0)[-600:], unit)
        return False

    def parallel(self, fns):
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = [ex.submit(f) for f in fns]
            err = None
            res = []
            for f in futs:
                try:
                    res.append(f.result())
                except HarnessError as e:
                    err = err or e
            if err:
                raise err
            return res

    def core_objs(self, tag="", opt=("-O2",), cxx="g++", cc="gcc", names=("memory", "fp16", "ufp", "gpu")):
        """The ext-independent library sources plus our oracle."""
        jobs, objs = [], []
        for n in names:
            s = "%s/%s.cpp" % (self.nsrc, n)
            o = "%s/%s%s.o" % (self.tmp, n, tag)
            objs.append(o)
            jobs.append(lambda s=s, o=o: self.compile(
                o, [cxx, "-std=c++98", "-fPIC", "-DNDEBUG", "-DCPU", "-I" + self.inc, *opt, "-c", s], [s]))
        s, o = SRC + "/oracle.c", "%s/oracle%s.o" % (self.tmp, tag)
        objs.append(o)
        jobs.append(lambda s=s, o=o: self.compile(o, [cc, "-O2", "-ffp-contract=off", "-c", s], [s]))
        self.parallel(jobs)
        return objs

    def sleef_objs(self, exts, opt=("-O2",), tag="", api=True):
        """api_*.cpp and sleef objects -> dict ext -> list of objects (full chain)."""
        jobs, by = [], {}
        common = []
        for n in ("rempitab", "sleefsp", "sleefdp"):
            s, o = "%s/%s.c" % (self.nsrc, n), "%s/%s%s.o" % (self.tmp, n, tag)
            common.append(o)
            jobs.append(lambda s=s, o=o: self.compile(
                o, ["gcc", "-fPIC", *opt, "-I" + self.nsrc, "-DNDEBUG", "-DDORENAME=1", "-c", s], [s]))
        need = []
        for e in exts:
            for c in CHAIN[e]:
                if c not in need:
                    need.append(c)
        for e in need:
            by[e] = []
            s, o = "%s/api_%s.cpp" % (self.nsrc, e), "%s/api_%s%s.o" % (self.tmp, e, tag)
            if api:
                by[e].append(o)
                jobs.append(lambda s=s, o=o, e=e: self.compile(
                    o, ["g++", "-std=c++98", "-fPIC", *opt, "-DNDEBUG", "-Wno-psabi", "-I" + self.inc, *EXT_FLAGS[e], "-c", s], [s]))
            if e in SLEEF_FLAGS:
                m = [f for f in EXT_FLAGS[e] if f.startswith("-m")]
                for n in ("sleefsimdsp", "sleefsimddp"):
                    s, o = "%s/%s.c" % (self.nsrc, n), "%s/%s_%s%s.o" % (self.tmp, n, e, tag)
                    by[e].append(o)
                    jobs.append(lambda s=s, o=o, e=e, m=m: self.compile(
                        o, ["gcc", "-fPIC", *opt, "-I" + self.nsrc, "-DNDEBUG", "-DDORENAME=1", *SLEEF_FLAGS[e], *m, "-c", s], [s]))
        self.parallel(jobs)
        return {e: common + [o for c in CHAIN[e] for o in by[c]] for e in exts}

    def build(self, src, ext, objs, std="c++11", opt=("-O1",), cxx="g++", extra=(), tag="", libs=("-lm",)):
        out = "%s/%s.%s%s" % (self.tmp, os.path.basename(src).split(".")[0], ext, tag)
        s = os.path.join(SRC, src)
        obj = out + ".o"
        unit = "%s@%s%s" % (os.path.basename(src), ext, tag)
        if not self.compile_h(unit, obj, [cxx, "-std=" + std, *opt, "-w", "-I" + self.inc, "-I" + SRC, *[x for x in EXT_FLAGS[ext] if "clang" not in cxx or "-avx256-" not in x], *extra, "-c", s], [s]):
            return None
        objs = [o for o in objs if os.path.exists(o)]
        if not self.link_h(unit, [cxx, *[x for x in opt if x.startswith("-fsanitize")], obj, *objs, *libs, "-o", out]):
            return None
        return out

    # ---- running ---------------------------------------------------------
    def run(self, exe, unit, args=(), timeout=400, env=None, hang_is_violation=True, wrap=()):
        cmd = [*wrap, exe, "seed=%d" % self.seed, "tier=" + self.tier, *args]
        if self.tier == "thorough":
            timeout *= 8
        e = dict(os.environ)
        e.update({"ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=1:allocator_may_return_null=1:handle_segv=1",
                  "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
                  "TSAN_OPTIONS": "halt_on_error=0:exitcode=77:report_signal_unsafe=0"})
        e.update(env or {})
        for attempt in (0, 1):
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                                   timeout=timeout, env=e, cwd=self.tmp)
                break
            except subprocess.TimeoutExpired as te:
                last = (te.stdout or b"")
                if attempt == 1:
                    if hang_is_violation:
                        self.add_viol("hang/" + unit, 1, "no progress: run exceeded %d s twice" % timeout, unit)
                        self.units.append({"unit": unit, "end": "hang"})
                        return None
                    raise HarnessError("%s: timed out twice" % unit)
        return self.fold(r, unit)

    def fold(self, r, unit):
        summ = None
        for line in r.stdout.splitlines():
            if not line.startswith('{"t"'):
                continue
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d["t"] == "viol":
                self.add_viol(d["key"], d["n"], d["detail"], unit)
            elif d["t"] == "sum":
                summ = d
        san = re.search(r"(SUMMARY: \w+Sanitizer: .*|runtime error: .*|WARNING: ThreadSanitizer: .*)", r.stderr)
        if san:
            loc = re.sub(r"0x[0-9a-f]+", "0x", san.group(1))
            loc = re.sub(r"\(.*?\)", "", loc)[:160]
            self.add_viol("sanitizer/%s/%s" % (unit, re.sub(r"[^A-Za-z0-9_.:/-]+", "_", re.sub(r"/tmp/\S*/", "", loc))[:120]),
                          1, r.stderr[-3000:], unit)
        elif summ is None:
            if r.returncode < 0:
                self.add_viol("crash/sig%d/%s" % (-r.returncode, unit), 1, "process died: " + r.stderr[-1500:], unit)
            else:
                raise HarnessError("%s: no summary (exit %s): %s %s" % (unit, r.returncode, r.stdout[-800:], r.stderr[-1500:]))
        if summ:
            self.evals += summ["evals"]
            self.distinct += summ["distinct"]
            for k, v in summ["counters"].items():
                self.counters[k] = self.counters.get(k, 0) + v
            for s in summ["samples"][:3]:
                if len(self.samples) < 24:
                    self.samples.append(s)
            self.units.append({"unit": unit, "end": summ["end"], "evals": summ["evals"]})
            if summ["end"] == "ok" and summ["evals"] == 0:
                raise HarnessError(unit + ": the monitors observed nothing")
        return summ

    def add_viol(self, key, n, detail, unit):
        if key in self.viol:
            n += self.viol[key][0]
            detail = self.viol[key][1]
        self.viol[key] = (n, detail, unit)

    # ---- verdict ---------------------------------------------------------
    def findings(self):
        out = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            with open(p) as f:
                for line in f:
                    m = re.match(r"known: property=(\S+) key=(\S+) :: (.*)", line)
                    if m and m.group(1) == self.prop:
                        out.append((re.compile(m.group(2)), m.group(3).strip()))
        return out

    def finish(self, level="exploration"):
        fresh, known = {}, {}
        fs = self.findings()
        for k, v in sorted(self.viol.items()):
            for rx, what in fs:
                if rx.fullmatch(k):
                    known.setdefault(what, []).append(k)
                    break
            else:
                fresh[k] = v
        cov = {"evaluations": self.evals, "distinct_nontrivial": self.distinct, "rule": self.rule,
               "samples": self.samples or ["(none)"], "counters": self.counters, "units": self.units,
               "known_findings_observed": {w: len(k) for w, k in known.items()}}
        if self.skipped:
            cov["skipped"] = self.skipped
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for w, ks in known.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        if self.evals == 0 and not fresh:
            raise HarnessError("nothing was observed")
        if fresh:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s-seed%d-%s.json" % (self.prop, self.seed, self.tier))
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                           "replay": "cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (self.seed, self.tier, self.prop),
                           "violations": [{"key": k, "count": v[0], "detail": v[1], "unit": v[2]} for k, v in fresh.items()]},
                          f, indent=1)
            for k, v in list(fresh.items())[:15]:
                print("  violated: %s (x%d): %s" % (k, v[0], v[1][:400].replace("\n", " ")))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs" % (
            self.prop, self.tier, self.evals, self.distinct, time.time() - self.t0))
        return 0

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
