"""Shared machinery of the checks: build drivers from /repo's working tree, record traces, run TLC, report."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4
T0 = time.time()


class ToolError(Exception):
    """Something in the machinery failed: neither held nor violated."""


class Violation(Exception):
    def __init__(self, msg, replay=None):
        super().__init__(msg)
        self.replay = replay


def sh(cmd, timeout=900, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return None, "timeout after %ss" % timeout


class Ctx:
    """One check run."""

    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.work = tempfile.mkdtemp(prefix="vp.%s." % prop, dir=os.environ.get("VP_WORK") or None)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.known = load_known()
        self.findings = {}
        self.classes = None

    # ---- building -----------------------------------------------------------------------------------------------
    def config(self):
        inc = os.path.join(self.work, "inc", "dcgp")
        if not os.path.isdir(inc):
            os.makedirs(inc)
            src = open(os.path.join(REPO, "config.hpp.in")).read()
            m = re.search(r"DCGP_PROJECT_VERSION ([0-9.]+)", open(os.path.join(REPO, "CMakeLists.txt")).read())
            v = m.group(1) if m else "0.0"
            parts = (v.split(".") + ["0", "0"])[:2]
            src = src.replace("@dcgp_VERSION@", v).replace("@dcgp_VERSION_MAJOR@", parts[0])
            src = src.replace("@dcgp_VERSION_MINOR@", parts[1])
            src = re.sub(r"@\w+@", "0", src)
            open(os.path.join(inc, "config.hpp"), "w").write(src)
        return os.path.dirname(inc)

    def s11n_units(self):
        """The registration of the wrapped functions for serialization takes long to compile: the lines of its header are
        spread over several translation units. Anything unexpected in the header: one unit that includes it."""
        src = os.path.join(REPO, "include", "dcgp", "wrapped_functions_s11n_implement.hpp")
        lines = [l.strip() for l in open(src)]
        reg = [l for l in lines if re.fullmatch(r"DCGP_S11N_FUNCTION_IMPLEMENT_(MULTI|STRING)\(\w+\)", l)]
        rest = [l for l in lines if l and l not in reg and not l.startswith("#") and not l.startswith("//")]
        d = os.path.join(self.work, "s11n")
        os.makedirs(d, exist_ok=True)
        n = 8 if not rest and reg else 1
        out = []
        for i in range(n):
            f = os.path.join(d, "s11n%d.cpp" % i)
            with open(f, "w") as o:
                if n == 1:
                    o.write("#include <dcgp/wrapped_functions_s11n_implement.hpp>\n")
                else:
                    o.write("#include <dcgp/wrapped_functions.hpp>\n" + "\n".join(reg[i::n]) + "\n")
            out.append(f)
        return out

    def compile(self, cmd, src, obj):
        """Compiles, or takes the object compiled earlier from the very same preprocessed text and flags."""
        cache = os.path.join(VERIF, "build", "objcache")
        rc, pre = sh(cmd + ["-E", src, "-o", obj + ".ii"], 300)
        if rc != 0:
            return rc, pre
        h = hashlib.sha256(" ".join(cmd[1:]).replace(self.work, "").encode())
        for line in open(obj + ".ii", "rb"):
            if not line.startswith(b"# "):
                h.update(line)
        os.remove(obj + ".ii")
        c = os.path.join(cache, h.hexdigest() + ".o")
        if os.path.exists(c):
            try:
                shutil.copy(c, obj)
                os.utime(c)
                return 0, ""
            except OSError:
                pass
        rc, out = sh(cmd + ["-c", src, "-o", obj], 600)
        if rc == 0:
            try:
                os.makedirs(cache, exist_ok=True)
                old = sorted((os.path.join(cache, x) for x in os.listdir(cache)), key=os.path.getmtime)
                for x in old[:-150]:
                    os.remove(x)
                tmp = c + ".%d" % os.getpid()
                shutil.copy(obj, tmp)
                os.replace(tmp, c)
            except OSError:
                pass
        return rc, out

    def build(self, name, sources, flags=(), libs=("-lboost_serialization", "-ltbb", "-lpthread"), pagmo=True, opt="-O1", s11n=False):
        inc = self.config()
        out = os.path.join(self.work, name)
        base = ["g++", "-std=c++17", "-w", "-D_GLIBCXX_ASSERTIONS", "-I" + os.path.join(REPO, "include"), "-I" + inc,
                "-I" + os.path.join(VERIF, "harness", "standin"), "-I" + os.path.join(VERIF, "harness"),
                "-I/usr/include/eigen3"] + list(flags)
        objs, jobs = [], []
        for s in (self.s11n_units() if s11n else []):
            jobs.append((base + ["-O0"], s))
        for s in sources:
            jobs.append((base + [opt], os.path.join(VERIF, "harness", s)))
        jobs = [(c, s, os.path.join(self.work, name + "." + os.path.basename(s) + ".o")) for c, s in jobs]
        objs = [j[2] for j in jobs]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for (rc, outp), j in zip(ex.map(lambda j: self.compile(*j), jobs), jobs):
                if rc != 0:
                    raise ToolError("cannot build %s: %s" % (j[1], outp[:6000]))
        rc, outp = sh(["g++"] + list(flags) + objs + ["-o", out] + (["-lpagmo"] if pagmo else []) + list(libs), 600)
        if rc != 0:
            raise ToolError("cannot link %s: %s" % (name, outp[:4000]))
        return out

    # ---- running the code -----------------------------------------------------------------------------------------
    def run_driver(self, exe, args, trace, timeout=240, env=None):
        """Runs a driver; returns None, or what went wrong (a crash or hang is confirmed by a second run)."""
        e = {"VP_TRACE": trace, "MALLOC_PERTURB_": "165", "TBB_ENABLE_SANITIZERS": "0"}
        e.update(env or {})
        last = None
        for attempt in range(2):
            if os.path.exists(trace):
                os.remove(trace)
            rc, out = sh([exe] + [str(a) for a in args], timeout, e)
            if rc == 0:
                return None
            if rc == 77:
                raise ToolError("driver: " + out[-2000:])
            last = "the code under test %s while running %s %s: %s" % (
                "did not return within %ss" % timeout if rc is None else "ended with status %s" % rc,
                os.path.basename(exe), " ".join(map(str, args)), out[-1500:])
        return last

    def jclasses(self):
        if self.classes is None:
            pre = os.path.join(VERIF, "build", "classes")
            src = sorted(glob.glob(os.path.join(VERIF, "java", "tlc2", "module", "*.java")))
            ok = os.path.isdir(pre) and all(
                os.path.exists(os.path.join(pre, "tlc2", "module", os.path.basename(s)[:-5] + ".class")) and
                os.path.getmtime(os.path.join(pre, "tlc2", "module", os.path.basename(s)[:-5] + ".class")) >= os.path.getmtime(s)
                for s in src)
            if not ok:
                pre = os.path.join(self.work, "classes")
                build_classes(pre)
            self.classes = pre
        return self.classes

    def tlc(self, module, cfg=None, env=None, workers=1, timeout=600, extra=(), heap="2g"):
        md = tempfile.mkdtemp(prefix="tlc.", dir=self.work)
        specs = os.path.join(VERIF, "specs")
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss512m", "-Xmx" + heap,
               "-XX:TieredStopAtLevel=4", "-cp", self.jclasses() + ":" + TLA, "tlc2.TLC", "-workers", str(workers), "-metadir", md,
               "-noGenerateSpecTE", "-config", cfg or module + ".cfg"] + list(extra) + [module + ".tla"]
        e = {"PROP": self.prop, "TIER": TIER, "LC_ALL": "C.UTF-8"}
        e.update({k: str(v) for k, v in (env or {}).items()})
        rc, out = sh(cmd, timeout, e, cwd=specs)
        shutil.rmtree(md, ignore_errors=True)
        return rc, out

    def count(self, out):
        m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
        if m:
            self.cov["transitions"] += int(m[-1][0].replace(",", ""))
            self.cov["states"] += int(m[-1][1].replace(",", ""))

    def model_check(self, module, cfg, expect="ok", workers=NCPU, timeout=600, env=None, extra=()):
        """Model checks a design configuration. expect: 'ok', or the name of an invariant/property that must fail
        (a deliberately broken variant: shows that the property can fail)."""
        rc, out = self.tlc(module, cfg, env=env, workers=workers, timeout=timeout, extra=extra, heap="6g")
        self.count(out)
        if expect == "ok":
            if rc != 0 or "No error has been found" not in out:
                raise ToolError("model checking %s/%s: rc=%s\n%s" % (module, cfg, rc, out[-1500:]))
        else:
            if expect not in out or "is violated" not in out and "was violated" not in out:
                raise ToolError("broken variant %s/%s was not refuted: rc=%s\n%s" % (module, cfg, rc, out[-1500:]))
        return out

    def validate(self, module, trace, cfg=None, env=None, timeout=600):
        """Trace validation. Returns (accepted, message)."""
        n = sum(1 for _ in open(trace))
        e = {"TRACE": trace}
        e.update(env or {})
        for attempt in range(2):
            rc, out = self.tlc(module, cfg, env=e, timeout=timeout, extra=["-deadlock"])
            if rc == 0 and "No error has been found" in out:
                self.count(out)
                m = re.search(r'"CONSUMED", (\d+)', out)
                return True, out
            if rc is None:
                raise ToolError("TLC timeout on %s" % trace)
            if "Parsing or semantic analysis failed" in out or "java.lang.OutOfMemory" in out or \
               "Could not find" in out or "TLC_BUG" in out:
                raise ToolError(out[-1500:])
        i = out.find('"REJECT"')
        short = re.sub(r"\s+", " ", out[i:i + 3000])[:1800] if i >= 0 else out[-2500:]
        return False, short

    def record_and_validate(self, exe, runs, module, cfg=None, env=None, timeout=240, tlc_timeout=600, keep=True):
        """runs: list of (name, args). Driver and TLC per run, in parallel."""
        def one(r):
            name, args = r
            tr = os.path.join(self.work, name + ".ndjson")
            bad = self.run_driver(exe, args, tr, timeout)
            if bad:
                return name, args, tr, False, bad
            ok, msg = self.validate(module, tr, cfg, env, tlc_timeout)
            return name, args, tr, ok, msg
        res = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for r in ex.map(one, runs):
                res.append(r)
        for name, args, tr, ok, msg in res:
            if not ok:
                raise Violation("%s: %s" % (name, msg), self.save_replay(tr, msg))
            lines = sum(1 for _ in open(tr))
            self.cov["traces_validated_against_impl"] += 1
            self.cov["events"] = self.cov.get("events", 0) + lines
            for f in re.findall(r'"FINDING", "([^"]+)"', msg):
                self.findings.setdefault(f, tr)
            for k, v in re.findall(r'"STAT", "([\w\- ]+)", (\d+)', msg):
                self.cov[k] = self.cov.get(k, 0) + int(v)
            if len(self.cov["samples"]) < 2:
                with open(tr) as f:
                    ls = f.read().splitlines()
                self.cov["samples"].append({"run": name, "args": [str(a) for a in args], "events": len(ls),
                                            "some": [l[:400] for l in ls[1:4]]})
        return res

    def save_replay(self, path, msg):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        dst = os.path.join(d, "%s.%s" % (self.prop, os.path.basename(path)))
        if os.path.exists(path):
            shutil.copy(path, dst)
        else:
            open(dst, "w").write("")
        open(dst + ".txt", "w").write(msg + "\n")
        return dst

    def finish(self, violations=0):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = {"property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2),
              "violations": violations}
        json.dump(ev, open(os.path.join(d, self.prop + ".json"), "w"), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)


def build_classes(dst):
    os.makedirs(dst, exist_ok=True)
    src = sorted(glob.glob(os.path.join(VERIF, "java", "tlc2", "module", "*.java")))
    rc, out = sh(["javac", "-cp", TLA, "-d", dst] + src, 300)
    if rc != 0:
        raise ToolError("javac: " + out)


def load_known():
    p = os.path.join(VERIF, "known_findings.jsonl")
    if not os.path.exists(p):
        return []
    return [json.loads(l) for l in open(p) if l.strip()]


def main(prop, level, fn):
    ctx = Ctx(prop, level)
    try:
        fn(ctx)
        listed = {k["id"]: k for k in ctx.known if k.get("property") == prop and k.get("status") == "known"}
        for f, tr in sorted(ctx.findings.items()):
            if f not in listed:
                raise Violation("unlisted finding: " + f, ctx.save_replay(tr, f))
            print("KNOWN-FINDING: property=%s %s" % (prop, listed[f]["what"]))
            ctx.cov["known_findings"] = ctx.cov.get("known_findings", 0) + 1
    except Violation as v:
        print("VIOLATION property=%s replay=%s" % (prop, v.replay or "none"))
        print(str(v)[:4000])
        ctx.cov["samples"].append({"violation": str(v)[:1000]})
        ctx.finish(1)
        return 1
    except ToolError as e:
        print("ERROR (machinery, not a verdict): %s" % e, file=sys.stderr)
        shutil.rmtree(ctx.work, ignore_errors=True)
        return 2
    ctx.finish(0)
    print("OK property=%s %s" % (prop, json.dumps({k: v for k, v in ctx.cov.items() if k != "samples"})))
    return 0
