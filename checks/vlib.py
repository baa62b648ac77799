"""Common machinery of all checks: build the harness from /repo's working tree, explore schedules
of programs on the real code, validate the recorded traces with TLC, model check specifications,
write evidence, report violations."""
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PC_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(2, min(8, os.cpu_count() or 4))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class CheckError(Exception):
    """The check itself could not run (exit status 2): never reported as a violation."""


class BuildBroken(CheckError):
    pass


class Check:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="pcv_%s_" % prop)
        self.violations = []
        self.cov = {
            "states": 0, "transitions": 0, "traces_validated_against_impl": 0,
            "programs": 0, "schedules_executed": 0, "scheduling_steps": 0,
            "programs_exhausted_within_preemption_bound": 0,
            "trace_events_validated": 0, "trace_validation_states": 0,
            "model_checking_runs": [], "samples": [],
        }
        self.assumptions = []
        self.bins = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ------------------------------------------------------------------ build
    def build(self, name, sources, std="gnu++17", opt="-O1", defs=()):
        """Builds a harness binary: instrumented sources + library + uninstrumented runtime."""
        key = (name, std, tuple(defs))
        if key in self.bins:
            return self.bins[key]
        out = os.path.join(self.work, "%s_%s%s" % (name, std.replace("+", "p"), "".join(defs).replace("-D", "_")))
        os.makedirs(out, exist_ok=True)
        inst = ["-fsanitize=thread", "-std=" + std, opt, "-g0", "-w", "-I" + REPO, "-I" + HARN]
        inst += ["-fno-omit-frame-pointer"] if False else []
        jobs = []
        for s in sources:
            extra = []
            src = s
            oname = os.path.basename(s)
            if isinstance(s, tuple):
                src, extra, oname = s[0], list(s[1]), s[2]
            jobs.append((inst + list(defs) + extra, os.path.join(HARN, src), os.path.join(out, oname + ".o")))
        libs = sorted(glob.glob(os.path.join(REPO, "portable_concurrency/**/*.cpp"), recursive=True))
        for k, src in enumerate(libs):
            jobs.append((inst + list(defs), src, os.path.join(out, "pclib%d.o" % k)))
        plain = ["-std=gnu++17", "-O2", "-g0", "-w"]
        jobs.append((plain, os.path.join(HARN, "pcrt.cpp"), os.path.join(out, "pcrt.o")))
        jobs.append((["-std=gnu++17", "-O1", "-g0", "-w"], os.path.join(HARN, "main.cpp"), os.path.join(out, "main.o")))

        def cc(j):
            r = subprocess.run(["g++"] + j[0] + ["-c", j[1], "-o", j[2]], capture_output=True, text=True)
            return r.returncode, j[1], r.stderr

        with ThreadPoolExecutor(NPROC) as ex:
            for rc, src, err in ex.map(cc, jobs):
                if rc:
                    raise BuildBroken("compiling %s failed:\n%s" % (src, err[:3000]))
        binp = os.path.join(out, "h")
        r = subprocess.run(["g++", "-rdynamic"] + [j[2] for j in jobs] + ["-o", binp, "-ldl"],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildBroken("link failed:\n" + r.stderr[:3000])
        self.bins[key] = binp
        return binp

    # ------------------------------------------------------------------ exploration
    def explore(self, binp, programs, **opts):
        """Runs all programs (split over processes). Returns one result per program."""
        n = max(1, min(NPROC, len(programs)))
        chunks = [list(range(i, len(programs), n)) for i in range(n)]
        opts.setdefault("seed", SEED)
        args = ["%s=%d" % (k, int(v)) for k, v in opts.items()]
        res = [None] * len(programs)
        limit = 300 if not self.thorough else 3000

        def run(ci):
            idxs = chunks[ci]
            done = 0
            while done < len(idxs):
                pf = os.path.join(self.work, "p%d_%d.ndjson" % (ci, done))
                of = os.path.join(self.work, "o%d_%d.ndjson" % (ci, done))
                with open(pf, "w") as f:
                    for i in idxs[done:]:
                        f.write(json.dumps(programs[i]) + "\n")
                try:
                    r = subprocess.run([binp, pf, of] + args, capture_output=True, text=True, timeout=limit)
                    rc = r.returncode
                    err = r.stderr
                except subprocess.TimeoutExpired:
                    rc, err = "timeout", ""
                got = 0
                if os.path.exists(of):
                    for line in open(of, errors="replace"):
                        try:
                            o = json.loads(line)
                        except ValueError:
                            break
                        res[idxs[done + got]] = o
                        got += 1
                if rc == 0 and got == len(idxs) - done:
                    return
                if rc == 9:
                    raise CheckError("harness error: %s" % err[-2000:])
                # the process died (crash, hang) while running the next program
                k = idxs[done + got]
                res[k] = {"runs": 1, "steps": 0, "exh": 0, "bad": 1, "traces": [
                    {"n": 1, "bad": 1, "sched": [], "ev": [{"k": "bad", "t": 0, "what": "process-died",
                                                            "detail": "rc=%s" % rc}]}]}
                done += got + 1

        with ThreadPoolExecutor(n) as ex:
            list(ex.map(run, range(n)))
        for r in res:
            self.cov["programs"] += 1
            self.cov["schedules_executed"] += r["runs"]
            self.cov["scheduling_steps"] += r["steps"]
            self.cov["programs_exhausted_within_preemption_bound"] += 1 if r["exh"] else 0
        return res

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, heap="1g", timeout=600, extra=(), quick_jit=True):
        md = tempfile.mkdtemp(prefix="tlc_", dir=self.work)
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"]
        if quick_jit:
            cmd += ["-XX:TieredStopAtLevel=1"]
        cmd += ["-cp", TLA_CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", md, "-workers", str(workers),
                "-config", cfg, *extra, module]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timeout on %s" % module)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return r

    @staticmethod
    def tlc_counts(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if not m:
            return 0, 0
        return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))

    def model_check(self, module, cfg, what, timeout=600, env=None, workers=None, heap="4g"):
        """Exhaustive TLC run of a specification: its own properties must hold."""
        r = self.tlc(module, cfg, env=env, workers=workers or NPROC, heap=heap, timeout=timeout, quick_jit=False)
        if "Model checking completed. No error has been found" not in r.stdout:
            raise CheckError("model checking %s/%s failed:\n%s" % (module, cfg, (r.stdout + r.stderr)[-3500:]))
        gen, dist = self.tlc_counts(r.stdout)
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["model_checking_runs"].append({"what": what, "config": cfg, "distinct_states": dist,
                                                "states_generated": gen})
        return r

    def validate(self, module, cfg, traces, timeout=800, env=None):
        """traces: list of records with field id and ev. Returns the set of rejected ids."""
        if not traces:
            return set()
        nev = sum(len(t["ev"]) for t in traces)
        self.cov["trace_events_validated"] += nev
        n = max(1, min(NPROC, len(traces) // 20 + 1))
        order = sorted(traces, key=lambda t: -len(t["ev"]))
        chunks = [order[i::n] for i in range(n)]

        def run(chunk):
            tf = os.path.join(self.work, "tr_%d.ndjson" % random.getrandbits(60))
            with open(tf, "w") as f:
                for t in chunk:
                    f.write(json.dumps(t) + "\n")
            r = self.tlc(module, cfg, env=dict(env or {}, TRACES=tf), timeout=timeout, heap="2500m")
            os.unlink(tf)
            if "Model checking completed. No error has been found" not in r.stdout:
                return None, r
            return {int(x) for x in re.findall(r'<<"ACC", (\d+)>>', r.stdout)}, r

        rejected = set()
        failed = []

        def collect(chs):
            bad = []
            with ThreadPoolExecutor(n) as ex:
                for chunk, (acc, r) in zip(chs, ex.map(run, chs)):
                    if acc is None:
                        bad.append(chunk)
                        failed.append(r)
                        continue
                    gen, dist = self.tlc_counts(r.stdout)
                    self.cov["trace_validation_states"] += dist
                    self.cov["states"] += dist
                    self.cov["transitions"] += gen
                    rejected.update({t["id"] for t in chunk} - acc)
            return bad

        # a trace on which the specification cannot even be evaluated is isolated and rejected
        bad = collect(chunks)
        deadline = time.time() + 120
        while bad:
            single = [b for b in bad if len(b) == 1]
            rejected.update(b[0]["id"] for b in single)
            bad = [b for b in bad if len(b) > 1]
            if bad and (time.time() > deadline or len(rejected) > 10) and rejected:
                break
            if not bad:
                break
            bad = collect([h for b in bad for h in (b[:len(b) // 2], b[len(b) // 2:])])
        if failed and len(rejected) == len(traces) and len(traces) > 5:
            raise CheckError("trace validation %s failed to run:\n%s" % (module, (failed[0].stdout + failed[0].stderr)[-3500:]))
        self.cov["traces_validated_against_impl"] += len(traces) - len(rejected)
        return rejected

    def diagnose(self, module, cfg, trace, env=None):
        """Longest matched prefix of one rejected trace."""
        tf = os.path.join(self.work, "diag.ndjson")
        with open(tf, "w") as f:
            f.write(json.dumps(trace) + "\n")
        cf = os.path.join(self.work, "diag.cfg")
        with open(os.path.join(SPEC, cfg)) as f:
            c = f.read()
        c = c.replace("CONSTRAINT Report", "CONSTRAINTS Report Progress")
        with open(cf, "w") as f:
            f.write(c)
        r = self.tlc(module, cf, env=dict(env or {}, TRACES=tf), heap="3g")
        at = [int(x) for x in re.findall(r'<<"AT", \d+, (\d+)>>', r.stdout)]
        return (max(at) if at else 0), bool(re.search(r'<<"ACC", ', r.stdout)), r.stdout

    # ------------------------------------------------------------------ the usual pipeline
    def conformance(self, binp, module, cfg, programs, header=lambda p, pi: {}, keep_bad=True, limit_traces=None,
                    env=None, **opts):
        """explore programs on the real code and validate every distinct trace."""
        results = self.explore(binp, programs, **opts)
        traces, meta = [], {}
        nid = 0
        skipped = 0
        rnd = random.Random(SEED)
        for pi, r in enumerate(results):
            ts = r["traces"]
            lim = programs[pi].get("limit", limit_traces)
            if lim and len(ts) > lim:
                n0 = len(ts)
                ts = sample_traces(ts, lim, rnd)
                skipped += n0 - len(ts)
            for t in ts:
                nid += 1
                rec = {"id": nid, "ev": t["ev"]}
                rec.update(header(programs[pi], pi))
                traces.append(rec)
                meta[nid] = (pi, t)
        self.cov["distinct_traces_not_validated"] = self.cov.get("distinct_traces_not_validated", 0) + skipped
        rejected = self.validate(module, cfg, traces, env=env)
        if traces and len(self.cov["samples"]) < 4:
            s = traces[len(traces) // 2]
            pi, t = meta[s["id"]]
            self.cov["samples"].append({"program": programs[pi], "trace": t["ev"], "accepted": s["id"] not in rejected,
                                        "schedules_with_this_trace": t["n"]})
        if rejected:
            # The runtime is deterministic, so a rejected trace is a schedule of the real code. It is
            # validated once more on its own; a dead or hanging process has to repeat.
            byprog = {}
            for i in sorted(rejected):
                byprog.setdefault(meta[i][0], []).append(i)
            for pi, ids in list(byprog.items())[:6]:
                for i in ids[:2]:
                    tr = meta[i][1]
                    if any(e.get("what") == "process-died" for e in tr["ev"]):
                        again = self.explore(binp, [programs[pi]], **opts)[0]
                        if not any(e.get("what") == "process-died" for t in again["traces"] for e in t["ev"]):
                            continue
                    rec = {"id": 1, "ev": tr["ev"]}
                    rec.update(header(programs[pi], pi))
                    at, acc, _ = self.diagnose(module, cfg, rec, env=env)
                    if acc:
                        continue
                    self.violation({"program": programs[pi], "spec": module, "harness_options": opts,
                                    "schedule": tr["sched"], "trace": tr["ev"],
                                    "first_unexplained_event": at,
                                    "event": tr["ev"][at - 1] if 0 < at <= len(tr["ev"]) else None})
                    break
            if rejected and not self.violations:
                raise CheckError("rejected traces did not repeat: %s" % sorted(rejected)[:10])
        return results

    def violation(self, info):
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        h = hashlib.sha1(json.dumps(info, sort_keys=True).encode()).hexdigest()[:10]
        p = os.path.join("replay", "%s_%s.json" % (self.prop, h))
        info = dict(info)
        info["property"] = self.prop
        with open(os.path.join(VERIF, p), "w") as f:
            json.dump(info, f, indent=1)
        self.violations.append(p)
        print("VIOLATION property=%s replay=%s" % (self.prop, p))
        ev = info.get("event")
        if ev:
            print("  unexplained event %s of %d: %s" % (info.get("first_unexplained_event"), len(info["trace"]), ev))
        sys.stdout.flush()

    def finish(self):
        c = self.cov
        if not c["samples"]:
            c["samples"] = ["no conformance run"]
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": "model_checking",
              "coverage": c, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", "%s.json" % self.prop), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        print("%s %s: %d programs, %d schedules, %d distinct traces validated, %d spec states, %.1fs, %d violations" % (
            self.prop, self.tier, c["programs"], c["schedules_executed"], c["traces_validated_against_impl"],
            c["states"], time.time() - self.t0, len(self.violations)))
        return 1 if self.violations else 0


def sample_traces(ts, lim, rnd):
    """Keeps every trace the runtime marked bad and spreads the rest over the different per thread
    behaviours (traces which differ only in the order of events of different threads are similar)."""
    bad = [t for t in ts if t["bad"]][:20]
    groups = {}
    for t in ts:
        if not t["bad"]:
            proj = {}
            for e in t["ev"]:
                proj.setdefault(e.get("t", -1), []).append(json.dumps(e))
            groups.setdefault(json.dumps(sorted(proj.items())), []).append(t)
    gl = list(groups.values())
    for g in gl:
        rnd.shuffle(g)
    rnd.shuffle(gl)
    out = []
    while len(out) < lim and gl:
        for g in gl:
            out.append(g.pop())
            if len(out) >= lim:
                break
        gl = [g for g in gl if g]
    return bad + out


def main(prop, fn):
    tier = "thorough" if (os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv) else "quick"
    c = Check(prop, tier)
    try:
        fn(c)
        rc = c.finish()
    except CheckError as e:
        if c.violations:
            rc = c.finish()
        else:
            print("CHECK-ERROR %s: %s" % (prop, e))
            shutil.rmtree(c.work, ignore_errors=True)
            rc = 2
    sys.exit(rc)
