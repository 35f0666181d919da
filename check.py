#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property: compiles the harness with /repo's current sources to LLVM IR, executes the
property's entry points symbolically (symx, with cvc5/z3 as the deciding solvers), replays every
counterexample, and a sample of the explored paths, against the natively compiled code, and
writes /verif/evidence/PROPERTY.json.

exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: the check itself failed.
"""
import json, os, sys, subprocess, time, threading, queue, signal, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from table import CHECKS

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 4)


def known_findings(prop):
    """lines 'known: property=<id> entry=<entry> match=<substring> | <what fails>'"""
    out = []
    p = os.path.join(VERIF, "known", "FINDINGS.txt")
    for line in open(p) if os.path.exists(p) else []:
        line = line.strip()
        if not line.startswith("known: property=%s " % prop):
            continue
        head, what = line.split(" | ", 1)
        kv = dict(x.split("=", 1) for x in head[len("known: "):].split(" ", 2))
        out.append({"entry": kv["entry"], "match": kv["match"].strip(), "what": what})
    return out


def native_run(binary, entry, inputs, workdir):
    fd, path = tempfile.mkstemp(dir=workdir, suffix=".in")
    with os.fdopen(fd, "w") as f:
        f.write("".join("%d %d %s\n" % (i, o, h) for i, o, h in inputs))
    try:
        r = subprocess.run([binary, entry, path], capture_output=True, timeout=60, cwd=workdir,
                           preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return {"rc": "timeout", "obs": [], "msg": "did not finish in 60 s", "file": path}
    txt = r.stdout.decode("latin1").splitlines()
    obs = [l.split()[1:] for l in txt if l.startswith("OBS ")]
    msg = [l for l in txt if not l.startswith(("OBS ", "COVER "))]
    err = r.stderr.decode("latin1").strip().splitlines()
    return {"rc": r.returncode, "obs": obs, "msg": (msg or err or [""])[-1][:300], "file": path}


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def failed(rc):
    """a native replay's exit status that shows the failure: assertion, panic, crash or hang"""
    return rc in (101, 102, "timeout") or (isinstance(rc, int) and (rc < 0 or rc >= 128))


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.check = CHECKS[prop]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="laz-check-")
        self.replays = os.path.join(EVID, "replay", prop)
        os.makedirs(self.replays, exist_ok=True)
        self.procs, self.lock, self.stop = set(), threading.Lock(), False
        self.res, self.notes, self.violation = {}, [], None
        self.known = known_findings(prop)
        self.known_hit, self.unconfirmed = [], []
        self.validated, self.mismatch = 0, []
        self.builds = {}

    # ---- builds -------------------------------------------------------------------------
    def build_all(self, variants):
        jobs = {("engine",): build.engine}
        crates = set()
        for v in variants:
            jobs[("ir", v)] = lambda v=v: build.ir(v)
            crates.add(build.VARIANTS[v][0])
            if v != build.real_of(v):
                jobs[("native", v, "dev")] = lambda v=v: build.native(v, "dev")
        for v in {build.real_of(v) for v in variants}:
            for p in ("dev", "plain"):
                jobs[("native", v, p)] = lambda v=v, p=p: build.native(v, p)
        with ThreadPoolExecutor(JOBS) as ex:
            fut = {k: ex.submit(f) for k, f in jobs.items()}
            for k, f in fut.items():
                try:
                    self.builds[k] = f.result()
                except build.BuildError as e:
                    self.builds[k] = None
                    self.notes.append("build failed: %s: %s" % (" ".join(k), str(e)[-1500:]))

    # ---- one entry ----------------------------------------------------------------------
    def entry(self, e):
        if self.stop:
            return
        ll = self.builds.get(("ir", e.variant))
        out = os.path.join(self.scratch, "%s-%s.json" % (e.variant, e.name))
        timeout = e.timeout[0 if self.tier == "quick" else 1]
        cmd = [self.builds[("engine",)], ll, e.name, "--out", out, "--timeout", str(timeout),
               "--query-timeout", str(e.query_timeout), "--samples", str(e.samples)] + list(e.args)
        log = open(out + ".log", "w")
        p = subprocess.Popen(cmd, stdout=log, stderr=log, start_new_session=True)
        with self.lock:
            self.procs.add(p)
        try:
            rc = p.wait(timeout + 120)
        except subprocess.TimeoutExpired:
            kill(p)
            rc = "timeout"
        with self.lock:
            self.procs.discard(p)
        if self.stop:
            return
        r = None
        if os.path.exists(out):
            try:
                r = json.load(open(out))
            except ValueError:
                pass
        if r is None:
            tail = open(out + ".log").read()[-600:]
            r = {"status": "error", "incomplete": ["engine rc %s: %s" % (rc, tail)], "violations": [],
                 "samples": []}
        r["variant"] = e.variant
        with self.lock:
            self.res[e.name + "@" + e.variant] = r
        real = build.real_of(e.variant)
        for v in r["violations"]:
            self.confirm(e, r, v, real)
            if self.stop:
                return
        for s in r.get("samples", []):
            self.validate(e, s, real)

    def natives(self, e, real):
        l = [(v, p, self.builds.get(("native", v, p)))
             for v, p in ((real, "dev"), (real, "plain"), (e.variant, "dev"))]
        return [x for x in l if x[2]]

    def confirm(self, e, r, v, real):
        """replays a counterexample on the real code, then (protocol breaches) on the ghost build"""
        order = [x for x in self.natives(e, real)]
        if not e.ghost_counts:
            order = [x for x in order if x[0] == real]
        if e.real_replay is False:
            order = [x for x in order if x[0] != real]
        seen = []
        for var, prof, binary in order:
            n = native_run(binary, e.name, v["inputs"], self.scratch)
            seen.append("%s/%s: rc=%s %s" % (var, prof, n["rc"], n["msg"]))
            if failed(n["rc"]):
                what = "%s: %s; replay %s/%s: %s" % (e.name, v["msg"], var, prof, n["msg"])
                for k in self.known:
                    if k["entry"] in (e.name, "*") and k["match"] in what + n["msg"]:
                        with self.lock:
                            if k not in self.known_hit:
                                self.known_hit.append(k)
                        return
                with self.lock:
                    if self.violation:
                        return
                    dst = os.path.join(self.replays, "%s.txt" % e.name)
                    shutil.copy(n["file"], dst)
                    with open(dst + ".info", "w") as f:
                        f.write("%s\nreplay: build.py native:%s:%s, then BINARY %s %s\nstack:\n%s\n" % (
                            what, var, prof, e.name, dst, "\n".join(v.get("stack", []))))
                    self.violation = (what, dst)
                    self.stop = True
                    for p in self.procs:
                        kill(p)
                return
        with self.lock:
            self.unconfirmed.append("%s: %s; %s" % (e.name, v["msg"], "; ".join(seen)))

    def validate(self, e, s, real):
        """the explored path, run natively: same observations?"""
        for var, prof, binary in self.natives(e, real):
            if (e.real_replay is False) == (var == real):
                continue
            if e.real_replay is not False and var != real:
                continue
            n = native_run(binary, e.name, s["inputs"], self.scratch)
            want = [[str(i), h] for i, h in s["obs"]]
            got = [[x[0], x[1] if len(x) > 1 else ""] for x in n["obs"]]
            with self.lock:
                if n["rc"] == 0 and got == want:
                    self.validated += 1
                else:
                    self.mismatch.append({"entry": e.name, "build": "%s/%s" % (var, prof),
                                          "rc": n["rc"], "msg": n["msg"], "inputs": s["inputs"],
                                          "want": want, "got": got})
            if failed(n["rc"]):
                # the solver's own sample input fails natively: report it (e.g. through code that
                # the ghost coder stands for)
                self.confirm(e, {}, {"msg": "explored path fails natively", "inputs": s["inputs"]}, real)

    # ---- all ----------------------------------------------------------------------------
    def run(self):
        ents = [e for e in self.check.entries if self.tier in e.tiers]
        variants = sorted({e.variant for e in ents})
        self.build_all(variants)
        if self.builds[("engine",)] is None:
            return self.finish(2)
        runnable = [e for e in ents if self.builds.get(("ir", e.variant))]
        if len(runnable) < len(ents):
            # e.g. a change of the entropy coder's internal interface, which the stand-in lacks
            fb = [e for e in self.check.fallback]
            need = sorted({e.variant for e in fb} - set(variants))
            if need:
                self.build_all(need)
            names = {(e.name, e.variant) for e in runnable}
            runnable += [e for e in fb if self.builds.get(("ir", e.variant)) and (e.name, e.variant) not in names]
            if not runnable:
                return self.finish(2)
        runnable.sort(key=lambda e: -e.weight)
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(self.entry, runnable))
        return self.finish(None)

    def finish(self, rc):
        R = self.res
        tot = lambda k: sum(r.get(k) or 0 for r in R.values())
        incomplete = {n: (r["incomplete"] if isinstance(r.get("incomplete"), list) else [r.get("incomplete")])
                      for n, r in R.items() if r["status"] in ("inconclusive", "error")}
        vac = [n for n, r in R.items() if r["status"] == "ok" and not r.get("asserts")]
        funcs = sorted({f for r in R.values() for f in r.get("functions", []) if "laz" in f})
        samples = []
        for n, r in sorted(R.items()):
            for s in r.get("samples", [])[:1]:
                samples.append({"entry": n, "inputs": s["inputs"][:6], "observed": s["obs"][:4]})
        entries = {n: {k: r.get(k) for k in ("status", "paths", "pruned", "forks", "merges", "instructions",
                                             "queries", "ext_queries", "sat", "unsat", "unknown",
                                             "solver_s", "wall_s", "asserts")} for n, r in R.items()}
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": tot("paths"), "transitions": tot("instructions"),
                "traces_validated_against_impl": self.validated, "samples": samples[:8],
                "exhaustive": bool(R) and all(r["status"] == "ok" for r in R.values()),
                "explanation": self.check.explain,
                "bounds": [{"entry": e.name, "variant": e.variant, "bound": e.bound}
                           for e in self.check.entries if e.name + "@" + e.variant in R],
                "solver_queries": tot("queries"), "queries_to_external_solver": tot("ext_queries"),
                "unsat": tot("unsat"), "sat": tot("sat"), "unknown": tot("unknown"),
                "solver_s": round(tot("solver_s"), 3), "entries": entries,
                "functions_encoded": funcs, "incomplete": incomplete, "vacuous": vac,
                "unconfirmed_counterexamples": self.unconfirmed[:20],
                "validation_mismatches": self.mismatch[:20],
                "known_findings": [k["what"] for k in self.known_hit], "notes": self.notes,
            },
            "assumptions": self.check.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": 1 if self.violation else 0,
        }
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for n in self.notes:
            print("NOTE: " + n[-800:])
        for n, i in incomplete.items():
            print("INCOMPLETE: %s %s" % (n, str(i)[:300]))
        for u in self.unconfirmed[:5]:
            print("UNCONFIRMED: %s" % u[:400])
        for m in self.mismatch[:5]:
            print("MISMATCH: %s" % str(m)[:400])
        print("%s %s: %d entries, %d paths, %d instructions, %d queries (%d escalated), %d traces validated, %.1f s"
              % (self.prop, self.tier, len(R), tot("paths"), tot("instructions"), tot("queries"),
                 tot("ext_queries"), self.validated, time.time() - self.t0))
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.violation:
            print("violated: " + self.violation[0][:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violation[1]))
            return 1
        return rc if rc is not None else 0


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    os.makedirs(EVID, exist_ok=True)
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(Run(prop, tier).run())
