#!/usr/bin/env python3
"""`check.py PROPERTY [quick|thorough]`: decides one property on /repo's current tree.

Builds the harness against /repo, extracts the LLVM IR of the code under test, hands the property's
jobs to the symbolic executor, replays every counterexample natively and reports.
"""
import json
import os
import re
import subprocess
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import props

VERIF = build.VERIF
REPLAYS = os.path.join(VERIF, "evidence", "replay")


def findings(prop):
    """Entries of KNOWN_FINDINGS.jsonl: {"property","entry","message","what"}."""
    p = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            if line.strip():
                f = json.loads(line)
                if f.get("status") == "known" and f["property"] == prop:
                    out.append(f)
    return out


def replay(native, entry, path, kind):
    """Runs the real code on a counterexample. True if it shows the failure."""
    cmd = [native, entry, path]
    if kind not in ("check", "panic"):
        # A memory error need not crash by itself; overwritten memory may show all the same.
        ok, out = replay(native, entry, path, "panic")
        if ok:
            return ok, out
        cmd = ["valgrind", "-q", "--error-exitcode=99"] + cmd
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=120, env=dict(os.environ, VH_PLAIN="1") if cmd[0] == "valgrind" else None)
    except subprocess.TimeoutExpired:
        return False, "timeout"
    out = r.stdout.strip()[-600:]
    if kind == "check":
        return r.returncode == 1 and "CHECK FAILED" in r.stdout, out
    if kind == "panic":
        return r.returncode in (-6, 134, 101) or (r.returncode == 1 and "CHECK FAILED" in r.stdout), out
    return r.returncode in (99, -6, -11, 134, 139) or re.search("Invalid (read|write) of|heap block", r.stdout) is not None or (r.returncode == 1 and "CHECK FAILED" in r.stdout), out


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.p = props.PROPS[prop]
        self.t0 = time.time()
        self.jobs = self.p["jobs"](tier)
        self.results, self.skipped, self.broken = [], [], []
        self.violation = None
        self.known = []
        self.unconfirmed = []

    def go(self):
        with build.Lock():
            self.engine = build.build_engine()
            self.ll = build.build_harness(self.p.get("harness", "harness"))
        self.native = None
        self.built = time.time() - self.t0
        os.makedirs(REPLAYS, exist_ok=True)
        limit = (self.p.get("limit", 240) if self.tier == "quick" else self.p.get("thorough_limit", 3000))
        jf = os.path.join(REPLAYS, f"{self.prop}.jobs")
        with open(jf, "w") as f:
            for i, (secs, entry, params) in enumerate(self.jobs):
                f.write(f"{i} {secs} {entry} {' '.join(map(str, params))}\n")
        e = dict(os.environ, SYMEX_DEADLINE=str(limit))
        workers = str(os.cpu_count() or 4)
        proc = subprocess.Popen([self.engine, self.ll, jf, workers], stdout=subprocess.PIPE,
                                stderr=subprocess.PIPE, text=True, env=e, start_new_session=True)
        err = []
        threading.Thread(target=lambda: err.extend(proc.stderr.readlines()), daemon=True).start()
        # A query may overrun its limit a little; nothing may hang.
        killer = threading.Timer(limit + 60, lambda: os.killpg(proc.pid, 9))
        killer.start()
        try:
            for line in proc.stdout:
                try:
                    r = json.loads(line)
                except ValueError:
                    self.broken.append(line[:200])
                    continue
                if r.get("skipped"):
                    self.skipped.append(r["id"])
                    continue
                if "error" in r:
                    self.broken.append(f"{r['id']}: {r['error']}")
                    continue
                self.results.append(r)
                for v in r["violations"]:
                    if self.confirm(r, v):
                        break
                if self.violation:
                    os.killpg(proc.pid, 9)
                    break
        finally:
            killer.cancel()
            proc.wait()
        for l in err[-3:]:
            sys.stderr.write(l)
        done = {int(r["id"]) for r in self.results} | {int(s) for s in self.skipped}
        if not self.violation:
            self.missing = [i for i in range(len(self.jobs)) if i not in done]
        else:
            self.missing = []

    def confirm(self, r, v):
        if not self.native:
            with build.Lock():
                self.native = build.build_native(self.p.get("harness", "harness"))
        n = len(self.unconfirmed) + len(self.known)
        path = os.path.join(REPLAYS, f"{self.prop}-{r['id']}-{n}.txt")
        with open(path, "w") as f:
            f.write(" ".join(map(str, r["params"])) + "\n" + v["input"] + "\n")
            f.write(f"# {r['entry']}: {v['kind']}: {v['msg']}\n# replay: {self.native} {r['entry']} {path}\n")
        ok, out = replay(self.native, r["entry"], path, v["kind"])
        if not ok:
            self.unconfirmed.append({"job": r["entry"], "params": r["params"], "message": v["msg"][:300],
                                     "replay": out[-200:], "input": v["input"][:400]})
            return False
        for f in findings(self.prop):
            if f["entry"] == r["entry"] and f["params"] == r["params"] and re.search(f["message"], v["msg"]):
                self.known.append(f)
                return False
        self.violation = (path, r["entry"], v, out)
        return True

    def validate(self):
        """Runs the real code on inputs the engine says take particular paths: what they reach natively has to be
        what the engine says, and every check has to hold."""
        self.validated, self.mismatch = 0, []
        if self.tier != "thorough" or self.violation:
            return
        with build.Lock():
            self.native = self.native or build.build_native(self.p.get("harness", "harness"))
        path = os.path.join(REPLAYS, f"{self.prop}-sample.txt")
        for r in self.results:
            for hexs, covers in r["samples"]:
                with open(path, "w") as f:
                    f.write(" ".join(map(str, r["params"])) + "\n" + hexs + "\n")
                try:
                    x = subprocess.run([self.native, r["entry"], path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                       text=True, errors="replace", timeout=60)
                except subprocess.TimeoutExpired:
                    continue
                got = set(re.findall(r"REPLAY: cover: (.*)", x.stdout))
                if x.returncode == 0 and got == set(covers):
                    self.validated += 1
                else:
                    self.mismatch.append({"job": r["entry"], "params": r["params"], "input": hexs[:600],
                                          "engine": covers, "native": sorted(got), "exit": x.returncode})
        os.path.exists(path) and os.remove(path)

    def evidence(self):
        q = {"sat": 0, "unsat": 0, "unknown": 0, "cached": 0, "second": 0}
        checks, covers, cuts, errors, fns = {}, {}, {}, {}, set()
        tot = {"paths": 0, "steps": 0, "forks": 0, "left": 0}
        st = mx = 0.0
        incomplete = []
        per = {}
        for r in self.results:
            for k in q:
                q[k] += r["queries"][k]
            st += r["solver_s"]
            mx = max(mx, r["solver_max_s"])
            for k in tot:
                tot[k] += r[k]
            for k, (a, b) in r["checks"].items():
                x = checks.setdefault(k, [0, 0])
                x[0] += a
                x[1] += b
            for d, s in ((covers, "covers"), (cuts, "cuts"), (errors, "errors")):
                for k, n in r[s].items():
                    d[k] = d.get(k, 0) + n
            fns.update(r["functions"])
            e = per.setdefault(r["entry"], {"jobs": 0, "complete": 0, "paths": 0})
            e["jobs"] += 1
            e["paths"] += r["paths"]
            if r["left"] or r["timeout"]:
                incomplete.append(f"{r['entry']} {r['params']}: {r['paths']} paths, {r['left']} branches left")
            else:
                e["complete"] += 1
        own = sorted(f for f in fns if "revmc" in f)
        samples = [{"job": f"{r['entry']} {r['params']}", "input": x[0][:300], "reaches": x[1]}
                   for r in self.results[:: max(1, len(self.results) // 4)] for x in r["samples"][-1:]][:5]
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
            "level": self.p["level"],
            "coverage": {
                "technique": "symbolic execution of the LLVM IR of /repo's code, every branch and assertion decided by Z3",
                "bounds": self.p["bounds"],
                "states": tot["paths"], "transitions": tot["forks"],
                "traces_validated_against_impl": self.validated + len(self.known) + (1 if self.violation else 0),
                "samples": samples,
                "engine_and_native_disagree": self.mismatch[:20],
                "jobs": {"total": len(self.jobs), "run": len(self.results), "skipped_for_time": len(self.skipped),
                         "incomplete": incomplete[:60], "per_entry": per},
                "functions_encoded": {"total": len(fns), "of_revmc": len(own), "revmc": own[:400]},
                "queries": q,
                "solver_s": round(st, 1),
                "solver_max_s": round(mx, 2),
                "assertions": {k: {"reached": v[0], "proved_by_solver_or_folding": v[1]} for k, v in checks.items()},
                "instructions": tot["steps"],
                "branches_left": tot["left"],
                "witnesses_reached": covers,
                "cut_at_bound": cuts,
                "undecided": errors,
                "not_reproduced_natively": self.unconfirmed,
                "known_findings": [f["what"] for f in self.known],
                "broken_jobs": self.broken + [f"no result from job {i}" for i in self.missing],
                "build_s": round(self.built, 1),
            },
            "assumptions": self.p["assumptions"],
            "violations": 1 if self.violation else 0,
            "wall_s": round(time.time() - self.t0, 1),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        return ev


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    r = Run(prop, tier)
    r.go()
    r.validate()
    ev = r.evidence()
    c = ev["coverage"]
    for f in {f["what"] for f in r.known}:
        print(f"KNOWN-FINDING: property={prop} {f}")
    print(f"{prop}: {c['jobs']['run']}/{c['jobs']['total']} jobs, {c['states']} paths, queries {c['queries']}, "
          f"solver {c['solver_s']} s, wall {ev['wall_s']} s (build {c['build_s']} s), "
          f"cut {c['cut_at_bound']}, undecided {c['undecided']}, left {c['branches_left']}, "
          f"incomplete {len(c['jobs']['incomplete'])}, skipped {c['jobs']['skipped_for_time']}, "
          f"unconfirmed {len(r.unconfirmed)}, validated {r.validated}, disagree {len(r.mismatch)}, broken {len(c['broken_jobs'])}")
    if r.violation:
        path, entry, v, out = r.violation
        print(f"counterexample: {entry}: {v['kind']}: {v['msg'][:300]}")
        print(f"native replay: {out}")
        print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    # The run says nothing if nothing was explored or the witnesses were not reached.
    vac = [w for w in r.p["witnesses"] if not c["witnesses_reached"].get(w)]
    if c["states"] == 0 or (vac and not c["jobs"]["skipped_for_time"]) or len(c["broken_jobs"]) > len(r.jobs) // 4:
        print(f"{prop}: no verdict: {c['states']} paths, missing witnesses {vac}, broken {c['broken_jobs'][:3]}")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
