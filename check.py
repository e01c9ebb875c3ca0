#!/usr/bin/env python3
"""Decides one property: rebuilds everything from /repo's working tree, has the
verifier discharge the obligations of the property's harnesses, and looks for a
concrete failing input for whatever is not discharged."""
import json, os, re, subprocess, sys, tempfile, time, shutil, threading

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from props import PROPS, TRUSTED, ASSUMPTIONS  # noqa: E402

ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local")
PARTS = 6  # explorers at work


def build(tmp):
    """Builds the verifier, and the explorer against /repo."""
    for mod, cmd in (("gover", "gover"), ("spec", "search")):
        r = subprocess.run(["go", "build", "-o", os.path.join(tmp, cmd), "./cmd/" + cmd], cwd=os.path.join(V, mod), env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout)
            print("cannot build " + cmd)
            sys.exit(2)


class Job:
    """A process with its output in a file."""

    def __init__(self, args, out, limit):
        self.args, self.out, self.t0, self.limit = args, out, time.time(), limit
        self.f = open(out, "w")
        self.p = subprocess.Popen(args, stdout=self.f, stderr=subprocess.STDOUT, env=ENV, cwd=V)

    def wait(self):
        try:
            rc = self.p.wait(max(1, self.limit - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            rc = -9
        self.f.close()
        self.secs = time.time() - self.t0
        return rc

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        self.f.close()

    def text(self, n=4000):
        with open(self.out, errors="replace") as f:
            return f.read()[-n:]


def mine(prop, oid, total, also=()):
    """Tells whether an obligation belongs to the property."""
    if any(oid.startswith(a) for a in also):
        return True
    if oid == "invariant" or oid.endswith(".requires"):
        return True  # everything rests on these
    if oid.startswith("frame"):
        return total or prop == "C24"
    if re.match(r"C\d\d\.", oid):
        return oid.startswith(prop + ".")
    return total


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cfg = PROPS[prop]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        code = run(prop, cfg, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def run(prop, cfg, tier, seed, t0, tmp):
    build(tmp)
    os.makedirs(os.path.join(V, "evidence", "replay"), exist_ok=True)
    budget = 780 if tier == "quick" else 3 * 3600
    jobs = []
    parts = max(1, PARTS // max(1, sum(1 for h in cfg["harnesses"] if h.get("explore", True))))
    for h in cfg["harnesses"]:
        name, total = h["name"], h.get("total", False)
        js = os.path.join(tmp, name + ".json")
        hist = ["-history", h["history"]] if "history" in h else []
        if h.get("globals"):
            hist.append("-globals")
        g = None if h.get("verify", True) is False else Job([os.path.join(tmp, "gover"), "-dir", os.path.join(V, "spec"), "-h", name, "-t", "%ds" % (budget - 60), "-json", js] + hist,
                os.path.join(tmp, name + ".out"), budget)
        x = None
        if h.get("explore", True):
            want = [prop + "."] + (["panic", "no termination"] if total else [])
            secs = 30 if tier == "quick" else 600
            x = []
            for i in range(parts):
                case = os.path.join(tmp, "%s.case%d" % (name, i))
                j = Job([os.path.join(tmp, "search"), "-h", name, "-want", ",".join(want), "-t", "%ds" % secs, "-seed", str(seed), "-part", str(i), "-parts", str(parts), "-o", case],
                        os.path.join(tmp, "%s.search%d" % (name, i)), secs + 60)
                j.case = case
                x.append(j)
        jobs.append((h, name, total, g, js, x))
    obligations, discharged, failed, problems = 0, 0, [], []
    bycat, funcs, assumed, contracts = {}, set(), set(), set()
    cuts = paths = steps = 0
    secs = 0.0
    witness, cases = None, 0
    for h, name, total, g, js, x in jobs:
        if g is None:
            continue
        rc = g.wait()
        if rc != 0 or not os.path.exists(js):
            problems.append("harness %s: the verifier gave no answer (exit %s)\n%s" % (name, rc, g.text()))
            r = {"Obligations": {}, "Functions": [], "Assumed": [], "Contracts": [], "Unsupported": [], "Cuts": 0, "Paths": 0, "Steps": 0, "Seconds": g.secs}
        else:
            r = json.load(open(js))
        for u in r["Unsupported"] or []:
            problems.append("harness %s: %s" % (name, u))
        n = 0
        if "history" in h and rc == 0:
            # independent of history: no field is read before it is stored,
            # or else the functional contract holds in every reachable state
            ok = not r["History"] or (not r["Unsupported"] and all(o["Simpl"] + o["SMT"] == o["N"] for o in r["Obligations"].values()))
            r["Obligations"][prop + ".history"] = {"N": 1, "Simpl": int(ok), "SMT": 0, "Failures": r["History"]}
        for oid, o in sorted(r["Obligations"].items()):
            if not mine(prop, oid, total, h.get("also", ())):
                continue
            n += 1
            ok = o["Simpl"] + o["SMT"]
            obligations += o["N"]
            discharged += ok
            c = bycat.setdefault(oid, {"instances": 0, "discharged": 0})
            c["instances"] += o["N"]
            c["discharged"] += ok
            if ok < o["N"]:
                failed.append({"harness": name, "obligation": oid, "instances": o["N"], "discharged": ok, "details": o.get("Failures")})
        for want in h.get("expect", []):
            if not any(k.startswith(want) for k in r["Obligations"]) and rc == 0:
                problems.append("harness %s: no obligation %s was generated: the contract is vacuous" % (name, want))
        if n == 0 and rc == 0:
            problems.append("harness %s: no obligation of %s was generated: the contract is vacuous" % (name, prop))
        funcs |= {f for f in r["Functions"] if "verifspec" not in f}
        assumed |= set(r["Assumed"])
        contracts |= set(r["Contracts"])
        cuts += r["Cuts"]
        paths += r["Paths"]
        steps += r["Steps"]
        secs += r["Seconds"]
    for h, name, total, g, js, xs in jobs:
        for x in xs or []:
            rc = x.wait()
            m = re.search(r"^(\d+) cases", x.text(), re.M)
            if m:
                cases += int(m.group(1))
            if rc == 1 and os.path.exists(x.case):
                if witness is None:
                    witness = (name, json.load(open(x.case)))
            elif rc not in (0, -9) and not m:
                problems.append("harness %s: the explorer ended with %s\n%s" % (name, rc, x.text()))
    violation = bool(failed or problems or witness)
    known_lines = known(prop, tmp)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "proof"),
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "cd /verif && python3 check.py %s" % prop,
            "trusted_base": TRUSTED + ["assumed contract: " + a for a in sorted(assumed)],
            "back_end": "gover (symbolic execution with inferred inductive invariants; zone, byte-domain and term-rewriting decision procedures in /verif/gover/eng)",
            "obligations_by_name": bycat,
            "functions_under_contract": sorted(funcs),
            "contracts_of_repository_functions_relied_on": sorted(contracts),
            "invariants_at_cut_points": cuts, "paths": paths, "steps": steps, "solver_seconds": round(secs, 1),
            "concrete_cases_tried_for_witnesses": cases,
        },
        "assumptions": ASSUMPTIONS + cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if violation else 0,
    }
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for line in known_lines:
        print(line)
    print("%s: %d obligations, %d discharged, %d invariants, %d paths, %.0fs" % (prop, obligations, discharged, cuts, paths, time.time() - t0))
    if not violation:
        return 0
    replay = os.path.join(V, "evidence", "replay", prop + ".json")
    rep = {"property": prop, "failed_obligations": failed, "undecided": problems}
    for f in failed:
        print("failed obligation %s (%s): %d of %d instances discharged" % (f["obligation"], f["harness"], f["discharged"], f["instances"]))
    for p in problems:
        print("undecided: " + p.split("\n")[0])
    if witness:
        rep["failing_input"] = witness[1]
        rep["replay_cmd"] = "cd /verif/spec && GOFLAGS=-mod=mod GOPROXY=off go run ./cmd/search -replay " + replay
        rep.update(witness[1])
        print("failing input: %s" % witness[1].get("readable"))
        print("failed on it: %s" % witness[1].get("failed"))
    with open(replay, "w") as f:
        json.dump(rep, f, indent=1)
    print("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if witness else " no-failing-input-found"))
    return 1


def known(prop, tmp):
    """Replays the known findings of the property on the real code."""
    lines = []
    path = os.path.join(V, "known_findings.json")
    if not os.path.exists(path):
        return lines
    for k in json.load(open(path))["findings"]:
        if k["property"] != prop or k.get("fixed"):
            continue
        r = subprocess.run([os.path.join(tmp, "search"), "-finding", k["case"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, timeout=60)
        if r.returncode == 1:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        elif r.returncode != 0:
            print(r.stdout)
    return lines


main()
