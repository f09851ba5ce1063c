#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current tree.

1. engine (bin/eng, built from engine/): generates the verification conditions of every contract that carries the property
   from go/ssa of the current source and discharges them. This is the deciding step.
2. replay: the executable form of the property, run on the real code (go test -overlay): with the counterexample values of the
   failed obligations as hints, and in any case for a short time, which cross-checks the engine's trusted models (bounded,
   never counted as proved).
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "tools"))
import overlay as ov

PKG = {"C01": "primitives", "C02": "primitives", "C17": "memory"}
for i in range(3, 16):
    PKG["C%02d" % i] = "packets"
BUDGET = {"C10": 560}  # seconds for the engine, where more than 300
DEADLINE = 840  # seconds for the whole check

def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                             start_new_session=True)
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out or ""

def engine_binary():
    src = os.path.join(V, "engine")
    h = hashlib.sha256()
    for f in sorted(os.listdir(src)):
        h.update(f.encode())
        h.update(open(os.path.join(src, f), "rb").read())
    want = h.hexdigest()
    b = os.path.join(V, "bin")
    exe, stamp = os.path.join(b, "eng"), os.path.join(b, "eng.sha256")
    try:
        if os.path.exists(exe) and open(stamp).read() == want:
            return exe
    except OSError:
        pass
    os.makedirs(b, exist_ok=True)
    tmp = exe + ".%d" % os.getpid()
    rc, out = sh(["go", "build", "-o", tmp, "."], 600, {"GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOWORK": "off"}, src)
    if rc != 0:
        print("engine does not build:", out[-2000:])
        return None
    os.replace(tmp, exe)
    open(stamp, "w").write(want)
    return exe

def go_env():
    return {"GOFLAGS": "", "GOPROXY": "off", "GOWORK": "off"}

class Replay:
    """The executable property on the real code."""
    def __init__(self, prop, scratch):
        self.prop, self.scratch, self.bin, self.err = prop, scratch, None, ""
        self.race = prop == "C32"
        self.runs = []
        o = os.path.join(scratch, "overlay.json")
        json.dump(ov.overlay(), open(o, "w"))
        pkg = PKG.get(prop, "mqtt")
        self.dir = os.path.join(REPO, ov.DEST[pkg])
        exe = os.path.join(scratch, "replay.test")
        cmd = ["go", "test", "-c", "-vet=off", "-overlay", o, "-o", exe] + (["-race"] if self.race else []) + ["./" + ov.DEST[pkg]]
        rc, out = sh(cmd, 300, go_env(), REPO)
        if rc != 0 or not os.path.exists(exe):
            self.err = "the replay harness does not build: " + out[-1500:]
            return
        self.bin = exe

    def run(self, budget_ms, hints=None, seed=None, draws=None):
        """None: held; (message, record or None, output): failed."""
        if not self.bin:
            return None
        rec = os.path.join(self.scratch, "rec%d.json" % len(self.runs))
        env = {"VERIF_SEED": str(seed), "VERIF_BUDGET_MS": str(budget_ms), "VERIF_REPLAY_OUT": rec, "GOTRACEBACK": "all", "GORACE": "halt_on_error=1"}
        if hints:
            f = os.path.join(self.scratch, "hints.json")
            json.dump(hints, open(f, "w"))
            env["VERIF_HINTS"] = f
        if draws:
            env["VERIF_DRAWS"] = draws
        t0 = time.time()
        rc, out = sh([self.bin, "-test.run", "^TestVReplay%s$" % self.prop, "-test.count=1", "-test.timeout=%ds" % (budget_ms // 1000 + 120)],
                     budget_ms / 1000 + 150, env, self.scratch)
        m = re.search(r"REPLAY-OK \S+ cases=(\d+)", out)
        self.runs.append({"seed": seed, "budget_ms": budget_ms, "hints": bool(hints), "cases": int(m.group(1)) if m else 0,
                          "wall_s": round(time.time() - t0, 2), "failed": rc != 0})
        if rc == 0:
            return None
        record = None
        if os.path.exists(rec):
            try:
                record = json.load(open(rec))
            except ValueError:
                pass
        m = re.search(r"REPLAY-FAIL (.*)", out)
        if m:
            return m.group(1), record, out[-6000:]
        m = re.search(r"^(fatal error: .*|panic: .*|WARNING: DATA RACE)$", out, re.M)
        if m:
            return "the process died: " + m.group(1), record, out[:6000]
        if rc is None:
            return None  # out of time: no statement
        self.err = "the replay ended without a result: " + out[-800:]
        return None

    def run_many(self, budget_ms, seeds):
        """Several seeds at once; the first failure, by order of the seeds."""
        if not self.bin:
            return None
        subs = []
        for k, sd in enumerate(seeds):
            r = Replay.__new__(Replay)
            r.prop, r.bin, r.err, r.runs, r.race, r.dir = self.prop, self.bin, "", [], self.race, self.dir
            r.scratch = os.path.join(self.scratch, "par%d" % k)
            os.makedirs(r.scratch, exist_ok=True)
            subs.append((r, sd))
        with concurrent.futures.ThreadPoolExecutor(len(subs)) as ex:
            res = list(ex.map(lambda a: a[0].run(budget_ms, None, a[1]), subs))
        for r, _ in subs:
            self.runs += r.runs
            self.err = self.err or r.err
        for f in res:
            if f:
                return f
        return None

def known_findings(prop):
    out = []
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out

def hints_of(failed):
    h = {}
    for f in failed:
        for k, v in (f.get("model") or {}).items():
            try:
                n = int(v, 0)
            except (TypeError, ValueError):
                continue
            if n < 0:
                continue
            names = {k}
            m = re.fullmatch(r"len\((.*)\)", k)
            core = m.group(1) if m else k
            parts = re.split(r"[.]", core)
            for i in range(len(parts)):
                s = ".".join(parts[i:])
                names.add("len(%s)" % s if m else s)
            for s in names:
                h.setdefault(s, [])
                if n not in h[s]:
                    h[s].append(n)
    return h

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        rc = check(prop, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def check(prop, tier, seed, t0, scratch):
    thorough = tier == "thorough"
    man = {c["property"]: c for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]}
    level = man.get(prop, {}).get("level", "proof")
    exe = engine_binary()
    res, engine_note, ran = None, "", ""
    if exe:
        out_file = os.path.join(scratch, "engine.json")
        cmd = [exe, "-repo", REPO, "-contracts", os.path.join(V, "contracts"), "-prop", prop, "-json", out_file]
        ran = " ".join(cmd[:-2])
        rc, out = sh(cmd, 650, dict(go_env(), VERIF_ENGINE_BUDGET=str(min(600, BUDGET.get(prop, 300) * (1 if not thorough else 2)))), V)
        if os.path.exists(out_file):
            res = json.load(open(out_file))
            if res.get("load_error"):
                engine_note = "load error: " + res["load_error"][:1000]
        else:
            engine_note = "engine gave no result: " + (out or "")[-1000:]
    else:
        engine_note = "engine does not build"

    def mine(r, name):
        m = re.match(r"^([CN]\d\d(?:[ ,]+[CN]\d\d)*)\s*:", name)
        if m:
            return prop in re.split(r"[ ,]+", m.group(1))
        return prop in (r.get("tags") or [])

    total = discharged = 0
    failed, undecided, under, trusted, backs, solver, names, inlined, covers, notes = [], [], [], set(), {}, 0.0, [], set(), 0, []
    for r in (res or {}).get("results") or []:
        own = [o for o in r["obligations"] or [] if mine(r, o["name"])]
        direct = bool(own) or prop in (r.get("tags") or [])
        for k, n in (r["by_backend"] or {}).items():
            backs[k] = backs.get(k, 0) + n
        solver += r["solver_s"]
        trusted |= set(r["trusted"] or [])
        inlined |= set(r["inlined"] or [])
        notes += r.get("notes") or []
        if r.get("err") and direct:
            undecided.append({"contract": r["contract"], "reason": r.get("err")[:300]})
        if not direct:
            # a contract this property builds on: its obligations count too (a failed one is not used)
            own = [o for o in r["obligations"] or []]
        under.append("%s (%s)%s" % (r.get("target") or "lemma", r["contract"], "" if r["ok"] else " [not proved]"))
        for o in own:
            if o.get("cover"):
                covers += 1
                if o["status"] == "unreachable" and direct and not r.get("err"):
                    undecided.append({"contract": r["contract"], "reason": "vacuous: cover %s not reachable" % o["name"]})
                continue
            total += o["paths"]
            discharged += o["paths"] - o["failed"]
            names.append("%s: %s" % (r["contract"], o["name"]))
            if o["failed"] and direct:
                failed.append({"contract": r["contract"], "target": r.get("target"), "file": r["file"], "obligation": o["name"], "where": o.get("where"),
                               "status": o["status"], "paths": o["paths"], "failed_paths": o["failed"], "verifier_output": o.get("detail"),
                               "model": o.get("model"), "trace": o.get("trace")})
    for k, v in ((res or {}).get("dropped") or {}).items():
        if prop in v or not names:
            undecided.append({"contract": k, "reason": v[:300]})

    rep = Replay(prop, scratch)
    fail = None
    if rep.bin:
        base = 20000 if thorough else 4000
        if level == "proof" and not (undecided or engine_note) and not thorough:
            fail = rep.run(base, None, seed)
        else:
            fail = rep.run_many(3 * base, [seed, seed + 101, seed + 202, seed + 303])
        if not fail and failed:
            h = hints_of(failed)
            left = lambda: DEADLINE - (time.time() - t0)
            for k, ms in enumerate([15000, 30000, 60000] if thorough else [10000, 20000, 30000]):
                if left() < ms / 1000 + 160:
                    break
                fail = rep.run(ms, h if k != 1 else None, seed + 1 + k)
                if fail:
                    break
        elif not fail and (undecided or engine_note) and DEADLINE - (time.time() - t0) > 200:
            fail = rep.run(20000, None, seed + 1)  # nothing proved here: the bounded stand-in looks longer
    known = known_findings(prop)
    viol = 0
    code = 0
    lines = []
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    path = os.path.join(V, "replays", prop + ".json")
    def report(what, body, suffix=""):
        nonlocal viol, code
        for rx, text in known:
            if rx.search(what):
                lines.append("KNOWN-FINDING: property=%s %s" % (prop, text))
                return
        json.dump(body, open(path, "w"), indent=1)
        viol += 1
        code = 1
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, path, suffix))
    body = {"property": prop, "failed_obligations": failed,
            "how_to_rerun": "python3 /verif/tools/check.py %s; a recorded case: python3 /verif/tools/rerun.py %s" % (prop, path)}
    if fail:
        msg, record, out = fail
        body.update({"failing_input": msg, "case": record, "output": out})
        print("failing input on the real code:", msg)
        for f in failed[:8]:
            print("failed obligation: %s: %s %s" % (f["contract"], f["obligation"], f["where"] or ""))
        report(msg, body)
    elif failed:
        body["note"] = "the verifier refuted or could not discharge these obligations; no failing input was found on the real code"
        for f in failed:
            print("failed obligation (%s): %s: %s %s" % (f["status"], f["contract"], f["obligation"], f["where"] or ""))
        report(" ".join(f["obligation"] for f in failed), body, " no-failing-input-found")
    for u in undecided:
        print("undecided (bounded replay only):", u["contract"], u["reason"].split("\n")[0][:200])
    if engine_note:
        print("engine:", engine_note.split("\n")[0][:300])
    if rep.err:
        print(rep.err.split("\n")[0][:300])
    cases = sum(r["cases"] for r in rep.runs)
    cov = {"obligations": total, "discharged": discharged, "checker_cmd": ran or "bin/eng", "trusted_base": sorted(trusted) + BASE,
           "functions_under_contract": sorted(set(under)), "inlined_functions": sorted(inlined), "queries_by_back_end": backs,
           "solver_s": round(solver, 2), "obligation_names": sorted(set(names))[:400], "cover_checks": covers,
           "undecided_contracts": undecided, "notes": sorted(set(notes)),
           "bounded_replay": {"label": "bounded: cross-check of the models on the real code, not counted as proved", "cases": cases, "runs": rep.runs,
                              "error": rep.err}}
    if level in ("exploration", "other"):
        cov["explanation"] = ("contract obligations discharged deductively: %d of %d; the rest of the property is covered by the bounded replay of its "
                              "executable contract on the real code (%d cases), which is not a proof" % (discharged, total, cases))
        cov["evaluations"] = cases
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2),
          "violations": viol}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged in %d contracts, %d bounded replay cases, %.0f s" % (prop, discharged, total, len(under), cases, time.time() - t0))
    for l in lines:
        print(l)
    return code

BASE = ["the verification condition generator /verif/engine (symbolic execution of go/ssa, structural prover)", "golang.org/x/tools/go/ssa",
        "z3, cvc5", "the Go compiler and runtime"]
ASSUME = ["machine integers are bit vectors of their Go width; lengths of slices, strings and maps are below 2^48",
          "distinct pointer parameters of a contract do not alias unless the contract says so; append may reuse the array of its first argument only if nothing else reads it",
          "map iteration order is arbitrary but the same for repeated iterations of an unchanged map where a contract speaks about the encoded order",
          "function values supplied by the user of the library return and do not touch the client's unexported state"]

if __name__ == "__main__":
    main()
