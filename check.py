#!/usr/bin/env python3
"""Decides one property: check.py ID [--tier quick|thorough] [--replay FILE]

Three engines, all fed from /repo's current working tree:
  verus   functions extracted mechanically from /repo, contracts spliced in
          (verus/<unit>.py), discharged by Verus/Z3 for all inputs and iterations
  kani    contract harnesses (contracts/src/<id>.rs) over the compiled crate,
          discharged by Kani/CBMC over symbolic inputs
  native  the same harness bodies, executed: replays the verifier's
          counterexamples, searches a failing input for an obligation that
          failed, and stands in (labelled bounded) for what is out of reach

Verdict: exit 1 iff an obligation is refuted; exit 0 otherwise. A tool limit
(timeout, unwinding bound, unsupported construct, lost anchor, a verification
hook that no longer compiles) makes an obligation undecided: it is reported in
the evidence as not discharged, and never raises an alarm."""
import sys, os, json, subprocess, time, re, threading, glob, importlib, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, f"{VERIF}/tools")
sys.path.insert(0, f"{VERIF}/verus")
import workspace
from props import PROPS

REPO = "/repo"
B = workspace.B
CONTRACTS = f"{VERIF}/contracts"
FLAGS = ["-Z", "unstable-options", "-Z", "stubbing", "-Z", "function-contracts"]
T0 = time.time()


def log(*a):
    print(f"[{time.time()-T0:6.1f}s]", *a, flush=True)


def flags(hooks):
    return {"RUSTFLAGS": "--cfg rinex_verif"} if hooks else {}


def run(cmd, timeout, env=None, cwd=CONTRACTS):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", **(env or {}))
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return -9, out, err + "\n[timeout]"


# ------------------------------------------------------------------ harnesses
def declared(pid):
    """names in the harness!{} and search!{} blocks of contracts/src/<id>.rs"""
    p = f"{CONTRACTS}/src/{pid.lower()}.rs"
    if not os.path.exists(p):
        return [], [], set()
    s = open(p).read()
    names = {"harness": [], "search": []}
    for kind in names:
        for m in re.finditer(r"^%s! \{\n(.*?)^\}" % kind, s, re.S | re.M):
            names[kind] += re.findall(r"^    fn (\w+)\(\)", m[1], re.M)
    # harness is bounded when the comment right above it says so
    bounded = set(re.findall(r"///[^\n]*\bbounded\b[^\n]*\n(?:    (?:///|#\[)[^\n]*\n)*    fn (\w+)\(\)", s))
    return names["harness"], names["search"], bounded


# ------------------------------------------------------------------- native
class Native:
    def __init__(self, pid):
        self.pid, self.exe, self.hooks, self.err = pid, None, None, ""

    def build(self):
        for hooks in (True, False):
            tgt = f"{B}/native" if hooks else f"{B}/native-nohooks"
            env = flags(hooks)
            rc, out, err = run(["cargo", "build", "--profile", "search", "--target-dir", tgt,
                                "--features", self.pid.lower()], 600, env)
            if rc == 0:
                exe = f"{tgt}/search/run"
                self.exe = f"{B}/run-{self.pid}"
                subprocess.run(["cp", exe, self.exe], check=True)
                self.hooks = hooks
                return True
            self.err += err[-3000:]
            log(f"native build {'with' if hooks else 'without'} hooks failed")
        return False

    def search(self, seed, secs, names=()):
        rc, out, err = run(["bash", "-c", "ulimit -v 12000000; ulimit -s 1000000; exec \"$@\"", "x",
                            self.exe, "search", str(seed), str(secs), *names],
                           60 + 400, {"RUST_MIN_STACK": "268435456"})
        res = []
        for l in out.splitlines():
            try:
                res.append(json.loads(l))
            except ValueError:
                pass
        if rc != 0 and "timeout" not in err:
            res.append({"harness": "?", "outcome": "crash", "message": f"exit {rc}: {err[-300:]}"})
        return res

    def replay(self, name, hexbytes):
        rc, out, err = run([self.exe, "replay", name, hexbytes], 60)
        try:
            return json.loads(out.strip().splitlines()[-1])
        except Exception:
            return {"outcome": "crash", "message": f"exit {rc}: {err[-300:]}"}


# --------------------------------------------------------------------- kani
def kani_cmd(pid, names, timeout, jobs=6):
    cmd = ["cargo", "kani", "--target-dir", f"{B}/target", "--features", pid.lower(), *FLAGS,
           "--harness-timeout", f"{timeout}s", "-j", str(jobs), "--output-format", "terse", "--exact"]
    for n in names:
        cmd += ["--harness", f"{pid.lower()}::{n}"]
    return cmd


class Kani:
    """results: name -> dict(status, checks, discharged, failed[], covers...)"""

    def __init__(self, pid, names, timeout, total):
        self.pid, self.names, self.timeout, self.total = pid, names, timeout, total
        self.results, self.hooks, self.err, self.cmd, self.solver_s = {}, None, "", "", 0.0

    def go(self):
        if not self.names:
            return
        js = f"{B}/kani-{self.pid}.json"
        for hooks in (True, False):
            if os.path.exists(js):
                os.unlink(js)
            env = flags(hooks)
            names = self.names
            tgt = f"{B}/target" if hooks else f"{B}/target-nohooks"
            cmd = kani_cmd(self.pid, names, self.timeout)
            cmd[cmd.index(f"{B}/target")] = tgt
            self.cmd = " ".join(cmd)
            rc, out, err = run(cmd + ["--export-json", js], self.total, env)
            text = out + err
            self.text = text
            if os.path.exists(js):
                self.hooks = hooks
                self.parse(json.load(open(js)), text)
                return
            if "Checking harness" in text:  # killed on the way
                self.hooks = hooks
                self.partial(text)
                return
            if "not found" in text and "harness" in text and not hooks:
                self.partial(text)
                return
            self.err += "\n".join(l[:300] for l in text.splitlines() if l.startswith("error"))[:2000]
            log(f"kani build {'with' if hooks else 'without'} hooks failed")

    def partial(self, text):
        for m in re.finditer(r"Thread (\d+): Checking harness \w+::(\w+)\.\.\.", text):
            th, n = m[1], m[2]
            nxt = re.search(rf"^Thread {th}: *$(.*?)(?=^Thread|\Z)", text[m.end():], re.S | re.M)
            if nxt and "VERIFICATION:- SUCCESSFUL" in nxt[1]:
                c = re.search(r"\*\* 0 of (\d+) failed", nxt[1])
                self.results[n] = dict(status="ok", checks=int(c[1]) if c else 1, failed=[], why="")

    def parse(self, d, text):
        for r in d["verification_results"]["results"]:
            n = r["harness_id"].split("::")[-1]
            checks = r.get("checks") or []
            live = [c for c in checks if c["status"].lower() not in ("unreachable",) and c["category"] != "cover"]
            covers = [c for c in checks if c["category"] == "cover"]
            failed = [c for c in checks if c["status"].lower() == "failure"]
            s = dict(checks=len(live), failed=[], why="", seconds=r["duration_ms"] / 1000,
                     covers=len(covers), covered=sum(c["status"].lower() in ("satisfied", "success", "covered") for c in covers))
            if r["status"].lower().startswith("succ"):
                s["status"] = "ok"
                if s["covered"] < s["covers"]:
                    s["status"], s["why"] = "undecided", "a reachability guard is not satisfiable (vacuous)"
                elif not live:
                    s["status"], s["why"] = "undecided", "no obligation generated (vacuous)"
            else:
                soft = [c for c in failed if "unwind" in c["category"] or "unwinding" in c["description"]
                        or "unsupported" in c["category"] or "is not currently supported" in c["description"]
                        or "recursion" in c["category"]]
                hard = [c for c in failed if c not in soft]
                if hard and not soft:
                    s["status"] = "failed"
                    s["failed"] = [f"{c['description']} @ {c['location'].get('file','?').split('/src/')[-1]}:{c['location'].get('line','?')} in {c['function'][:120]}" for c in hard][:8]
                else:
                    s["status"] = "undecided"
                    s["why"] = ("unwinding bound or unsupported construct: " + soft[0]["description"][:150]) if soft else "timeout or solver resource limit"
            self.results[n] = s
        for c in d.get("cbmc", []):
            self.solver_s += (c.get("cbmc_stats") or {}).get("runtime_decision_procedure_s") or 0

    def playback(self, name):
        """counterexample of a failed harness, as the concatenation of its values"""
        env = flags(self.hooks)
        cmd = ["cargo", "kani", "--target-dir", f"{B}/target" if self.hooks else f"{B}/target-nohooks",
               "--features", self.pid.lower(), *FLAGS, "-Z", "concrete-playback", "--concrete-playback=print",
               "--harness-timeout", f"{self.timeout}s", "--exact", "--harness", f"{self.pid.lower()}::{name}"]
        rc, out, err = run(cmd, self.timeout + 120, env)
        res = []
        for t in re.finditer(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
            b = bytearray()
            for v in re.finditer(r"vec!\[([\d, ]*)\]", t[1]):
                b += bytes(int(x) for x in v[1].split(",") if x.strip())
            res.append(b.hex())
        return res


# -------------------------------------------------------------------- verus
def verus_unit(name):
    """dict(status, obligations, verified, failed[], why, trusted, drops, seconds)"""
    r = dict(unit=name, status="undecided", obligations=0, verified=0, failed=[], why="", output="")
    try:
        m = importlib.import_module(name)
        r["drops"], r["trusted"], r["functions"] = m.DROPS, m.TRUSTED, sorted(m.CONTRACTS)
        text = m.unit(REPO)
    except Exception as e:
        r["why"] = f"anchor lost: {type(e).__name__} {e}"
        return r
    d = f"{B}/verus"
    os.makedirs(d, exist_ok=True)
    f = f"{d}/{name}.rs"
    open(f, "w").write(text)
    t = time.time()
    rc, out, err = run(["verus", f, "--output-json", "--rlimit", "60", "--multiple-errors", "8"], 300, cwd=d)
    r["seconds"] = round(time.time() - t, 2)
    r["output"] = err[-6000:]
    try:
        v = json.loads(out)["verification-results"]
    except Exception:
        r["why"] = "no result from verus"
        return r
    if v.get("encountered-vir-error") or "verified" not in v:
        e = re.search(r"^error.*$", err, re.M)
        r["why"] = "outside the verifier's language: " + (e[0][:200] if e else "?")
        return r
    lines = text.splitlines()

    def owner(n):
        for i in range(n - 1, -1, -1):
            m_ = re.match(r"\s*(?:pub\s+)?(?:proof |spec |exec )?fn (\w+)", lines[i])
            if m_:
                return m_[1]
        return "?"

    fails, rl = {}, False
    for m_ in re.finditer(r"^error: ([^\n]*)\n\s*--> [^\n:]*:(\d+):", err, re.M):
        if "rlimit" in m_[1].lower() or "resource limit" in m_[1].lower():
            rl = True
        if "aborting" in m_[1]:
            continue
        fails.setdefault(owner(int(m_[2])), []).append(f"{m_[1]} (line {m_[2]}: {lines[int(m_[2])-1].strip()[:120]})")
    canary = [c for c in m.CANARIES if c not in fails]
    real = {k: v_ for k, v_ in fails.items() if k not in m.CANARIES}
    r["verified"] = v["verified"]
    r["obligations"] = v["verified"] + len(real)
    if canary and not v["verified"]:
        e = re.search(r"^error.*$", err, re.M)
        r["why"] = "outside the verifier's language: " + (e[0][:200] if e else "?")
        return r
    if canary:
        r["why"] = f"vacuous: {canary} verified although it asserts false"
        return r
    if real:
        if rl:
            r["why"] = "resource limit"
        else:
            r["status"] = "failed"
            r["failed"] = [f"fn {k}: {x}" for k, v_ in real.items() for x in v_]
        return r
    r["status"] = "ok"
    return r


# --------------------------------------------------------------------- main
def known(pid):
    res = []
    p = f"{VERIF}/KNOWN_FINDINGS"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) witness=(\w+) (.*)", l.strip())
            if m and m[1] == pid:
                res.append((m[2], m[3]))
    return res


def scan_trusted(pid):
    p = f"{CONTRACTS}/src/{pid.lower()}.rs"
    s = open(p).read() if os.path.exists(p) else ""
    return sorted({f"stub {a.strip()} -> {b.strip()}" for a, b in re.findall(r"kani::stub\(([^,]*(?:,[^,]*)?),\s*([\w:]+)\)", s)})


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[pid]
    workspace.prepare()
    nat = Native(pid)
    if "--replay" in sys.argv:
        d = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        nat.build()
        r = nat.replay(d["harness"], d["bytes"])
        print(json.dumps(r))
        sys.exit(1 if r["outcome"] in ("failed", "crash") else 0)

    proofs, searches, bounded = declared(pid)
    if tier == "quick":
        proofs = [p for p in proofs if not p.endswith("_t")]
    thorough = tier != "quick"
    kani = Kani(pid, proofs, cfg.get("kani_timeout", 240) * (5 if thorough else 1), 3000 if thorough else 560)
    vres = []
    nres = []

    def native_job():
        if not nat.build():
            return
        n = len(declared(pid)[0]) + len(searches)
        secs = cfg.get("search_s", 24) * (20 if thorough else 1) / max(1, n)
        nres.extend(nat.search(seed, round(min(secs, 10 if not thorough else 120), 2)))

    def verus_job():
        for u in cfg.get("verus", []):
            vres.append(verus_unit(u))

    ts = [threading.Thread(target=f) for f in (kani.go, native_job, verus_job)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    log("engines done")
    if nat.exe is None and not kani.results and not any(v["status"] != "undecided" for v in vres):
        # nothing of /repo could be compiled: no answer
        print(nat.err[-2000:])
        print("ERROR: /repo does not build")
        sys.exit(2)

    violations, undecided, findings = [], [], []
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)

    def violate(what, harness, hexbytes, message, obligation=""):
        path = f"{VERIF}/evidence/replay-{pid}-{len(violations)}.json"
        json.dump(dict(property=pid, harness=harness, bytes=hexbytes, message=message, obligation=obligation,
                       how=f"python3 {VERIF}/check.py {pid} --replay {path}" if hexbytes is not None else "no concrete input"),
                  open(path, "w"), indent=1)
        violations.append(dict(what=what, message=message, path=path, proved=hexbytes is not None))

    wit = dict(known(pid))
    # -- native outcomes
    stats = {}
    for r in nres:
        h = r["harness"]
        stats[h] = r
        if h in wit:
            if r["outcome"] == "failed":
                findings.append((h, wit[h]))
            continue
        if r["outcome"] == "failed":
            c = nat.replay(h, r["bytes"])
            if c["outcome"] in ("failed", "crash"):
                violate(f"native {h}", h, r["bytes"], r["message"], f"{pid.lower()}::{h}")
            else:
                undecided.append(f"native {h}: failure did not replay: {r['message'][:200]}")
        elif r["outcome"] == "hang":
            violate(f"native {h}", h, "", f"does not terminate (trial {r['trial']})", f"{pid.lower()}::{h}")
        elif r["outcome"] == "crash":
            undecided.append(f"native run: {r['message']}")
        elif any(v == 0 for v in r.get("reach", {}).values()):
            undecided.append(f"native {h}: reachability guard never hit {r['reach']}")
        elif r.get("held", 0) == 0:
            undecided.append(f"native {h}: no evaluation satisfied the precondition")
    # -- kani outcomes
    discharged, obligations, fns = 0, 0, []
    for n in proofs:
        r = kani.results.get(n)
        if r is None:
            undecided.append(f"kani {n}: " + (kani.err[:300] or "not run to completion"))
            obligations += 1
            continue
        obligations += max(1, r["checks"])
        if r["status"] == "ok":
            discharged += r["checks"]
        elif r["status"] == "undecided":
            undecided.append(f"kani {n}: {r['why']}")
        elif any(n == stats_h and s["outcome"] == "failed" for stats_h, s in stats.items()):
            undecided.append(f"kani {n}: refuted too: {r['failed'][0][:200]}")
        else:
            log(f"kani {n} refuted: {r['failed'][0][:200]}")
            done = False
            if sum(not v["what"].startswith("native") for v in violations) < 2:
                for hx in kani.playback(n):
                    if nat.exe is None:
                        break
                    c = nat.replay(n, hx)
                    if c["outcome"] in ("failed", "crash"):
                        violate(f"kani {n}", n, hx, c.get("message", ""), "; ".join(r["failed"][:3]))
                        done = True
                        break
            if not done and nat.exe:
                for s in nat.search(seed + 1, 10, [n]):
                    if s["outcome"] == "failed":
                        violate(f"kani {n}", n, s["bytes"], s["message"], "; ".join(r["failed"][:3]))
                        done = True
            if not done:
                violate(f"kani {n}", n, None, "\n".join(r["failed"]) + "\n" + kani.text[-4000:], "; ".join(r["failed"][:3]))
    # -- verus outcomes
    for v in vres:
        obligations += max(1, v["obligations"])
        discharged += v["verified"] if v["status"] != "undecided" else 0
        fns += v.get("functions", [])
        if v["status"] == "undecided":
            undecided.append(f"verus {v['unit']}: {v['why']}")
        elif v["status"] == "failed":
            if violations:
                undecided.append(f"verus {v['unit']}: refuted too: {v['failed'][0]}")
            else:
                violate(f"verus {v['unit']}", None, None, "\n".join(v["failed"]) + "\n" + v["output"], v["failed"][0])

    # -- report
    for u in undecided:
        log("undecided:", u[:400])
    for h, what in findings:
        print(f"KNOWN-FINDING: property={pid} {what}")
    violations.sort(key=lambda v: not v["proved"])
    for v in violations:
        log(f"{v['what']}: {v['message'][:300]}")
    evals = sum(s.get("held", 0) + s.get("vacuous", 0) for s in stats.values())
    held = sum(s.get("distinct", 0) for s in stats.values())
    assumptions = list(cfg.get("assumptions", [])) + scan_trusted(pid)
    for v in vres:
        assumptions += [f"verus {v['unit']}: trusted: {t}" for t in v.get("trusted", [])]
        assumptions += [f"verus {v['unit']}: extraction drops: {t}" for t in v.get("drops", [])]
    if kani.names:
        assumptions += ["Kani 0.68 / CBMC 6.11 / cadical; loops unrolled with unwinding assertions on; hifitime's own cfg(kani) code switched off, backtrace patched (tools/workspace.py)"]
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd="; ".join(x for x in [kani.cmd if kani.names else "", *(f"verus {B}/verus/{v['unit']}.rs" for v in vres)] if x) or f"{B}/run-{pid} search",
        trusted_base=assumptions,
        functions_under_contract=sorted(set(cfg.get("functions", []) + fns)),
        kani_harnesses={n: dict(kani.results[n], bounded=n in bounded) if n in kani.results else "undecided" for n in proofs},
        kani_solver_s=round(kani.solver_s, 2),
        verus_units=[{k: v[k] for k in v if k != "output"} for v in vres],
        hooks_compiled=dict(kani=kani.hooks, native=nat.hooks),
        undecided=undecided,
        violations_reported=[dict(what=v["what"], message=v["message"][:1500], replay=v["path"]) for v in violations],
        evaluations=evals, distinct_nontrivial=held,
        rule="bounded stand-in / counterexample search: pseudo random value streams (VERIF_SEED) through each harness body on the compiled crate; nontrivial: the harness's precondition held and its assertions were evaluated; distinct: by the drawn values",
        samples=[f"{h}: drawn values {s.get('sample', '')}" for h, s in list(stats.items())[:20]],
        bounded_stand_in={h: {k: s[k] for k in ("held", "distinct", "vacuous", "outcome", "reach") if k in s} for h, s in stats.items()},
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=cfg["level"], coverage=cov,
              assumptions=assumptions, wall_s=round(time.time() - T0, 1),
              violations=len(violations))
    json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
    log(f"{pid}: {discharged}/{obligations} obligations discharged, {len(undecided)} undecided, {evals} evaluations, {len(violations)} violations")
    try:
        os.unlink(nat.exe)
    except Exception:
        pass
    if violations:
        v = violations[0]
        print(f"VIOLATION property={pid} replay={v['path']}" + ("" if v["proved"] else " no-failing-input-found"))
        sys.exit(1)
    sys.exit(0)


main()
