"""Check driver.

  python -m vsim.main C01                 quick/thorough check (VERIF_TIER)
  python -m vsim.main --replay FILE       repeat one recorded execution
  python -m vsim.main --digest C01 N      outcomes of N seeds (determinism test)
"""

import hashlib
import importlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NWORK = int(os.environ.get("VSIM_WORKERS", "0")) or min(8, os.cpu_count() or 1)


def load_prop(pid):
    return importlib.import_module(f"vsim.props.{pid.lower()}")


def prop_config(pid):
    """Read without importing jsonpickle."""
    from .props import CONFIG

    return CONFIG[pid]


def seed_rng(seed, pid, i):
    return random.Random(f"{seed}/{pid}/{i}")


def execute(mod, scn):
    """Run one scenario; child failures become outcomes."""
    from .proc import ChildFailure

    last = None
    for attempt in range(2):
        try:
            return mod.run(scn)
        except ChildFailure as e:
            if e.kind == "error":
                raise
            last = e
    return {
        "viol": {"kind": "process-" + last.kind, "detail": last.detail},
        "stats": {},
        "sig": "",
        "nontrivial": True,
    }


def worker(pid, seed, w, nwork, count, deadline, out_fd):
    mod = load_prop(pid)
    sigs = set()
    stats = {}
    samples = []
    runs = nontrivial = 0
    errors = []
    out = os.fdopen(out_fd, "w")

    def send(msg):
        out.write(json.dumps(msg) + "\n")
        out.flush()

    try:
        for i in range(w, count, nwork):
            if time.monotonic() > deadline:
                break
            try:
                scn = mod.gen(seed_rng(seed, pid, i))
                scn["seed"] = f"{seed}/{pid}/{i}"
                res = execute(mod, scn)
            except Exception:  # noqa: BLE001 - no verdict on this one, see below
                errors.append(f"scenario {i}: {traceback.format_exc()}")
                continue
            runs += 1
            for k, v in res["stats"].items():
                if k.startswith("max:"):
                    stats[k] = max(stats.get(k, 0), v)
                else:
                    stats[k] = stats.get(k, 0) + v
            if res["nontrivial"]:
                h = hashlib.sha1(res["sig"].encode()).digest()[:10]
                if h not in sigs:
                    sigs.add(h)
                    if len(samples) < 2:
                        samples.append(res.get("sample", scn))
                nontrivial += 1
            if res["viol"] is not None:
                send({"viol": res["viol"], "scn": scn, "i": i})
                break
        send({
            "done": True, "runs": runs, "nontrivial": nontrivial, "stats": stats,
            "sigs": [s.hex() for s in sigs], "samples": samples, "errors": errors[:3],
            "nerrors": len(errors),
        })  # fmt: skip
    except BaseException:  # noqa: BLE001 - reported as an error of the check
        send({"error": traceback.format_exc()})
    finally:
        try:
            out.close()
        finally:
            os._exit(0)


def search(pid, seed, count, budget):
    """Run the seeds on all workers; returns (aggregate, violations, errors)."""
    deadline = time.monotonic() + budget
    fds = {}
    pids = []
    sys.stdout.flush()
    for w in range(NWORK):
        r, wr = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(r)
            for fd in fds:
                os.close(fd)
            worker(pid, seed, w, NWORK, count, deadline, wr)
        os.close(wr)
        fds[r] = b""
        pids.append(p)
    agg = {"runs": 0, "nontrivial": 0, "stats": {}, "sigs": set(), "samples": [], "finished": 0, "without_verdict": 0}
    viols, errors = [], []
    hard = deadline + 90
    grace = None
    while fds:
        limit = hard if grace is None else min(hard, grace)
        if time.monotonic() > limit:
            break
        ready, _, _ = select.select(list(fds), [], [], 1.0)
        for fd in ready:
            b = os.read(fd, 1 << 20)
            if b:
                fds[fd] += b
                continue
            for line in fds.pop(fd).decode().splitlines():
                msg = json.loads(line)
                if "error" in msg:
                    errors.append(msg["error"])
                elif "viol" in msg:
                    viols.append(msg)
                else:
                    agg["finished"] += 1
                    errors.extend(msg["errors"])
                    agg["without_verdict"] += msg["nerrors"]
                    agg["runs"] += msg["runs"]
                    agg["nontrivial"] += msg["nontrivial"]
                    for k, v in msg["stats"].items():
                        if k.startswith("max:"):
                            agg["stats"][k] = max(agg["stats"].get(k, 0), v)
                        else:
                            agg["stats"][k] = agg["stats"].get(k, 0) + v
                    agg["sigs"].update(msg["sigs"])
                    agg["samples"].extend(msg["samples"])
            os.close(fd)
        if viols and grace is None:
            grace = time.monotonic() + 3
    for p in pids:
        try:
            os.kill(p, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(p, 0)
    for fd in fds:
        os.close(fd)
    return agg, viols, errors


def minimise(mod, scn, viol, budget):
    """Greedy reduction; keeps the kind of violation."""
    end = time.monotonic() + budget
    tries = 0
    best = scn
    if hasattr(mod, "explicit"):
        try:
            cand = mod.explicit(best)
        except Exception:  # noqa: BLE001 - the violation may be a crash
            cand = None
        if cand is not None:
            res = execute(mod, cand)
            tries += 1
            if res["viol"] is not None:
                best, viol = cand, res["viol"]
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for cand in mod.shrink(best):
            if time.monotonic() > end:
                break
            tries += 1
            try:
                res = execute(mod, cand)
            except Exception:  # noqa: BLE001 - not a valid reduction
                continue
            if res["viol"] is not None and res["viol"]["kind"] == viol["kind"]:
                best, viol = cand, res["viol"]
                progress = True
                break
    return best, viol, tries


def report(pid, mod, found, seed, tier):
    """Minimise, store the replay file and confirm it in a new process."""
    import subprocess

    budget = 30 if tier == "quick" else 120
    scn, viol = found["scn"], found["viol"]
    small, sviol, tries = minimise(mod, scn, viol, budget)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{pid}-{seed}-{found['i']}.json")
    for cand, v in ((small, sviol), (scn, viol)):
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": cand.get("seed"), "violation": v,
                       "scenario": cand, "minimiser_runs": tries}, f, indent=1)  # fmt: skip
        for _ in range(3):
            p = subprocess.run(
                [sys.executable, "-m", "vsim.main", "--replay", path],
                cwd=VERIF, capture_output=True, text=True, timeout=200,
            )  # fmt: skip
            if p.returncode == 1:
                return path, v, True
    return path, viol, False


def write_evidence(pid, tier, seed, cfg, agg, wall, nviol, extra):
    st = dict(agg["stats"])
    faults = {k[6:]: v for k, v in st.items() if k.startswith("fault:")}
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(agg["sigs"]),
        "rule": cfg["rule"],
        "samples": agg["samples"][:3],
        "runs_per_hour": round(agg["runs"] / max(wall, 0.001) * 3600),
        "simulated_steps": st.get("steps", 0),
        "calls_judged": st.get("calls", 0),
        "faults_injected": faults,
        "measured": {k: v for k, v in sorted(st.items()) if not k.startswith("fault:") and k not in ("steps", "calls")},
        "real_components": cfg["real"],
        "stubs": cfg["stubs"],
    }
    cov.update(extra)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": cov, "assumptions": cfg["assumptions"],
        "wall_s": round(wall, 2), "violations": nviol,
    }  # fmt: skip
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{pid}.json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, path)


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    rec = json.loads(line)
                    if rec.get("property") == pid and rec.get("status") == "known":
                        out.append(rec)
    return out


def check(pid):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = prop_config(pid)
    from .boot import boot

    boot(**{k: cfg[k] for k in ("heavy", "alloc", "backends", "ext") if k in cfg})
    mod = load_prop(pid)
    count = cfg["quick" if tier == "quick" else "thorough"]
    if os.environ.get("VSIM_COUNT"):
        count = int(os.environ["VSIM_COUNT"])
    budget = 300 if tier == "quick" else 3000
    agg, viols, errors = search(pid, seed, count, budget)
    # executions recorded as known findings are repeated and reported
    findings = 0
    for rec in known_findings(pid):
        res = execute(mod, rec["scenario"])
        agg["runs"] += 1
        if res["viol"] is not None and res["viol"]["kind"] == rec["kind"]:
            print(f"KNOWN-FINDING: property={pid} {rec['what']}")
            findings += 1
        elif res["viol"] is not None:
            viols.append({"viol": res["viol"], "scn": rec["scenario"], "i": "known"})
    extra = {
        "planned_runs": count,
        "workers": NWORK,
        "known_findings_reproduced": findings,
        "executions_without_verdict": agg["without_verdict"],
    }
    code = 0
    if viols:
        viols.sort(key=lambda v: str(v["i"]).zfill(9))
        for found in viols[:3]:
            path, viol, confirmed = report(pid, mod, found, seed, tier)
            if confirmed:
                break
        extra["replay"] = path
        if confirmed:
            print(f"{pid}: {viol['kind']}: {str(viol['detail'])[:1500]}")
            print(f"VIOLATION property={pid} replay={path}")
            code = 1
        else:
            print(f"{pid}: a failure did not repeat: {viol}", file=sys.stderr)
            code = 2
    elif errors:  # the check is only as good as its executions
        print(f"{agg['without_verdict']} executions ended without a verdict", file=sys.stderr)
        print(errors[0], file=sys.stderr)
        code = 2
    elif agg["finished"] < NWORK:
        print("workers did not finish", file=sys.stderr)
        code = 2
    wall = time.monotonic() - t0
    write_evidence(pid, tier, seed, cfg, agg, wall, len(viols), extra)
    if code == 0:
        print(
            f"{pid}: held on {agg['runs']} executions, {len(agg['sigs'])} distinct, "
            f"{agg['stats'].get('steps', 0)} steps, {wall:.1f} s"
        )
    return code


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    pid = rec["property"]
    cfg = prop_config(pid)
    from .boot import boot

    boot(**{k: cfg[k] for k in ("heavy", "alloc", "backends", "ext") if k in cfg})
    mod = load_prop(pid)
    res = execute(mod, rec["scenario"])
    if res["viol"] is None:
        print(f"{pid}: replay holds")
        return 0
    print(f"{pid}: {res['viol']['kind']}: {str(res['viol']['detail'])[:3000]}")
    print(f"VIOLATION property={pid} replay={path}")
    return 1


def digest(pid, n, start=0):
    cfg = prop_config(pid)
    from .boot import boot

    boot(**{k: cfg[k] for k in ("heavy", "alloc", "backends", "ext") if k in cfg})
    mod = load_prop(pid)
    for i in range(start, start + n):
        scn = mod.gen(seed_rng(1, pid, i))
        scn["seed"] = i
        res = execute(mod, scn)
        h = hashlib.sha1(
            json.dumps([scn, res], sort_keys=True, default=repr).encode()
        ).hexdigest()
        print(i, h, json.dumps(res["viol"]))
    return 0


def selftest():
    """Import everything a check needs."""
    from .boot import boot
    from .props import CONFIG

    boot(heavy=True)
    for pid in CONFIG:
        load_prop(pid)
    print(f"{len(CONFIG)} checks ready")
    return 0


def repeat(n):
    """Executes n scenarios of every property four times, in processes of their own."""
    from .props import CONFIG

    bad = 0
    for pid in CONFIG:
        cmd = [sys.executable, "-m", "vsim.main", "--digest", pid, str(n)]
        runs = [subprocess.Popen(cmd, stdout=subprocess.PIPE, text=True) for _ in range(4)]
        outs = [r.communicate()[0] for r in runs]
        same = len(set(outs)) == 1 and outs[0].count("\n") == n
        bad += not same
        print(f"{pid}: {n} scenarios, 4 executions each, {'identical' if same else 'DIFFERENT'}", flush=True)
    return 2 if bad else 0


def main(argv):
    if argv[0] == "--repeat":
        return repeat(int(argv[1]))
    if argv[0] == "--replay":
        return replay(argv[1])
    if argv[0] == "--selftest":
        return selftest()
    if argv[0] == "--digest":
        return digest(argv[1], int(argv[2]), int(argv[3]) if len(argv) > 3 else 0)
    return check(argv[0])


if __name__ == "__main__":
    from .layout import fix

    fix("vsim.main")
    try:
        code = main(sys.argv[1:])
    except BaseException:  # noqa: BLE001 - an error of the check, not a violation
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
