#!/opt/venv/bin/python
"""
check.py --property C01 [--tier quick|thorough] [--seed N] [--runs N]
check.py --replay FILE          re-executes a replay file exactly
"""
import argparse
import io
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VENV = "/opt/venv/bin/python"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--deadline", type=float)
    ap.add_argument("--worker")
    ap.add_argument("--probe", action="store_true")
    ap.add_argument("--probe-server", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--one", type=int, help="run one seed verbosely")
    a = ap.parse_args()

    if os.environ.get("PYTHONHASHSEED") is None or os.environ.get("DST_CHILD") is None:
        env = dict(os.environ)
        env.setdefault("PYTHONHASHSEED", "0")
        env["DST_CHILD"] = "1"
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["MPLBACKEND"] = "Agg"
        env["OPENBLAS_NUM_THREADS"] = "1"
        env["OMP_NUM_THREADS"] = "1"
        py = VENV if os.path.exists(VENV) else sys.executable
        os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

    from dst import core
    from dst.registry import get

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        scn = get(rep["property"])
        res, fresh = core.replay_in_process(scn, rep)
        for t in res.trace:
            sys.__stdout__.write(f"  {t}\n")
        for v in fresh:
            sys.__stdout__.write(f"[{rep['property']}] {v['kind']}: {v['msg'][:1500]}\n")
        if fresh:
            sys.__stdout__.write(f"VIOLATION property={rep['property']} replay={a.replay}\n")
        sys.exit(1 if fresh else 0)

    if a.worker or a.probe or a.probe_server:
        real_out = os.fdopen(os.dup(1), "w", buffering=1)
        devnull = open(os.devnull, "w")
        os.dup2(devnull.fileno(), 1)
        sys.__stdout__ = real_out
        sys.stdout = io.StringIO()
    scn = get(a.property)
    if a.worker or a.probe or a.probe_server:
        core.limit_memory()
    if a.worker:
        w = json.loads(a.worker)
        core.worker_main(scn, w["base"], w["start"], w["step"], w["count"], w["tier"], w["deadline"])
        return
    if a.probe or a.probe_server:
        lines = sys.stdin if a.probe_server else [sys.stdin.read()]
        for line in lines:
            if not line.strip():
                continue
            rep = json.loads(line)
            try:
                res, fresh = core.replay_in_process(scn, rep)
                d = {"violations": fresh[:3], "digest": res.digest()}
            except Exception as e:
                import traceback
                d = {"violations": [], "digest": None, "error": traceback.format_exc()}
            sys.__stdout__.write("PROBE " + json.dumps(d, default=str) + "\n")
            sys.__stdout__.flush()
        return
    if a.one is not None:
        prog = scn.generate(core.seed_rng(a.property, a.seed, a.one), a.tier)
        so = sys.stdout
        sys.stdout = io.StringIO()
        res = core.run_one(scn, prog)
        sys.stdout = so
        print(json.dumps(prog, indent=1))
        for t in res.trace:
            print("  ", t)
        print(res.violations, dict(res.stats), dict(res.faults))
        return
    sys.exit(core.run_check(scn, a.tier, a.seed, a.runs, a.workers, a.deadline))


if __name__ == "__main__":
    main()
