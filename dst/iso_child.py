"""second executions for C12: reads programs, runs each in a fresh fork"""
import io
import json
import os
import random
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def body(program, env):
    import numpy as np
    from dst.props_iso import run_prints, Gen
    random.seed(env["seed"])
    np.random.seed(env["seed"] % (2 ** 31))
    off = env["clock"]
    real = time.time
    time.time = lambda: real() + off
    if env["noise"]:
        # other work before, in this process
        q = Gen(random.Random(env["seed"]), nops=(2, 4)).program()
        run_prints(q)
    out = {}

    def go():
        try:
            out["prints"] = run_prints(program)[0]
        except BaseException:
            out["error"] = traceback.format_exc()[-1500:]
    if env["thread"]:
        t = threading.Thread(target=go)
        t.start()
        t.join()
    else:
        go()
    return out


def main():
    real = os.fdopen(os.dup(1), "w", buffering=1)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    sys.stdout = io.StringIO()
    import dst.props_iso    # noqa: imports the code under test before forking
    for line in sys.stdin:
        if not line.strip():
            continue
        d = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                out = body(d["program"], d["env"])
            except BaseException:
                out = {"error": traceback.format_exc()[-1500:]}
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(out))
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        os.waitpid(pid, 0)
        real.write((data or json.dumps({"error": "no answer from the forked run"})) + "\n")
        real.flush()


main()
