"""Runs optimizations in forked children of a process with the preloaded mc/native/crash.c: one child per crash point.
Requests and answers are lines of JSON on stdin and on the given descriptor."""
import ctypes
import json
import os
import signal
import sys


def child(req, lib, fd):
    from . import campaign as K, env, harness as H
    os.chdir(req["work"])
    cfg = req["cfg"]
    K.prepare(cfg)

    def say(*words):
        os.write(fd, (" ".join(str(w) for w in words) + "\n").encode())

    def answer(run, call):
        seq = cfg["answers"]
        code = seq[(call.k - 1) % len(seq)] if seq else "L"
        if code == "fail":
            return {"FoM": run.sign * -99.0, "status_code": 3}
        if code == "stop":
            run.exit_obj.set_is_user_running(False)
            code = "L"
        ans = {"FoM": run.sign * K.value_of(code, run, call)}
        if cfg.get("stds"):
            ans["std"] = cfg["stds"][(call.k - 1) % len(cfg["stds"])]
        return ans
    env.CLOCK.t = 0.0
    env.seed_globals(12345)
    reference = req["target"] is None
    run = H.Run(cfg, answer, keep=True, read_saved=reference, exit_obj=K.handle_exit(),
                before_call=lambda r, c: say("call", c.k), after_answer=lambda r, c: say("ret", c.k))
    lib.vp_arm(b"QuOCS_Results", -1 if reference else req["target"], req.get("torn", 0), req.get("mode", 0), fd)
    try:
        run.create()
        run.execute_only()
        say("end")
    except Exception as ex:
        say("error", type(ex).__name__)
    lib.vp_disarm()
    if reference:
        if not run.finished:
            raise RuntimeError("the reference run did not finish")
        run.saved_end = run.snapshot()

        def plain(saved):
            import numpy as np
            return None if saved is None else {k: np.real(np.asarray(v)).tolist() for k, v in saved.items()}
        say("reference " + json.dumps({"saved": [plain(c.saved_before) for c in run.calls] + [plain(run.saved_end)],
                                       "report": run.read_report(),
                                       "best": [getattr(run.best_call(k), "k", None) for k in range(len(run.calls) + 1)]}))


def main():
    out = os.dup(1)
    from . import env
    env.install()
    import quocslib.Optimizer          # noqa: F401
    import quocslib.utils.AbstractFoM  # noqa: F401
    import numpy  # noqa: F401
    from . import campaign             # noqa: F401
    lib = ctypes.CDLL(os.environ["VP_CRASH_LIB"])
    for line in sys.stdin:
        req = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                signal.alarm(60)
                child(req, lib, w)
            except BaseException as ex:
                import traceback
                os.write(w, ("trouble " + repr(ex) + " " + json.dumps(traceback.format_exc()) + "\n").encode())
                code = 3
            os._exit(code)
        os.close(w)
        data = b""
        while True:
            part = os.read(r, 1 << 16)
            if not part:
                break
            data += part
        os.close(r)
        _, status = os.waitpid(pid, 0)
        os.write(out, (json.dumps({"log": data.decode(), "status": status}) + "\n").encode())


if __name__ == "__main__":
    main()
