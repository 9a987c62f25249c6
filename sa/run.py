"""python3-vt sa/run.py PROPERTY [quick|thorough] [dump directory]"""
import ctypes
import importlib
import os
import sys
import time

CHECK = []
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "checks"))
sys.setrecursionlimit(60000)
import threading
threading.stack_size(512 * 1024 * 1024)


def resident():
    """memory in use by this process"""
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE")


def main():
    from core import Check, Program, report, Overtime
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    out = sys.argv[3] if len(sys.argv) > 3 else os.path.join(os.path.dirname(HERE), ".cache", "out")
    mod = importlib.import_module(pid.lower())
    prog = Program(os.path.join(out, "sim.lib.json"))
    post = None
    f = os.path.join(out, "post.bin.json")
    if os.path.exists(f):
        post = Program(f)
    chk = Check(pid, prog, tier, post)
    chk.repo = os.environ.get("VERIF_REPO", "/repo")
    CHECK.append(chk)
    try:
        mod.run(chk)
    except Overtime:
        chk.und("rest of the check", "", "time budget used up")
    except Exception as e:
        import traceback
        traceback.print_exc()
        chk.und("rest of the check", "", f"internal error: {type(e).__name__}: {e}")
    CHECK.clear()
    return report(chk, mod.META, t0, int(os.environ.get("VERIF_SEED", "1") or 1))


if __name__ == "__main__":
    rc = []

    def go():
        try:
            rc.append(main())
        except BaseException:
            import traceback
            traceback.print_exc()
            rc.append(2)
    t = threading.Thread(target=go)
    t.start()
    # watchdog: a step of the analysis that takes too long is given up as undecided
    thorough = len(sys.argv) > 2 and sys.argv[2] == "thorough"
    step, total = (1200, 7200) if thorough else (120, 500)
    start = time.time()
    while t.is_alive():
        t.join(1)
        if CHECK:
            c, now = CHECK[0], time.time()
            if now - start > total or resident() > 6 << 30:
                c.stop = True
            run = list(c.running)
            if c.stop or run and now - run[-1] > step:
                from core import Overtime
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(Overtime))
                if run:
                    c.running[-1:] = [now]
                t.join(5)
    sys.stdout.flush()
    os._exit(rc[0])
