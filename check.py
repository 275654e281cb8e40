#!/usr/bin/env python3
"""check.py <property> [search prefix]: builds what the property's check needs from /repo's working tree and runs it.
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Evidence goes to evidence/<property>.json."""
import os, signal, subprocess, sys, tempfile, shutil, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B

NEED = {"C14": {"vh", "vh-tsan", "server", "server-tsan"}, "C15": {"vh", "vh-asan", "server", "server-asan"}, "C16": {"vh", "server"},
        "C17": {"vh", "vh-asan", "server-asan"}, "C18": {"vh", "vh-asan", "server", "server-asan"}, "C20": {"vh", "server", "server-asan"}}
RUNNER = {"C14": "vh-tsan", "C15": "vh-asan", "C18": "vh-asan", "C17": "vh-asan"}

def roomy():
    """A folder in memory for the cache files the cases write, if there is one with room; /tmp otherwise."""
    try:
        v = os.statvfs("/dev/shm")
        if os.access("/dev/shm", os.W_OK) and v.f_bavail * v.f_frsize > 4 << 30 and (v.f_files == 0 or v.f_favail > 100000): return "/dev/shm"
    except OSError: pass
    return "/tmp"


def main():
    pid = sys.argv[1]; t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    need = NEED.get(pid, {"vh", "server"})
    bins = B.build(need)
    print("[%s] built in %.0f s: %s" % (pid, time.time() - t0, ", ".join(sorted(k for k, v in bins.items() if v))), flush=True)
    vh = bins.get(RUNNER.get(pid, "vh")) or bins.get("vh")
    if not vh: print("the harness does not build against this tree", file=sys.stderr); return 2
    if not any(v for k, v in bins.items() if k.startswith("server")): print("the server does not build from this tree", file=sys.stderr); return 2
    scratch = tempfile.mkdtemp(prefix="trv-", dir=roomy())
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    env = dict(os.environ, TRV_SCRATCH=scratch, TRV_REPLAYS=os.path.join(HERE, "replays"), TRV_KNOWN=os.path.join(HERE, "known-findings.txt"),
               TRV_EVIDENCE=os.path.join(HERE, "evidence", pid + ".json"), VERIF_TIER=tier, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    for k, n in (("TRV_SERVER", "server"), ("TRV_SERVER_ASAN", "server-asan"), ("TRV_SERVER_TSAN", "server-tsan"), ("TRV_VH_TSAN", "vh-tsan")):
        env[k] = bins.get(n) or ""
    p = subprocess.Popen([vh, "check", *sys.argv[1:]], env=env, start_new_session=True)
    try:
        r = p.wait()
    finally:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        shutil.rmtree(scratch, ignore_errors=True)
    return r if r in (0, 1) else 2

sys.exit(main())
