"""Runs a driver with a timeout and ends everything it leaves behind.

usage: vfrun.py <timeout> <program> <args...>
exit: the driver's exit code, 124 on timeout
"""
import ctypes, os, signal, subprocess, sys, time

PR_SET_CHILD_SUBREAPER = 36
ctypes.CDLL(None).prctl(PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0)

def children():
    """pids of all descendants"""
    parent = {}
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                s = open(f"/proc/{p}/stat").read()
                parent[int(p)] = int(s.rsplit(")", 1)[1].split()[1])
            except OSError:
                pass
    me, found, again = os.getpid(), set(), True
    while again:
        again = False
        for p, q in parent.items():
            if p not in found and (q == me or q in found):
                found.add(p); again = True
    return found

def main():
    timeout = float(sys.argv[1])
    p = subprocess.Popen(sys.argv[2:], start_new_session=True)
    try:
        code = p.wait(timeout)
    except subprocess.TimeoutExpired:
        code = 124
    # what is left gets a moment to end by itself
    until = time.time() + (0.3 if code == 0 else 0)
    while True:
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        except ChildProcessError:
            pass
        left = children()
        if not left:
            break
        if time.time() > until:
            for pid in left:
                try: os.kill(pid, signal.SIGKILL)
                except OSError: pass
        time.sleep(0.005)
    sys.exit(code if code >= 0 else 128 - code)

main()
