"""Concrete search on the natively compiled code, isolated in a child process: finds (and replays) failing inputs."""
import os, json, time, mmap, random, signal, multiprocessing as mp, traceback


def isolated(gen, limit=120):
    """Run generator gen(mark) in a child.  It yields failing-input dicts; mark(d) records the input about to run.
    -> (failure dict | None, number of cases)"""
    from . import report
    if report.QUICK: limit = max(15, min(limit, int(report.START + 760 - time.time())))
    buf = mmap.mmap(-1, 1 << 16)

    def mark(d, n):
        b = json.dumps(d, default=str).encode()[:65000]
        buf.seek(0)
        buf.write(len(b).to_bytes(4, "little") + n.to_bytes(8, "little") + b)

    def child(conn):
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.alarm(limit)
            r = None
            for r in gen(mark): break
            conn.send(r)
        except BaseException:
            conn.send(dict(error=traceback.format_exc(limit=6)))
        conn.close()
        os._exit(0)
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe(False)
    pid = os.fork()
    if pid == 0:
        try: child(b)
        finally: os._exit(1)
    b.close()
    r, got = None, False
    try:
        if a.poll(limit + 10):
            r = a.recv(); got = True
    except EOFError: pass
    try: os.kill(pid, signal.SIGKILL)
    except ProcessLookupError: pass
    _, status = os.waitpid(pid, 0)
    buf.seek(0)
    ln, n = int.from_bytes(buf.read(4), "little"), int.from_bytes(buf.read(8), "little")
    last = json.loads(buf.read(ln)) if ln else {}
    if not got:
        sig = status & 127
        if sig == signal.SIGALRM or sig == 0: last["observed"] = "no answer within %d s" % limit
        else: last["observed"] = "killed by signal %d" % sig
        if sig == signal.SIGALRM and n > 50: return None, n     # merely slow
        return last, n
    if isinstance(r, dict) and "error" in r: raise RuntimeError(r["error"])
    return r, n
