"""A small process pool that knows which case each worker is running, so that
a worker that dies (native crash) or stops answering is attributed to its
case instead of failing the whole run."""
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import signal
import time


def _worker(conn, fn):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            return
        conn.send(fn(job))


class Died(Exception):
    pass


def run_cases(fn, jobs, nproc=8, watchdog=180, deadline=None, on_result=None,
              stop=None):
    """Yields nothing; calls on_result(job, kind, payload) with kind in
    'ok' (payload: fn's result), 'died' (payload: exit code) and
    'hang' (payload: seconds).  Returns the number of jobs not started."""
    ctx = mp.get_context('fork')
    jobs = list(jobs)
    pos = 0
    live = {}

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, fn), daemon=True)
        p.start()
        b.close()
        return a, p

    idle = [start() for _ in range(min(nproc, len(jobs)))]
    while True:
        while idle and pos < len(jobs) and not (
                deadline and time.monotonic() > deadline) and not (
                stop and stop()):
            a, p = idle.pop()
            a.send(jobs[pos])
            live[a] = (p, jobs[pos], time.monotonic())
            pos += 1
        if not live:
            break
        ready = mpc.wait(list(live), timeout=1.0)
        for a in ready:
            p, job, t0 = live.pop(a)
            try:
                res = a.recv()
            except (EOFError, ConnectionResetError):
                p.join(10)
                on_result(job, 'died', p.exitcode)
                idle.append(start())
                continue
            on_result(job, 'ok', res)
            idle.append((a, p))
        now = time.monotonic()
        for a in [a for a, v in live.items() if now - v[2] > watchdog]:
            p, job, t0 = live.pop(a)
            os.kill(p.pid, signal.SIGKILL)
            p.join(10)
            on_result(job, 'hang', now - t0)
            idle.append(start())
    for a, p in idle:
        try:
            a.send(None)
        except (BrokenPipeError, OSError):
            pass
    for a, p in idle:
        p.join(5)
        if p.is_alive():
            p.kill()
    return len(jobs) - pos
