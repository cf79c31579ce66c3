"""One forked process per job, no threads: a worker that dies or gets stuck becomes a result."""
import os
import pickle
import select
import signal
import sys
import time


def run_jobs(fn, jobs, workers, hard_deadline, on_fail):
    """Yields fn(job) for every job in order of completion.  A worker that dies, or is still running at
    hard_deadline (time.monotonic), yields on_fail(job, reason).  close() ends the remaining workers."""
    todo = list(jobs)
    live = {}                   # fd -> [pid, job, chunks]
    try:
        while todo or live:
            while todo and len(live) < workers and time.monotonic() < hard_deadline:
                job = todo.pop(0)
                r, w = os.pipe()
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    for fd in live:
                        os.close(fd)
                    code = 1
                    try:
                        signal.signal(signal.SIGTERM, signal.SIG_DFL)
                        data = pickle.dumps(fn(job))
                        with os.fdopen(w, "wb") as f:
                            f.write(data)
                        code = 0
                    finally:
                        os._exit(code)
                os.close(w)
                live[r] = [pid, job, []]
            if todo and not live:
                for job in todo:
                    yield on_fail(job, "not started: time budget of the check exhausted")
                return
            left = hard_deadline - time.monotonic()
            ready, _, _ = select.select(list(live), [], [], max(0.0, min(left, 5.0)))
            done = []
            for fd in ready:
                chunk = os.read(fd, 1 << 20)
                if chunk:
                    live[fd][2].append(chunk)
                else:
                    done.append(fd)
            for fd in done:
                pid, job, chunks = live.pop(fd)
                os.close(fd)
                _, st = os.waitpid(pid, 0)
                try:
                    res = pickle.loads(b"".join(chunks))
                except Exception:           # noqa
                    res = on_fail(job, "worker ended without a result (status %d)" % st)
                yield res
            if time.monotonic() >= hard_deadline:
                for fd in list(live):
                    pid, job, _ = live.pop(fd)
                    os.close(fd)
                    _end(pid)
                    yield on_fail(job, "stopped at the time limit of the check")
    finally:
        for fd, (pid, _, _) in live.items():
            os.close(fd)
            _end(pid)


def _end(pid):
    try:
        os.kill(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    os.waitpid(pid, 0)
