"""Runs numbered jobs on all cores until a deadline."""
import multiprocessing as mp
import os
import queue
import signal
import time
import traceback

CORES = max(1, min(8, os.cpu_count() or 1))


def run(fn, deadline, limit=None, workers=None, enough=None, first=None):
    """Calls fn(0), fn(1), ... in parallel processes until the deadline has
    passed, limit jobs are done, or enough(results) says so.  The first `first`
    jobs are done even if the deadline passes meanwhile.
    -> list of results (None for a job that raised; its traceback is kept
    in run.errors)."""
    n = workers or CORES
    ctx = mp.get_context("fork")
    counter = ctx.Value("l", 0)
    stop = ctx.Event()
    out = ctx.Queue()

    def work():
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        try:
            while not stop.is_set():
                with counter.get_lock():
                    i = counter.value
                    if limit is not None and i >= limit:
                        break
                    if time.time() >= deadline and not (first is not None and i < first):
                        break
                    counter.value += 1
                try:
                    out.put((i, fn(i), None))
                except Exception:
                    out.put((i, None, traceback.format_exc()))
        finally:
            out.put(None)

    procs = [ctx.Process(target=work) for _ in range(n)]
    for p in procs:
        p.start()
    results, errors = [], []
    alive = n
    while alive:
        try:
            x = out.get(timeout=5)
        except queue.Empty:
            if not any(p.is_alive() for p in procs):
                break
            continue
        if x is None:
            alive -= 1
            continue
        i, r, err = x
        if err is not None:
            errors.append((i, err))
        else:
            results.append((i, r))
            if enough is not None and enough(r):
                stop.set()
    for p in procs:
        p.join()
    results.sort(key=lambda x: x[0])
    run.errors = errors
    return [r for _, r in results]


run.errors = []
