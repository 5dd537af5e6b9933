"""Runs analysis tasks in forked workers, each under a deadline; a task that runs out of time is an abstention."""
import os, signal, sys, time, traceback, multiprocessing as mp


class Deadline(BaseException):
    pass


def _alarm(s, f):
    raise Deadline()


_TASKS = None


def _run(k):
    name, fn, pids, limit, Acc = _TASKS[k]
    acc = Acc()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    t = time.time()
    try:
        fn(acc)
    except Deadline:
        for p in pids:
            acc.a(p, name, "out of time")
    except RecursionError:
        for p in pids:
            acc.a(p, name, "recursion limit")
    except MemoryError:
        for p in pids:
            acc.a(p, name, "out of memory")
    except Exception as ex:
        # an internal failure of the analysis on this instance: no verdict about it
        tb = traceback.format_exc().strip().splitlines()
        for p in pids:
            acc.a(p, name, "internal: %s: %s (%s)" % (type(ex).__name__, ex, tb[-3].strip() if len(tb) > 2 else ""))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    acc.time = time.time() - t
    return acc


def run(tasks, Acc, limit=150, procs=None):
    """tasks: (name, fn(acc), pids)"""
    global _TASKS
    _TASKS = [(n, f, p, limit, Acc) for n, f, p in tasks]
    total = Acc()
    if not tasks:
        return total
    if os.environ.get("VERIF_SERIAL"):
        for k in range(len(tasks)):
            total.merge(_run(k))
        return total
    ctx = mp.get_context("fork")
    with ctx.Pool(min(procs or os.cpu_count() or 4, len(tasks)), maxtasksperchild=None) as pool:
        for a in pool.imap_unordered(_run, range(len(tasks)), chunksize=1):
            total.merge(a)
    return total
