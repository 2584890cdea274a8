"""Run independent analysis cases on all cores (fork; results must pickle)."""
import multiprocessing
import os

_FN = None


def _run(chunk):
    return [_FN(c) for c in chunk]


def pmap(fn, cases, procs=None):
    global _FN
    cases = list(cases)
    procs = procs or min(8, os.cpu_count() or 1)
    if procs <= 1 or len(cases) < 16 or os.environ.get("SA_DEBUG"):
        return [fn(c) for c in cases]
    _FN = fn
    n = max(1, len(cases) // (procs * 6))
    chunks = [cases[i:i + n] for i in range(0, len(cases), n)]
    with multiprocessing.get_context("fork").Pool(procs) as p:
        out = p.map(_run, chunks, 1)
    return [r for c in out for r in c]
