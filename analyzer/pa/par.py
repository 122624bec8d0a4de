"""Fork-based map: items are analysed in child processes sharing the loaded program."""
import os
import pickle
import traceback


def pmap(fn, items, workers=8):
    items = list(items)
    if len(items) <= 1:
        return [fn(x) for x in items]
    out = [None] * len(items)
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    global _FN, _ITEMS
    _FN, _ITEMS = fn, items
    with ctx.Pool(min(workers, len(items))) as pool:
        for i, (ok, v) in pool.imap_unordered(_run, range(len(items)), chunksize=1):
            if not ok:
                pool.terminate()
                raise RuntimeError("analysis of item %r failed:\n%s" % (items[i], v))
            out[i] = v
    return out


_FN = None
_ITEMS = None


def _run(i):
    try:
        return i, (True, _FN(_ITEMS[i]))
    except Exception:
        return i, (False, traceback.format_exc())
