"""Select a compact corpus of module-level function calls from harvested records (development only)."""
import collections, glob, hashlib, importlib, pickle, sys, time, zlib

src, out = sys.argv[1:3]
NOK, NBAD, BUDGET = 5, 2, 60000
recs = collections.defaultdict(dict)
for f in sorted(glob.glob(src + "/*.pkl")):
    for p, l in pickle.load(open(f, "rb")).items():
        for ok, dt, blob in l:
            recs[p][blob] = (ok, dt)
corpus = {}
for p in sorted(recs):
    ok_, bad = [], []
    mod, name = p.rsplit(".", 1)
    fn = getattr(importlib.import_module(mod), name)
    for blob, (ok, dt) in recs[p].items():
        if dt > 0.6 or len(blob) > BUDGET:
            continue
        try:
            a, k = pickle.loads(pickle.loads(blob)[1])
        except Exception:
            continue
        t = time.perf_counter()
        try:
            fn(*a, **k)
            good = True
        except Exception as e:
            if "Unsupported" in type(e).__name__ or isinstance(e, ImportError):
                continue
            good = False
        if good != ok or time.perf_counter() - t > 0.8:
            continue
        (ok_ if ok else bad).append((hashlib.md5(blob).hexdigest(), blob))
    ok_.sort(); bad.sort()
    chosen, size = [], 0
    for _, b in ok_:
        if len(chosen) < NOK and (size + len(b) < BUDGET or not chosen):
            chosen.append(b); size += len(b)
    corpus[p] = {"ok": chosen, "bad": [b for _, b in bad[:NBAD]]}
    if not chosen and not bad:
        del corpus[p]; continue
    print(p, len(chosen), len(bad[:NBAD]), size)
open(out, "wb").write(zlib.compress(pickle.dumps(corpus, 2), 9))
