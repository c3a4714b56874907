"""Select a compact, diverse corpus from harvested records (development only)."""
import collections, glob, pickle, sys, zlib, importlib, hashlib

src, out = sys.argv[1:3]
NOK, NBAD, BUDGET = 10, 3, 220000
recs = collections.defaultdict(dict)
for f in sorted(glob.glob(src + "/*.pkl")):
    r, _ = pickle.load(open(f, "rb"))
    for p, l in r.items():
        for ok, dt, blob in l:
            recs[p][blob] = (ok, dt)
corpus = {}
for p in sorted(recs):
    groups = collections.defaultdict(list)
    bad = []
    for blob, (ok, dt) in recs[p].items():
        path, init, args = pickle.loads(blob)
        if dt > 0.6:
            continue
        mod, cls = path.rsplit(".", 1)
        c = getattr(importlib.import_module(mod), cls)
        try:
            a, k = pickle.loads(init)
            inst = c(*a, **k)
            ca, ck = pickle.loads(args)
        except Exception:
            continue
        if ok:
            try:
                inst.process(*ca, **ck)
            except Exception as e:
                continue
            groups[init].append((len(blob), blob))
        else:
            try:
                inst.process(*ca, **ck)
                continue
            except Exception as e:
                if "Unsupported" in type(e).__name__ or isinstance(e, ImportError):
                    continue
            bad.append((len(blob), blob))
    # round-robin over distinct constructor arguments, with spread over sizes
    chosen, size = [], 0
    order = sorted(groups, key=lambda g: hashlib.md5(g).hexdigest())
    for g in order:
        groups[g].sort()
    rnd = 0
    while len(chosen) < NOK and any(groups.values()):
        for g in order:
            if groups[g] and len(chosen) < NOK:
                l = groups[g]
                item = l.pop(0 if rnd % 2 == 0 else len(l) // 2)
                if size + item[0] < BUDGET or len(chosen) < 2:
                    chosen.append(item[1]); size += item[0]
        rnd += 1
    bad.sort()
    corpus[p] = {"ok": chosen, "bad": [b for _, b in bad[:NBAD]]}
    print(p, len(chosen), len(corpus[p]["bad"]), size)
open(out, "wb").write(zlib.compress(pickle.dumps(corpus, 2), 9))
