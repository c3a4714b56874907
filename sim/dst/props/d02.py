"""D02: ensemble reordering keeps the calibrated values and the ranks of the raw ensemble, for any random stream."""
import numpy as np

from .. import ecc, fx
from .. import workload as W
from ..core import Unsupported, Violation, unsupported, where
from ..sched import Patcher

RUNS = {"quick": 500, "thorough": 200000}
BATCH = 40
TECHNIQUE = "simulated ensembles with seeded ties and masks reordered under seeded and adversarial random streams, judged by a small reference model of copula coupling"
RULE = ("Each run reorders a generated calibrated forecast by a generated raw ensemble (1-36, sometimes 140 members, fewer or more percentiles than members, several times, dimension orders, masks, ties of every degree) "
        "under 3-8 random streams: seeds, unseeded, and streams that return constant, descending, repeated or extreme draws; every point of every result is checked against the model, and the tie-breaking frequencies over all streams.")
STATE_MEASURE = "hash of (shape, ties, mask, random stream)"
REAL = ["improver.ensemble_copula_coupling: EnsembleReordering, RebadgePercentilesAsRealizations", "numpy random generators"]
STUB = ["iris (stand-in)", "adversarial random streams", "entropy of the operating system (drawn from the seed)"]
KINDS = ("zero", "same", "descending", "two", "tiny", "one")


def prepare():
    W.load_all()


def generate(rng, idx, tier):
    s = ecc.spec(rng, rng.random() < 0.1)
    if rng.random() < 0.15:
        s.update(m=3, p=0, ties=1, ny=10, nx=12, mask=None, times=0, order=0, calties=None)  # every member tied: the draw alone decides
    elif rng.random() < 0.02:
        s.update(m=140, p=0, ny=1, nx=2, mask=None, times=0, order=0, ties=rng.choice([None, "near", 4]))
    st = [{"seed": rng.choice([0, 1, 7, 12345, rng.randrange(2 ** 31)])}, {"seed": None, "entropy": rng.randrange(10 ** 6)}]
    for _ in range(rng.choice([1, 2, 4, 6])):
        k = rng.random()
        st.append({"seed": rng.randrange(1000)} if k < 0.4 else {"seed": rng.choice([None, 5]), "stub": rng.choice(KINDS), "entropy": rng.randrange(10 ** 6)})
    return {"spec": s, "streams": st, "random": rng.random() < 0.2, "damage": rng.choice([None] * 9 + ["raw-mask", "mask-differs"])}


def shrink(p):
    for i in range(len(p["streams"])):
        if len(p["streams"]) > 1:
            yield dict(p, streams=p["streams"][:i] + p["streams"][i + 1:])
    s = p["spec"]
    for k, v in (("times", 0), ("mask", None), ("order", 0), ("timefirst", False), ("ny", 1), ("nx", 2), ("p", 0), ("ties", None), ("calties", None), ("first", 0), ("m", 2)):
        if s[k] != v:
            yield dict(p, spec=dict(s, **{k: v}))


class Streams:
    """np.random.RandomState / default_rng: unseeded ones from the plan, draws replaced for adversarial streams."""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        self.P = Patcher()
        real, rng = np.random.RandomState, np.random.default_rng
        s = self.s
        self.used = 0
        me = self

        class State(real):
            def __init__(self, seed=None):
                me.used += 1
                if seed is None:
                    seed = s.get("entropy", 1)
                real.__init__(self, seed)

            def rand(self, *shape):
                return me.draw(real.rand(self, *shape))

            def random_sample(self, size=None):
                return me.draw(real.random_sample(self, size))

            def uniform(self, low=0.0, high=1.0, size=None):
                return low + (high - low) * me.draw(real.random_sample(self, size))

        self.P.set(np.random, "RandomState", State)
        self.P.set(np.random, "default_rng", lambda x=None: rng(s.get("entropy", 1) if x is None else x))
        return self

    def draw(self, x):
        k = self.s.get("stub")
        if k is None or not isinstance(x, np.ndarray):
            return x
        if k in ("zero", "same"):
            return np.full(x.shape, 0.0 if k == "zero" else 0.5)
        if k == "descending":
            return np.linspace(1, 0, x.size, endpoint=False).reshape(x.shape)
        if k == "two":
            return np.where(x < 0.5, 0.25, 0.75)
        if k == "tiny":
            return x * 1e-300
        return 1.0 - x * 1e-12

    def __exit__(self, *a):
        self.P.undo()


def reorder(plan, s, ref=None):
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import EnsembleReordering

    raw, cal = ecc.build(plan["spec"])
    damage(plan, raw, cal)
    np.random.seed(s.get("entropy", 3))
    with Streams(s):
        before = values(raw) + values(cal)
        try:
            got = ("ok", EnsembleReordering()(cal, raw, random_ordering=plan["random"], random_seed=s["seed"]))
        except Exception as e:
            if unsupported(e) or W.signature_problem(e):
                raise
            return ("exc", e)
    if before != values(raw) + values(cal):
        raise Violation("input-changed", "%s: the values of an input are not what they were" % (plan["spec"],))
    return got


def values(c):
    """Every value with its mask, whatever the order of the dimensions."""
    d = c.data
    return [np.sort(np.ma.getdata(d)[~np.ma.getmaskarray(d)]).tobytes(), c.name(), str(c.units), sorted(c.shape)]


def damage(plan, raw, cal):
    d = plan["damage"]
    if d is None:
        return False
    k = np.zeros(raw.shape, bool)
    k[..., 0] = True
    raw.data = np.ma.masked_array(raw.data, k)
    if d == "raw-mask":
        cal.data = np.ma.getdata(cal.data)
    else:
        k = np.zeros(cal.shape, bool)
        k[..., -1] = True
        cal.data = np.ma.masked_array(np.ma.getdata(cal.data), k)
    return True


def execute(plan, st):
    s = plan["spec"]
    raw, cal = ecc.build(s)
    bad = damage(plan, raw, cal)
    m, p = s["m"], s["p"] or s["m"]
    R, C = ecc.leading(raw, "realization"), ecc.leading(cal, "percentile")
    R = np.ma.getdata(R)[[i % m for i in range(p)]]
    mask = np.ma.getmaskarray(C)
    C = np.ma.getdata(C)
    counts = np.zeros((p, p), int)
    outs = {}
    for i, x in enumerate(plan["streams"]):
        what = "stream %s of %s" % (x, s)
        kind, got = reorder(plan, x)
        st.op("reorder")
        st.state(m, p, s["times"], s["ties"], str(s["mask"]), str(sorted(x.items())), plan["random"])
        st.log("reorder", i, kind, type(got).__name__)
        if x.get("stub"):
            st.fault("stream-" + x["stub"])
        if bad:
            if kind == "ok":
                raise Violation("masks-accepted", "%s with %s: accepted" % (what, plan["damage"]))
            st.probe("rejected")
            continue
        if kind == "exc":
            raise Violation("rejected", "%s: %s: %s (%s)" % (what, type(got).__name__, got, where(got)))
        G = ecc.leading(got, "realization")
        gm = np.ma.getmaskarray(G)
        if G.shape != C.shape:
            raise Violation("shape", "%s: %s for a forecast of %s" % (what, G.shape, C.shape))
        if (gm != mask).any():
            raise Violation("mask", "%s: %d masked values, %d in the calibrated forecast" % (what, gm.sum(), mask.sum()))
        if got.dtype != cal.dtype:
            raise Violation("dtype", "%s: %s" % (what, got.dtype))
        G = np.ma.getdata(G)
        ok = ~mask.any(axis=0)
        d = (np.sort(G, axis=0) != np.sort(C, axis=0)).any(axis=0) & ok
        if d.any():
            j = tuple(int(v[0]) for v in np.nonzero(d))
            raise Violation("values-lost", "%s at %s: %s instead of a permutation of %s" % (what, j, G[(slice(None),) + j], C[(slice(None),) + j]))
        if not plan["random"]:
            # sorted by (raw, result), the results must not fall anywhere
            o = np.lexsort((G, R), axis=0)
            d = (np.diff(np.take_along_axis(G, o, axis=0), axis=0) < 0).any(axis=0) & ok
            if d.any():
                j = tuple(int(v[0]) for v in np.nonzero(d))
                raise Violation("ranks-broken", "%s at %s: raw %s gave %s" % (what, j, R[(slice(None),) + j], G[(slice(None),) + j]))
            plainpts = (np.diff(np.sort(R, axis=0), axis=0) > 0).all(axis=0)
            key = G[:, plainpts & ok]
            if i and not np.array_equal(outs["plain"], key):
                raise Violation("stream-matters", "%s: points without ties differ between random streams" % what)
            outs["plain"] = key
        metadata(got, cal, raw, s, what)
        k = (x["seed"], x.get("stub"), x.get("entropy") if x["seed"] is None else 0)
        if k in outs and not np.array_equal(outs[k], G[:, ok]):
            raise Violation("not-repeatable", "%s: a second reordering with the same stream differs" % what)
        outs[k] = G[:, ok]
        if not x.get("stub") and s["ties"] == 1 and not s["mask"] and s["calties"] is None:
            order = np.argsort(np.argsort(G, axis=0), axis=0)
            for a in range(p):
                counts[a] += np.bincount(order[a].ravel(), minlength=p)[:p]
        st.probe("points", int(ok.sum()))
    n = counts.sum(axis=1)[0] if counts.any() else 0
    if n >= 400 and p > 1:
        # all members tied everywhere: each must get each rank equally often
        e, sd = n / p, (n / p * (1 - 1 / p)) ** 0.5
        d = np.abs(counts - e).max()
        st.probe("tie-frequencies-checked")
        if d > 7 * sd:
            raise Violation("ties-biased", "%s: of %d tied draws members got ranks %s" % (s, n, counts.tolist()))


def metadata(got, cal, raw, s, what):
    if got.name() != cal.name() or str(got.units) != str(cal.units):
        raise Violation("metadata", "%s: %s in %s" % (what, got.name(), got.units))
    if dict(got.attributes) != dict(cal.attributes):
        raise Violation("metadata", "%s: attributes %s" % (what, dict(got.attributes)))
    a = sorted((c.name(), c.points.tolist()) for c in got.coords() if c.name() != "realization")
    b = sorted((c.name(), c.points.tolist()) for c in cal.coords() if c.name() != "percentile")
    if a != b:
        raise Violation("metadata", "%s: coordinates %s, in the calibrated forecast %s" % (what, a, b))
    p = s["p"] or s["m"]
    if got.coord("realization").points.tolist() != [s["first"] + i for i in range(p)]:
        raise Violation("metadata", "%s: realizations %s" % (what, got.coord("realization").points.tolist()))
