"""C08: each evaluation point is computed independently of the others."""
import numpy as np
import astropy.units as u
from lib import gen, ref, catalog

PID = "C08"
RULE = "distinct (configuration, evaluation, batch) with non-null results"
ASSUMPTIONS = ["agreement to 1e-9 (order of the sums); scalar arguments may return an array of one element"]
MONITORS = ["permutation", "single", "split", "duplicates", "padding", "scalar", "shape", "reversed"]
HEAVY = {"ec_disk", "ec_blr", "tau_disk", "tau_blr", "abs_disk", "abs_blr"}


def case(rng, mon, tier):
    w = catalog.World(rng)
    o = w.build()
    c = w.calls(o)
    labs = [str(x) for x in rng.permutation(sorted(c))[:10]]
    mon.case(labels=labs, **w.show())
    for lab in labs:
        f, kind, un = c[lab]
        n = int(rng.integers(2, 9))
        v = w.arg(rng, kind, n)
        run = lambda x: mon.val(lab, f(w.quantity(kind, np.asarray(x))), un)
        base = run(v)
        mon.feature(lab)
        if not mon.ok("shape", base.shape == (n,), label=lab, shape=base.shape):
            continue
        ok = ~np.isnan(base)
        if not np.all(ok):  # no statement about the value here (C31), only about independence
            v, base = v[ok], base[ok]
            n = v.size
            if n < 2:
                continue
        eq = lambda name, got, want: mon.close(name, got, want, 1e-9, catalog.FLOOR.get(un, 0) * 1e-20, label=lab, x=list(v))
        k = rng.permutation(n)
        eq("permutation", run(v[k]), base[k])
        eq("reversed", run(v[::-1]), base[::-1])
        i = int(rng.integers(n))
        eq("single", run(v[i:i + 1]), base[i:i + 1])
        j = int(rng.integers(1, n))
        eq("split", np.concatenate([run(v[:j]), run(v[j:])]), base)
        k = rng.integers(0, n, n + 3)
        eq("duplicates", run(v[k]), base[k])
        # together with many other points
        N = 40 if lab in HEAVY else int(gen.logu(rng, 40, 400 if lab.startswith(("ssc", "ec", "fit")) else 2000))
        extra = w.arg(rng, kind, N)
        j = int(rng.integers(N + 1))
        eq("padding", run(np.concatenate([extra[:j], v, extra[j:]]))[j:j + n], base)
        mon.feature("large_batch" if N > 200 else "batch")
        if kind != "gamma" or lab.startswith("n_"):
            s = f(w.quantity(kind, v)[i])
            s = np.ravel(mon.val(lab, s, un))
            mon.ok("scalar", s.size == 1, label=lab)
            eq("scalar", s, base[i:i + 1])


KINDS = {"pointwise": (case, 80, 3000)}
