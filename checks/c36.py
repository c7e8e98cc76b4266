"""C36: plots and comparison utilities show, read and write exactly what they are given."""
import os, shutil, tempfile
import numpy as np
import astropy.units as u
from lib import gen, ref

PID = "C36"
RULE = "distinct figures, files or comparisons"
ASSUMPTIONS = ["matplotlib with the Agg backend; deletions are contained in a scratch directory by a stand-in that records what is outside"]
MONITORS = ["sed_line", "sed_axes", "sed_kwargs", "n_line", "n_axes", "n_default_grid", "untouched", "style", "deviation", "columns", "directory", "neighbours", "only_scratch",
            "comparison_lines", "comparison_file", "comparison_closed", "refused"]


def num(x):
    return np.asarray(getattr(x, "value", x), dtype=float)


def lines(ax):
    return [(num(l.get_xdata(orig=True)), num(l.get_ydata(orig=True)), l) for l in ax.get_lines()]


def has(ax, x, y, rtol=1e-12):
    x, y = num(x), num(y)
    return any(a.shape == x.shape and b.shape == y.shape and np.allclose(a, x, rtol=rtol, atol=0, equal_nan=True) and np.allclose(b, y, rtol=rtol, atol=0, equal_nan=True) for a, b, _ in lines(ax))


def sed(rng, mon, tier):
    import matplotlib.pyplot as plt
    from agnpy.utils.plot import plot_sed, load_mpl_rc
    n = int(rng.integers(2, 80))
    nu = 10 ** rng.uniform(8, 28, n)
    if rng.random() < 0.7:
        nu = np.sort(nu)
    y = 10 ** rng.uniform(-30, -5, n)
    if rng.random() < 0.3:
        y[rng.random(n) < 0.3] = 0
    qn, qy = nu * u.Unit(str(rng.choice(["Hz", "GHz"]))), y * u.Unit(str(rng.choice(["erg cm-2 s-1", "W m-2"])))
    kn, ky = qn.copy(), qy.copy()
    mon.case(n=n, nu0=nu[0], y0=y[0])
    mon.nontrivial = True
    if rng.random() < 0.3:
        load_mpl_rc()
        mon.ok("style", plt.rcParams["font.size"] == 12 and plt.rcParams["xtick.direction"] == style("xtick.direction", plt.rcParams["xtick.direction"]))
    fig, (ax, other) = plt.subplots(2)
    plt.sca(ax)
    other.loglog([1, 2], [3, 4])
    kw = {}
    if rng.random() < 0.5:
        kw.update(color="crimson", linewidth=float(rng.uniform(1, 5)))
    if rng.random() < 0.5:
        kw.update(label=f"sed {n}")
    own = rng.random() < 0.6
    mon.feature("ax" if own else "gca", "label" if "label" in kw else "nolabel")
    got = plot_sed(qn, qy, ax=ax, **kw) if own else plot_sed(qn, qy, **kw)
    mon.ok("sed_axes", got is ax and ax.get_xscale() == "log" and ax.get_yscale() == "log" and "nu" in ax.get_xlabel() and "F_" in ax.get_ylabel(), x=ax.get_xlabel(), y=ax.get_ylabel())
    mon.ok("sed_line", len(ax.get_lines()) == 1 and has(ax, qn, qy))
    l = ax.get_lines()[0]
    if "color" in kw:
        mon.ok("sed_kwargs", l.get_color() == "crimson" and l.get_linewidth() == kw["linewidth"])
    mon.ok("sed_kwargs", ("label" not in kw and ax.get_legend() is None) or ("label" in kw and l.get_label() == kw["label"] and ax.get_legend() is not None and [t.get_text() for t in ax.get_legend().get_texts()] == [kw["label"]]))
    plot_sed(qn, 2 * qy, ax=ax)
    mon.ok("sed_line", len(ax.get_lines()) == 2 and has(ax, qn, qy) and has(ax, qn, 2 * qy))
    mon.ok("untouched", np.array_equal(qn.value, kn.value) and np.array_equal(qy.value, ky.value) and qn.unit == kn.unit and len(other.get_lines()) == 1)
    plt.close(fig)


def style(key, default):
    """value of the style file shipped"""
    import matplotlib as mpl
    import agnpy.utils
    f = os.path.join(os.path.dirname(agnpy.utils.__file__), "matplotlibrc")
    return mpl.rc_params_from_file(f, use_default_template=False).get(key, default)


def rc(rng, mon, tier):
    import matplotlib as mpl
    import agnpy.utils
    from agnpy.utils.plot import load_mpl_rc
    f = os.path.join(os.path.dirname(agnpy.utils.__file__), "matplotlibrc")
    want = mpl.rc_params_from_file(f, use_default_template=False)
    keys = sorted(want)
    mon.case(n=len(keys), k=int(rng.integers(10**6)))
    mon.nontrivial = True
    with mpl.rc_context():
        mpl.rcdefaults()
        base = dict(mpl.rcParams)
        load_mpl_rc()
        skip = set(mpl.style.core.STYLE_BLACKLIST)
        bad = [k for k in mpl.rcParams if k not in skip and str(mpl.rcParams[k]) != str(want[k] if k in want else base[k])]
        mon.ok("style", not bad and len(keys) > 3, bad=bad[:4])


def density(rng, mon, tier):
    import matplotlib.pyplot as plt
    par = gen.spectrum(rng)
    n_e = gen.build(par)
    mon.case(par=par)
    mon.nontrivial = True
    g = 10 ** rng.uniform(0, 8, int(rng.integers(3, 50)))
    if rng.random() < 0.6:
        g = np.sort(g)
    p = float(rng.choice([0, 0, 1, 2, 3, rng.uniform(-1, 4)]))
    if p == int(p):
        p = int(p)
    kg = g.copy()
    fig, (ax, other) = plt.subplots(2)
    plt.sca(ax)
    own, default = rng.random() < 0.6, rng.random() < 0.3
    mon.feature(par["type"], f"power{p if isinstance(p, int) else 'f'}", "ax" if own else "gca")
    args = {} if default else {"gamma": g}
    if p or rng.random() < 0.5:
        args["gamma_power"] = p
    if own:
        args["ax"] = ax
    got = n_e.plot(color="crimson", **args)
    x = np.logspace(0, 8, 200) if default else g
    y = np.power(x, float(p)) * num(n_e(x))
    mon.ok("n_default_grid" if default else "n_line", len(ax.get_lines()) == 1 and has(ax, x, y, 1e-10), got=[str(l[1][:3]) for l in lines(ax)], want=str(y[:3]))
    mon.ok("n_axes", got is ax and ax.get_xscale() == "log" and ax.get_yscale() == "log" and "gamma" in ax.get_xlabel() and "gamma" in ax.get_ylabel() and ax.get_lines()[0].get_color() == "crimson")
    mon.ok("n_axes", (p == 0) or (str(p) in ax.get_ylabel()), label=ax.get_ylabel())
    mon.ok("untouched", np.array_equal(g, kg) and len(other.get_lines()) == 0)
    plt.close(fig)


def deviation(rng, mon, tier):
    from agnpy.utils.validation_utils import check_deviation
    n = int(rng.integers(1, 60))
    x = np.sort(10 ** rng.uniform(8, 28, n))
    y = 10 ** rng.uniform(-30, 5, n)
    rtol = float(rng.uniform(0.01, 0.6))
    dev = rng.uniform(-1.5 * rtol, 1.5 * rtol, n) if rng.random() < 0.5 else rng.uniform(-0.98 * rtol, 0.98 * rtol, n)
    if n > 1 and rng.random() < 0.5:
        dev[int(rng.integers(n))] = float(rng.choice([-1, 1])) * rtol * 1.05
    c = y * (1 + dev)
    lo, hi = sorted(rng.choice(x, 2)) if rng.random() < 0.7 else sorted(10 ** rng.uniform(8, 28, 2))
    rg = None if rng.random() < 0.3 else [float(lo), float(hi)]
    mon.case(n=n, rtol=rtol, rg=rg)
    mon.nontrivial = True
    ux, uy = (u.Hz, u.Unit("erg cm-2 s-1")) if rng.random() < 0.5 else (1, 1)
    kx, ky, kc = x.copy(), y.copy(), c.copy()
    s = np.ones(n, bool) if rg is None else (x >= rg[0]) & (x <= rg[1])
    want = bool(np.all(np.abs(dev[s]) <= rtol))
    if np.any(np.abs(np.abs(dev[s]) / rtol - 1) < 1e-9):
        return
    mon.feature("inside" if want else "deviates", "range" if rg else "all")
    # compared on x and y without units, with the limits in those of x, or as quantities
    got = check_deviation(x * ux, c * uy, y * uy, rtol, None if rg is None else [v * ux for v in rg])
    mon.ok("deviation", bool(got) == want, got=bool(got), want=want)
    mon.ok("untouched", np.array_equal(x, kx) and np.array_equal(y, ky) and np.array_equal(c, kc))


def contained(fn, scratch):
    """runs fn with the calls that destroy files confined to the scratch directory; returns what they were asked to destroy"""
    import pathlib
    asked = []
    names = [(shutil, "rmtree"), (shutil, "move"), (os, "remove"), (os, "unlink"), (os, "rmdir"), (os, "rename"), (os, "replace"), (os, "removedirs"), (os, "system")]
    old = {(m, n): getattr(m, n) for m, n in names}
    inside = [0]

    def guard(m, n):
        def call(p, *a, **k):
            if inside[0]:
                return old[m, n](p, *a, **k)
            full = os.path.realpath(str(p))
            asked.append(full)
            if not full.startswith(scratch + os.sep) or n == "system":
                return None
            inside[0] += 1
            try:
                return old[m, n](p, *a, **k)
            finally:
                inside[0] -= 1
        return call
    for m, n in names:
        setattr(m, n, guard(m, n))
    try:
        return fn(), asked
    finally:
        for m, n in names:
            setattr(m, n, old[m, n])


def tree(root):
    out = {}
    for d, _, files in os.walk(root):
        out[os.path.relpath(d, root)] = None
        for f in files:
            out[os.path.relpath(os.path.join(d, f), root)] = open(os.path.join(d, f)).read()
    return out


def folders(rng, mon, tier):
    from pathlib import Path
    from agnpy.utils.validation_utils import clean_and_make_dir
    scratch = os.path.realpath(tempfile.mkdtemp(prefix="c36_"))
    try:
        main = os.path.join(scratch, "a", "main")
        os.makedirs(os.path.join(main, "keep"))
        for f in ("a/top.txt", "a/main/x.txt", "a/main/keep/y.txt"):
            open(os.path.join(scratch, f), "w").write(f)
        sub = str(rng.choice(["figures", "fig/deep", "keep", "new.d"])) if rng.random() < 0.7 else None
        exists = rng.random() < 0.6
        target = main if sub is None else os.path.join(main, sub)
        if exists:
            os.makedirs(os.path.join(target, "old"), exist_ok=True)
            open(os.path.join(target, "old", "z.txt"), "w").write("z")
        if sub is None and rng.random() < 0.3:
            main = target = os.path.join(scratch, "not", "there")
        before = tree(scratch)
        aspath = rng.random() < 0.5
        mon.case(sub=sub, exists=exists, path=aspath, main=main[len(scratch):])
        mon.nontrivial = True
        mon.feature("sub" if sub else "main", "existing" if exists else "new", "path" if aspath else "str")
        arg = Path(main) if aspath else main
        got, asked = contained(lambda: clean_and_make_dir(arg) if sub is None and rng.random() < 0.5 else clean_and_make_dir(arg, sub), scratch)
        after = tree(scratch)
        rel = os.path.relpath(target, scratch)
        mon.ok("directory", os.path.realpath(str(got)) == target and os.path.isdir(target) and os.listdir(target) == [], got=str(got))
        inside = lambda p: p == rel or p.startswith(rel + os.sep)
        mon.ok("neighbours", all(p in after and after[p] == v for p, v in before.items() if not inside(p)), lost=[p for p in before if p not in after and not inside(p)][:3])
        mon.ok("neighbours", all(p in before or inside(p) or rel.startswith(p + os.sep) for p in after))
        mon.ok("only_scratch", all(p == target or p.startswith(target + os.sep) for p in asked), asked=asked[:3])
        bad = [3, None, [main], b"x"][int(rng.integers(4))]
        mon.ok("refused", contained(lambda: refused(clean_and_make_dir, bad), scratch)[0])
    finally:
        shutil.rmtree(scratch)


def refused(fn, bad):
    try:
        fn(bad)
    except TypeError:
        return True
    return False


def columns(rng, mon, tier):
    from agnpy.utils.validation_utils import extract_columns_sample_file
    d = tempfile.mkdtemp(prefix="c36_")
    try:
        n = int(rng.integers(2, 40))
        x, y = 10 ** rng.uniform(-20, 28, n), rng.normal(size=n) * 10 ** rng.uniform(-20, 5, n)
        f = os.path.join(d, "sample.csv")
        rows = ["# x, y"] + [f"{a!r},{b!r}" + (f", {a * 2!r}" if False else "") for a, b in zip(x.tolist(), y.tolist())]
        rows.insert(int(rng.integers(1, len(rows))), "# a comment")
        text = "\n".join(rows) + "\n"
        open(f, "w").write(text)
        xu, yu = str(rng.choice(["Hz", "eV", "", "cm"])), None if rng.random() < 0.4 else str(rng.choice(["erg cm-2 s-1", "W m-2", ""]))
        mon.case(n=n, xu=xu, yu=yu, x0=x[0])
        mon.nontrivial = True
        a, b = extract_columns_sample_file(f, xu) if yu is None and rng.random() < 0.5 else extract_columns_sample_file(f, xu, yu)
        mon.ok("columns", a.unit == u.Unit(xu) and np.array_equal(a.value, x) and np.array_equal(num(b), y) and (getattr(b, "unit", None) == (None if yu is None else u.Unit(yu))))
        mon.ok("untouched", open(f).read() == text)
    finally:
        shutil.rmtree(d)


def drawn(by, label, x, y):
    l = by.get(label)
    return l is not None and np.array_equal(num(l.get_xdata(orig=True)), x.value) and np.array_equal(num(l.get_ydata(orig=True)), y.value)


def comparison(rng, mon, tier):
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    from agnpy.utils.validation_utils import make_comparison_plot
    d = tempfile.mkdtemp(prefix="c36_")
    n = int(rng.integers(2, 30))
    nu = np.sort(10 ** rng.uniform(8, 28, n)) * u.Hz
    kind = str(rng.choice(["sed", "tau", "u"]))
    un = u.Unit("erg cm-2 s-1") if kind == "sed" else u.Unit("")
    y, r = 10 ** rng.uniform(-14, -9, n) * un, 10 ** rng.uniform(-14, -9, n) * un
    keep = [q.copy() for q in (nu, y, r)]
    kw = {}
    if rng.random() < 0.5:
        kw.update(y_range=[1e-15, 1e-8])
    if rng.random() < 0.5:
        kw.update(comparison_range=[1e10, 1e20])
    if kind == "u" and rng.random() < 0.7:
        kw.update(x_label="xx", y_label="yy")
    x2, y2 = np.sort(10 ** rng.uniform(8, 28, 5)) * u.Hz, 10 ** rng.uniform(-14, -9, 5) * un
    second = rng.random() < 0.5
    if second:
        kw.update(second_ref_x=x2, second_ref_y=y2, second_ref_label="second")
    mon.case(n=n, kind=kind, kw=sorted(kw), nu0=nu[0].value)
    mon.nontrivial = True
    mon.feature(kind, *kw)
    seen = []
    save = Figure.savefig
    paths = []

    def spy(self, fname, *a, **k):
        seen.append(self)
        paths.append(str(fname))
        return save(self, fname, *a, **k)
    opened = set(plt.get_fignums())
    Figure.savefig = spy
    try:
        path = os.path.join(d, "fig.png")
        make_comparison_plot(nu, y, r, "agnpy", "reference", "the title", path, kind, **kw)
        mon.ok("comparison_file", paths == [path] and os.path.getsize(path) > 1000 and os.listdir(d) == ["fig.png"], paths=paths)
        mon.ok("comparison_closed", set(plt.get_fignums()) == opened)
        top, bottom = seen[0].axes[:2]
        mon.ok("comparison_lines", has(top, nu, y) and has(top, nu, r) and has(bottom, nu, (y / r - 1).to_value("")))
        by = {l.get_label(): l for l in top.get_lines()}
        mon.ok("comparison_lines", drawn(by, "agnpy", nu, y) and drawn(by, "reference", nu, r) and top.get_title() == "the title", labels=sorted(by))
        if second:
            mon.ok("comparison_lines", drawn(by, "second", x2, y2), labels=sorted(by))
        if "y_range" in kw:
            mon.ok("comparison_lines", np.allclose(top.get_ylim(), kw["y_range"], rtol=1e-9, atol=0))
        else:
            lo, hi = top.get_ylim()
            mon.ok("comparison_lines", lo <= min(y.value.min(), r.value.min()) and hi >= max(y.value.max(), r.value.max()))
        if kind != "u":
            mon.ok("comparison_lines", "nu" in bottom.get_xlabel() and ("F_" if kind == "sed" else "tau") in top.get_ylabel(), x=bottom.get_xlabel(), y=top.get_ylabel())
        if len(x2) and top.get_legend() is not None:
            mon.ok("comparison_lines", {t.get_text() for t in top.get_legend().get_texts()} == {"agnpy", "reference"} | ({"second"} if second else set()))
        else:
            mon.ok("comparison_lines", False, why="no legend")
        if "comparison_range" in kw:
            for a in (top, bottom):
                v = sorted(float(l.get_xdata()[0]) for l in a.get_lines() if len(l.get_xdata()) == 2 and l.get_xdata()[0] == l.get_xdata()[1] and l.get_transform() != a.transData)
                mon.ok("comparison_lines", [t for t in v if t in kw["comparison_range"]] == kw["comparison_range"], v=v)
        if "x_label" in kw:
            mon.ok("comparison_lines", bottom.get_xlabel() == "xx" and top.get_ylabel() == "yy")
        mon.ok("untouched", all(np.array_equal(a.value, b.value) for a, b in zip(keep, (nu, y, r))))
    finally:
        Figure.savefig = save
        plt.close("all")
        shutil.rmtree(d)


def setup(tier):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa


KINDS = {"sed": (sed, 60, 800), "rc": (rc, 12, 40), "density": (density, 80, 1200), "deviation": (deviation, 240, 6000), "folders": (folders, 120, 2000), "columns": (columns, 120, 2000),
         "comparison": (comparison, 32, 400)}
