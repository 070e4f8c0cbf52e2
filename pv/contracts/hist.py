"""P26: import of histograms."""
from ..lib import *
from .cycle import func, same_rest

CC = "py_fatigue.cycle_count.cycle_count:"
IMPORT = [CC + "CycleCount.from_rainflow", CC + "_build_input_data_from_json", CC + "_assess_json_keys"]


def flat_dict(I, old_keys):
    lb, w = real(I, "lower_bound"), real(I, "width")
    pre(I, w.v > 0)
    nh, nl, nr = (length(I, x) for x in ("cells", "large", "half"))
    h, lg, res = (arr(I, x, n, kind="list") for x, n in (("hist", nh), ("lg_c", nl), ("res", nr)))
    small = real(I, "small_cycles")
    d = {"hist": h, "lg_c": lg, "res": res, "bin_lb" if old_keys else "range_bin_lower_bound": lb,
         "bin_width" if old_keys else "range_bin_width": w, "no_sm_c" if old_keys else "nr_small_cycles": small}
    return d, (lb, w, nh, nl, nr, h._get, lg._get, res._get, small)


def without_means(I, old_keys):
    d, (lb, w, nh, nl, nr, h, lg, res, small) = flat_dict(I, old_keys)
    f = kept(I, nh, lambda k: bnot(req(num(h(k)).v, 0)))
    total = f.m + nl + nr
    pre(I, total > 0)
    r = imported(I, d)
    cnt, rg, mn = (as1d(I, I.getattr(r, x)) for x in ("count_cycle", "stress_range", "mean_stress"))
    ensure(I, "number of cycles", band(req(cnt.n, total), req(rg.n, total), req(mn.n, total)))
    j, c = generic(I, f.m, "j")
    ensure(I, "cells: counts", bimp(c, same(num(cnt.get(j)), num(h(f.idx(j))))))
    centre = zr(lb.v) + zr(w.v) * (z3.ToReal(f.idx(j)) + z3.RealVal("1/2"))
    ensure(I, "cells: ranges", bimp(c, within(num(rg.get(j)), centre)))
    j, c = generic(I, nl, "j")
    ensure(I, "large cycles", bimp(c, band(same(num(cnt.get(f.m + j)), num(1)), same(num(rg.get(f.m + j)), num(lg(j))))))
    j, c = generic(I, nr, "j")
    k = f.m + nl + j
    ensure(I, "half cycles", bimp(c, band(req(num(cnt.get(k)).v, z3.RealVal("1/2")), same(num(rg.get(k)), num(res(j))))))
    j, c = generic(I, total, "j")
    ensure(I, "no means", bimp(c, same(num(mn.get(j)), num(0))))
    rest(I, r, lb, w, small, None)


def rest(I, r, lb, w, small, seq):
    ensure_num(I, "lower bound", r.fields["range_bin_lower_bound"], lb)
    ensure_num(I, "width", r.fields["range_bin_width"], w)
    ensure_num(I, "small cycles", r.fields["nr_small_cycles"], small)
    if seq is None:
        ensure(I, "no residual sequence", r.fields["residuals_sequence"] is None)
    else:
        ensure_arr(I, "residual sequence", r.fields["residuals_sequence"], *seq)


def imported(I, d):
    kw = {"timestamp": inp(I, "timestamp", Num(z3.Int("timestamp"), isint=True)),
          "name": inp(I, "name", SymStr(z3.String("name"), True)), "unit": inp(I, "unit", SymStr(z3.String("unit"), True))}
    o = I.call(I.getattr(func(I, CC + "CycleCount"), "from_rainflow"), [PyDict(d)], kw)
    ensure_num(I, "timestamp", o.fields["timestamp"], kw["timestamp"])
    for k in ("unit", "name"):
        same_rest(I, k, o.fields[k], kw[k])
    return o


def within(a, b):
    d = zr(a.v) - b
    return band(a.fin, d <= z3.RealVal("0.00005"), -d <= z3.RealVal("0.00005"))


@task("P26", IMPORT)
def histogram_without_means(I):
    without_means(I, False)


@task("P26", IMPORT)
def histogram_with_old_keys(I):
    without_means(I, True)


@task("P26", IMPORT)
def rejected_dictionaries(I):
    call = lambda d: lambda: I.call(I.getattr(func(I, CC + "CycleCount"), "from_rainflow"), [PyDict(d)], {
        "timestamp": Num(z3.Int("timestamp"), isint=True)})
    for bad in ("foo", "Hist", "bin_lbb", ""):
        d, _ = flat_dict(I, False)
        expect_exc(I, f"key '{bad}'", "KeyError", call({**d, bad: num(1)}))
    d, _ = flat_dict(I, False)
    expect_exc(I, "any other key", "KeyError", call({**d, SymStr(z3.String("key"), True): num(1)}))
    d, _ = flat_dict(I, True)
    expect_exc(I, "two lower bounds", "KeyError", call({**d, "range_bin_lower_bound": num(1)}))
    for drop in ((), ("hist",)):
        d, (lb, w, nh, nl, nr, h, lg, res, small) = flat_dict(I, False)
        none = {k: v for k, v in d.items() if k not in drop}
        for k in ("hist", "lg_c", "res"):
            if k in none:
                none[k] = PyList([])
        expect_exc(I, "no cycles", "ValueError", call(none))


def ragged_dict(I, old_keys):
    """rows of cells of any lengths, large and half cycles as pairs of mean and range"""
    lb, w, mlb, mw = (real(I, x) for x in ("lower_bound", "width", "mean_lower_bound", "mean_width"))
    pre(I, band(w.v > 0, mw.v > 0))
    nh, nl, nr = (length(I, x) for x in ("rows", "large", "half"))
    size, cell = I.ctx.fresh_fun("row_length", IS, IS), I.ctx.fresh_fun("cell", IS, IS, R)
    forall(I, nh, lambda i: size(zi(i)) >= 0)
    h = Arr(nh, lambda i: Arr(size(zi(i)), lambda j: num(cell(zi(i), zi(j))), "f", "list"), "o", "list")
    pair = {}

    def pairs(name, n):
        a, b = I.ctx.fresh_fun(name + "_mean", IS, R), I.ctx.fresh_fun(name + "_range", IS, R)
        pair[name] = lambda i: num(a(zi(i))), lambda i: num(b(zi(i)))
        return Arr(n, lambda i: (num(a(zi(i))), num(b(zi(i)))), "o", "list")
    lg, res = pairs("lg_c", nl), pairs("res", nr)
    small = real(I, "small_cycles")
    d = {"hist": h, "lg_c": lg, "res": res, "bin_lb" if old_keys else "range_bin_lower_bound": lb,
         "bin_width" if old_keys else "range_bin_width": w, "no_sm_c" if old_keys else "nr_small_cycles": small,
         "mean_bin_lower_bound": mlb, "mean_bin_width": mw}
    return d, (lb, w, mlb, mw, nh, nl, nr, size, cell, pair["lg_c"], pair["res"], small)


def with_means(I, old_keys):
    d, (lb, w, mlb, mw, nh, nl, nr, size, cell, lg, res, small) = ragged_dict(I, old_keys)
    seq = None
    if old_keys:
        ns = length(I, "sequence")
        seq = arr(I, "res_sig", ns, kind="list")
        d["res_sig"], seq = seq, (ns, seq._get)
    b = blocks(I, nh, lambda i: size(zi(i)))
    row, col = lambda p: b.owner(p), lambda p: zi(p) - b.start(b.owner(p))
    f = kept(I, b.total, lambda p: bnot(req(cell(row(p), col(p)), 0)))
    total = f.m + nl + nr
    pre(I, total > 0)
    r = imported(I, d)
    cnt, rg, mn = (as1d(I, I.getattr(r, x)) for x in ("count_cycle", "stress_range", "mean_stress"))
    ensure(I, "number of cycles", band(req(cnt.n, total), req(rg.n, total), req(mn.n, total)))
    j, c = generic(I, f.m, "j")
    p = f.idx(j)
    ensure(I, "cells: counts", bimp(c, same(num(cnt.get(j)), num(cell(row(p), col(p))))))
    at = lambda lb, w, k: zr(lb.v) + zr(w.v) * (z3.ToReal(k) + z3.RealVal("1/2"))
    ensure(I, "cells: ranges", bimp(c, within(num(rg.get(j)), at(lb, w, col(p)))))
    ensure(I, "cells: means", bimp(c, within(num(mn.get(j)), at(mlb, mw, row(p)))))
    j, c = generic(I, nl, "j")
    k = f.m + j
    ensure(I, "large cycles", bimp(c, band(same(num(cnt.get(k)), num(1)), same(num(mn.get(k)), lg[0](j)),
                                           same(num(rg.get(k)), lg[1](j)))))
    j, c = generic(I, nr, "j")
    k = f.m + nl + j
    ensure(I, "half cycles", bimp(c, band(req(num(cnt.get(k)).v, z3.RealVal("1/2")), same(num(mn.get(k)), res[0](j)),
                                          same(num(rg.get(k)), res[1](j)))))
    rest(I, r, lb, w, small, seq)
    ensure_num(I, "lower bound of the means", r.fields["_mean_bin_lower_bound"], mlb)
    ensure_num(I, "width of the means", r.fields["mean_bin_width"], mw)


@task("P26", IMPORT)
def histogram_with_means(I):
    with_means(I, False)


@task("P26", IMPORT)
def histogram_with_means_and_sequence(I):
    with_means(I, True)
