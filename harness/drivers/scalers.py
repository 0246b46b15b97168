"""Scalers fitted on the columns of Scaler.tla."""
from base import *
from gpmp.dataloader import Normalizer, RobustScaler, MinMaxScaler, ObservationScaler

rec = Recorder()


def params(kind, fits):
    if kind == "norm":
        return [rat(f["norm_loc"]) for f in fits], [rat(f["norm_scale2"]) ** 0.5 for f in fits]
    if kind == "rob":
        return [rat(f["rob_loc"]) for f in fits], [rat(f["rob_scale"]) for f in fits]
    if kind == "wide":
        return [rat(f["rob_loc"]) for f in fits], [rat(f["rob_wide"]) for f in fits]
    return [rat(f["mm_loc"]) for f in fits], [rat(f["mm_scale"]) for f in fits]


def exercise(name, fit, data, loc, scale, case):
    """data: nested list; loc/scale broadcast over the last axis."""
    a = arr(data)
    sc = attempt(fit, a)
    if is_err(sc):
        return rec.bad(f"{name} fits", "a scaler", sc, case=case)
    rec.eq(f"{name} fit leaves the data alone", tolist(a), arr(data).tolist(), case=case)
    want = (np.array(data, dtype=float) - loc) / scale
    t = attempt(sc.transform, a)
    rec.close(f"{name} transform", t, want, case=case)
    rec.eq(f"{name} transform leaves its argument alone", tolist(a), arr(data).tolist(), case=case)
    if is_err(t):
        return
    keep = tolist(t)
    back = attempt(sc.inverse_transform, t)
    rec.close(f"{name} inverse transform undoes transform", back, np.array(data, dtype=float), case=case)
    rec.eq(f"{name} inverse transform leaves its argument alone", tolist(t), keep, case=case)
    # unseen data, outside the fitted range, one row and several
    other = np.array(data, dtype=float)[:1] * 3 - 17.5
    o = arr(other)
    to = attempt(sc.transform, o)
    rec.close(f"{name} transform of unseen data", to, (other - loc) / scale, case=case)
    rec.close(f"{name} round trip of unseen data", attempt(sc.inverse_transform, to) if not is_err(to) else to,
              other, case=case)
    rec.close(f"{name} inverse transform of unseen data", attempt(sc.inverse_transform, o),
              other * scale + loc, case=case)
    rec.close(f"{name} transform without copying", attempt(lambda: sc.transform(arr(data), copy=False)), want,
              case=case)
    rec.close(f"{name} inverse transform without copying",
              attempt(lambda: sc.inverse_transform(arr(want), copy=False)), np.array(data, dtype=float), case=case)


def one(case):
    cols = [c["col"] for c in case]
    fits = [c["fit"] for c in case]
    data = np.array(cols, dtype=float).T.tolist()
    for name, kind, fit in (("normalizer", "norm", Normalizer.fit), ("robust scaler", "rob", RobustScaler.fit),
                            ("robust scaler with chosen quantiles", "wide",
                             lambda x: RobustScaler.fit(x, 10.0, 90.0)),
                            ("min-max scaler", "mm", MinMaxScaler.fit)):
        loc, scale = params(kind, fits)
        exercise(name, fit, data, np.array(loc), np.array(scale), cols)
    loc, scale = params("norm", fits[:1])
    exercise("observation scaler", ObservationScaler.fit, cols[0], loc[0], scale[0], cols[:1])


rec.each(rec.payload["cases"], one)
rec.done()
