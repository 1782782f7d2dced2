"""numpy, pandas and gmpy leaves."""

import numpy as np
import pandas as pd

try:
    import gmpy2
except ImportError:
    gmpy2 = None

NP_KINDS = ["np_arr", "np_view", "np_big", "np_scalar", "np_dtype", "np_obj", "np_dt", "np_str", "np_struct", "np_bool"]  # fmt: skip
PD_KINDS = ["pd_df", "pd_series", "pd_index", "pd_ts", "pd_cat", "pd_multi", "pd_period", "pd_big", "pd_named"]  # fmt: skip
GM_KINDS = ["gm_z"] if gmpy2 else []
KINDS = NP_KINDS + PD_KINDS + GM_KINDS

DT = ["int64", "float32", "float64", "uint8", "int16", "complex128"]


def make_leaf(k, n):
    if k == "np_arr":
        a = np.arange(n % 7, dtype=DT[n % 6]) * 2
        return a.reshape(2, 3) if a.size == 6 else a
    if k == "np_big":
        return np.arange(32 + n % 40, dtype=DT[n % 6])
    if k == "np_view":
        base = np.arange(8 + n % 4, dtype="int32")
        return [base, base[1:5], base[::2]][n % 3 :]
    if k == "np_scalar":
        return [np.int64(n), np.float64(n / 4), np.bool_(n & 1), np.uint8(n % 255)][n % 4]
    if k == "np_dtype":
        return [np.dtype("int32"), np.dtype([("a", "i4"), ("b", "f8")]), np.dtype("U5")][n % 3]
    if k == "np_obj":
        return np.array([n % 9, "s", None, [1, 2]][: 1 + n % 3], dtype=object)
    if k == "np_dt":
        return np.array(["2020-01-01", "2021-02-03"], dtype="datetime64[D]") + n % 100
    if k == "np_str":
        return np.array(["a", "bb", "c%d" % (n % 10)])
    if k == "np_bool":
        return np.array([True, False, bool(n & 1)])
    if k == "np_struct":
        return np.array([(1, 2.0), (n % 9, 4.5)], dtype=[("a", "i4"), ("b", "f8")])
    if k == "pd_df":
        return pd.DataFrame({"a": [1, 2, n % 9], "b": [0.5, None, 2.5], "c": ["x", "y", "z"]})
    if k == "pd_series":
        return pd.Series([n % 9, 2, 3], index=["p", "q", "r"], name="s%d" % (n % 4))
    if k == "pd_index":
        return [pd.Index([1, 2, n % 9]), pd.Index([0.5, n % 5]), pd.Index(["a", "b"])][n % 3]
    if k == "pd_ts":
        return pd.Timestamp(2020, 1 + n % 12, 1 + n % 28, n % 24)
    if k == "pd_td":
        return pd.Timedelta(seconds=n)
    if k == "pd_cat":
        return pd.Series(["u", "v", "u"], dtype="category")
    if k == "pd_multi":
        return pd.MultiIndex.from_tuples([("a", 1), ("b", n % 9)], names=["x", "y"])
    if k == "pd_period":
        return pd.Period("2020-0%d" % (1 + n % 9), "M")
    if k == "pd_interval":
        return pd.Interval(n % 4, 5 + n % 9)
    if k == "pd_nullable":
        return pd.Series([1, None, n % 9], dtype="Int64")
    if k == "pd_big":  # stored compressed
        return pd.DataFrame({"a": [i * (n % 7 + 1) for i in range(150)], "b": ["t%d" % (n % 5)] * 150})
    if k == "pd_named":
        return pd.Index([n % 9, 2, 3], name="i%d" % (n % 5))
    if k == "gm_z":
        return gmpy2.mpz(n) ** 5
    raise ValueError(k)


def make_node(k, kids):
    """Containers of the extensions that hold arbitrary objects."""
    arr = np.empty(len(kids), dtype=object)
    for i, kid in enumerate(kids):
        arr[i] = kid
    if k == "NpObj":
        return arr
    if k == "PdObj":
        return pd.Series(arr, name="objs")
    if k == "PdCell":
        return pd.DataFrame({"o": pd.Series(arr, dtype=object), "i": range(len(kids))})
    raise ValueError(k)


def canon(o, c):
    t = type(o)
    name = f"{t.__module__}.{t.__qualname__}"
    if isinstance(o, np.ndarray):
        if o.dtype.hasobject:
            return ["nd", str(o.dtype), list(o.shape), [c.of(x) for x in o.ravel().tolist()]]
        return ["nd", str(o.dtype), list(o.shape), repr(o.tolist())]
    if isinstance(o, np.generic):
        return ["ng", str(o.dtype), repr(o.item() if o.dtype.kind not in "mM" else str(o))]
    if isinstance(o, np.dtype):
        return ["dtype", str(o)]
    if isinstance(o, pd.DataFrame):
        cells = [[c.of(x) for x in o[k].tolist()] if o[k].dtype == object else repr(o[k].tolist()) for k in o.columns]
        return ["df", [repr(x) for x in o.columns], [str(x) for x in o.dtypes], cells, repr(list(o.index)), str(o.index.dtype)]
    if isinstance(o, pd.Series):
        vals = [c.of(x) for x in o.tolist()] if o.dtype == object else repr(o.tolist())
        return ["series", str(o.dtype), vals, repr(list(o.index)), repr(o.name)]
    if isinstance(o, pd.Index):
        return ["index", name, repr(o.tolist()), repr(list(o.names)), str(getattr(o, "dtype", ""))]
    return ["hv", name, repr(o)]


def register():
    from jsonpickle.ext import gmpy as jg
    from jsonpickle.ext import numpy as jn
    from jsonpickle.ext import pandas as jp

    jn.register_handlers()
    jp.register_handlers()
    if gmpy2:
        jg.register_handlers()
