"""Runs scenarios against the real package in /repo under the project's own interpreter (numpy + pandas).

JSON on stdin: {"repo": path, "jobs": [{"steps": [...], "data": {...}}]}; JSON on stdout.
Cells travel as repr strings ("nan", "inf", "3", "2.5", "true").
"""
import sys
import json
import warnings
import os

warnings.simplefilter("ignore")


def main():
    job = json.load(sys.stdin)
    sys.path.insert(0, job["repo"])
    sys.dont_write_bytecode = True
    sys.path.append(os.path.dirname(os.path.abspath(__file__)))
    import numpy as np
    import pandas as pd
    import scen
    np.seterr(all="ignore")

    def enc(x):
        if x is None:
            return "none"
        if isinstance(x, (bool, np.bool_)):
            return "true" if x else "false"
        if isinstance(x, (int, np.integer)):
            return "i%d" % int(x)
        if isinstance(x, (float, np.floating)):
            return repr(float(x))
        return "s" + str(x)

    def dec(s, k):
        if not isinstance(s, str):
            return s
        if s == "true":
            return True
        if s == "false":
            return False
        if s.startswith("s"):
            return s[1:]
        if k in ("i", "u"):
            return int(s.lstrip("i"))
        return float(s.lstrip("i")) if s not in ("inf", "-inf", "nan") else float(s)

    def mkindex(ix, n, data):
        if ix is None:
            return None
        if ix == "range":
            return pd.RangeIndex(n)
        k = ix["kind"]
        labs = data[ix["data"]] if "data" in ix else ix["labels"]
        if k == "int":
            return pd.Index([int(dec(x, "i")) for x in labs], dtype="int64", name=ix.get("name"))
        if k == "float":
            return pd.Index([float(x) for x in labs], dtype="float64", name=ix.get("name"))
        if k == "date":
            return pd.DatetimeIndex([pd.Timestamp("2000-01-01") + pd.Timedelta(days=int(x)) for x in labs],
                                    name=ix.get("name"))
        return pd.Index([str(x) for x in labs], name=ix.get("name"))

    class Api:
        def mod(self, name):
            import importlib
            return importlib.import_module("ta" if name == "ta" else "ta." + name)

        def series(self, cells, index, dtype, name, data):
            if dtype == "O":
                a = np.array([dec(c, "s") for c in cells], dtype=object)
            else:
                a = np.array([dec(c, dtype) for c in cells], dtype={"f": "float64", "i": "int64", "u": "uint64", "b": "bool"}[dtype])
            return pd.Series(a, index=mkindex(index, len(a), data), name=name)

        def frame(self, cols, index, data):
            n = len(cols[0][1]) if cols else 0
            d = {}
            for c, cells, k in cols:
                if k == "O":
                    d[c] = np.array([dec(x, "s") if x != "nan" else np.nan for x in cells], dtype=object)
                else:
                    d[c] = np.array([dec(x, k) for x in cells], dtype={"f": "float64", "i": "int64", "b": "bool"}[k])
            return pd.DataFrame(d, index=mkindex(index, n, data))

        def out(self, r):
            if isinstance(r, pd.DataFrame):
                return scen.Out(cols=[(c, [x for x in r[c].tolist()], str(r[c].dtype.kind)) for c in r.columns],
                                index=list(r.index))
            if isinstance(r, pd.Series):
                return scen.Out(values=list(r.tolist()), index=list(r.index), name=r.name, kind=r.dtype.kind)
            if isinstance(r, np.ndarray):
                return scen.Out(values=list(r.tolist()), index=None, kind="ndarray")
            return scen.Out(exc="TypeError: output is a %s" % type(r).__name__)

    def lab(x):
        if isinstance(x, pd.Timestamp):
            return "s" + str((x - pd.Timestamp("2000-01-01")).days)
        return enc(x)

    api = Api()
    res = []
    for j in job["jobs"]:
        try:
            outs = scen.run(api, j["steps"], j["data"])
            r = {}
            for k, o in outs.items():
                r[k] = {"exc": o.exc} if o.exc else {
                    "values": None if o.values is None else [enc(x) for x in o.values],
                    "index": None if o.index is None else [lab(x) for x in o.index], "name": o.name, "kind": o.kind,
                    "cols": None if o.cols is None else [[c, [enc(x) for x in v], kd] for c, v, kd in o.cols]}
            res.append({"outs": r})
        except Exception as e:
            res.append({"error": "%s: %s" % (type(e).__name__, e)})
    json.dump(res, sys.stdout)


main()
