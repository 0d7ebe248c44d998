"""Scenario interpreter, run unchanged against the symbolic load of /repo and against the real package.

A scenario is a list of steps (plain JSON data); an Api supplies the modules and the cell conversion.
Python exceptions raised by the code under test are recorded as outputs.
"""


class Out:
    __slots__ = ("values", "index", "name", "kind", "exc", "cols")

    def __init__(self, values=None, index=None, name=None, kind=None, exc=None, cols=None):
        self.values, self.index, self.name, self.kind, self.exc, self.cols = values, index, name, kind, exc, cols

    def __repr__(self):
        return "Out(exc=%r)" % self.exc if self.exc else "Out(%r)" % (self.values if self.cols is None else self.cols,)


class Failed:
    def __init__(self, e):
        self.exc = e


def _exc(e):
    return "%s: %s" % (type(e).__name__, str(e)[:160])


def run(api, steps, data):
    env = {}
    outs = {}

    def arg(v):
        if isinstance(v, str) and v.startswith("@"):
            r = env[v[1:]]
            if isinstance(r, Failed):
                raise _Dep(r.exc)
            return r
        return v

    class _Dep(Exception):
        pass

    for st in steps:
        op = st["op"]
        try:
            if op == "series":
                env[st["id"]] = api.series(data[st["data"]], st.get("index"), st.get("dtype", "f"), st.get("name"), data)
            elif op == "frame":
                env[st["id"]] = api.frame([(c, data[k] if isinstance(k, str) else k, d) for c, k, d in st["cols"]],
                                          st.get("index"), data)
            elif op == "col":
                env[st["id"]] = env[st["frame"]][st["name"]]
            elif op == "new":
                cls = getattr(api.mod(st["mod"]), st["cls"])
                kw = {k: arg(v) for k, v in st["args"].items()}
                env[st["id"]] = cls(**kw)
            elif op == "read":
                o = env[st["obj"]]
                if isinstance(o, Failed):
                    raise _Dep(o.exc)
                got = getattr(o, st["meth"])()
                if st.get("id"):
                    env[st["id"]] = got
                outs[st["out"]] = api.out(got)
            elif op == "poke":                    # the caller writes into an output it was given
                o = env[st["id"]]
                if isinstance(o, Failed):
                    raise _Dep(o.exc)
                for i in st["at"]:
                    o.iloc[i] = st["value"]
            elif op == "call":
                m = api.mod(st["mod"])
                r = getattr(m, st["fn"])(*[arg(v) for v in st.get("pos", [])],
                                         **{k: arg(v) for k, v in st["args"].items()})
                if st.get("id"):
                    env[st["id"]] = r
                if st.get("out"):
                    outs[st["out"]] = api.out(r)
            elif op == "snap":
                outs[st["out"]] = api.out(env[st["id"]])
            elif op == "same":
                outs[st["out"]] = Out(values=[env[st["a"]] is env[st["b"]]], index=[0])
            else:
                raise RuntimeError("unknown step " + op)
        except _Dep as e:
            if st.get("id"):
                env[st["id"]] = Failed(str(e))
            if st.get("out"):
                outs[st["out"]] = Out(exc=str(e))
        except Exception as e:
            if op in ("series", "frame", "col", "snap"):
                raise
            if st.get("id"):
                env[st["id"]] = Failed(_exc(e))
            if st.get("out"):
                outs[st["out"]] = Out(exc=_exc(e))
    return outs
