"""Comparison of an expected model (gen.py) with a dumped one; yields (path, expected, got, trail)
where trail is the chain of enclosing (field kind, was it reused)."""

INF = (1 << 64) - 1
SKIP = {"pos"}


def canon_ranges(rs, big):
    """Set of values per (since,depr), as merged interval lists."""
    by = {}
    for r in rs:
        a, b = r["min"], r["max"]
        if big:
            a &= INF
            b &= INF
        by.setdefault((r["since"], r["depr"]), []).append((a, b))
    out = {}
    for k, l in by.items():
        l.sort()
        m = []
        for a, b in l:
            if m and a <= m[-1][1] + 1:
                m[-1] = (m[-1][0], max(m[-1][1], b))
            else:
                m.append((a, b))
        out[k] = m
    return out


def fval(x):
    if isinstance(x, str):
        if "nan" in x:
            return float("nan")
        return float.fromhex(x) if "inf" not in x else float(x)
    return x


def canon_franges(rs):
    by = {}
    for r in rs:
        a, b = fval(r["min"]), fval(r["max"])
        by.setdefault((r["since"], r["depr"]), []).append((a, b))
    out = {}
    for k, l in by.items():
        nan = any(a != a for a, _ in l)
        l = sorted((a, b) for a, b in l if a == a)
        m = []
        for a, b in l:
            if m and a <= m[-1][1]:
                m[-1] = (m[-1][0], max(m[-1][1], b))
            else:
                m.append((a, b))
        out[k] = (nan, m)
    return out


def feq(a, b):
    a, b = fval(a), fval(b)
    return a == b or (a != a and b != b)


def diff(exp, got, path="", trail=()):
    if exp is None:
        return
    if isinstance(exp, dict):
        if not isinstance(got, dict):
            yield path, exp, got, trail
            return
        kind = exp.get("kind")
        if kind:
            trail = trail + ((kind, bool(exp.get("_reused"))),)
        for k, v in exp.items():
            if k.startswith("_") or k in SKIP or v is None:
                continue
            p = path + "/" + k
            if k == "maxLen" and isinstance(v, dict):
                if got.get(k) is None or got[k] < v["ge"]:
                    yield p, "at least %d" % v["ge"], got.get(k), trail
                continue
            if k == "ranges" and kind == "int":
                a, b = canon_ranges(v, exp["type"] in (7, 9)), canon_ranges(got.get(k) or [], exp["type"] in (7, 9))
                if a != b:
                    yield p, a, b, trail
                continue
            if k == "ranges" and kind == "float":
                a, b = canon_franges(v), canon_franges(got.get(k) or [])
                if a != b:
                    yield p, a, b, trail
                continue
            if kind in ("string", "data") and k == "valid":
                a = sorted((x["val"], x["since"], x["depr"]) for x in v)
                b = sorted((x["val"], x["since"], x["depr"]) for x in got.get(k) or [])
                if a != b:
                    yield p, a, b, trail
                continue
            if kind == "float" and k == "def":
                if not feq(v, got.get(k)):
                    yield p, v, got.get(k), trail
                continue
            if kind == "float" and k == "specials":
                g = got.get(k) or []
                if len(g) != len(v):
                    yield p, v, g, trail
                    continue
                for x, y in zip(v, g):
                    y = dict(y)
                    if not feq(x["val"], y["val"]):
                        yield p + "/" + x["name"], x["val"], y["val"], trail
                    y["val"] = x["val"]
                    if x != y and not (x["val"] != x["val"] and {q: w for q, w in x.items() if q != "val"} == {q: w for q, w in y.items() if q != "val"}):
                        yield p + "/" + x["name"], x, y, trail
                continue
            if k in ("aliases", "xattrs", "xelems") and not v and k not in got:
                continue
            if k == "xelems":
                if len(v) != len(got.get(k) or []):
                    yield p, v, got.get(k), trail
                continue
            if k == "xattrs":
                gv = got.get(k) or []
                a = sorted(zip(v[::2], v[1::2]))
                b = sorted(zip(gv[::2], gv[1::2]))
                if a != b:
                    yield p, a, b, trail
                continue
            if k not in got:
                yield p, v, "<absent>", trail
                continue
            yield from diff(v, got[k], p, trail)
        # things that must not be there
        for k in ("cond", "validCond", "construct", "readCond", "aliases", "lenPrefix", "countPrefix", "elemLenPrefix", "term", "xattrs"):
            if k in got and (k not in exp or exp[k] in (None, [])) and not (k == "xattrs" and exp.get("_reused")):
                if got[k]:
                    yield path + "/" + k, "<absent>", got[k], trail
        return
    if isinstance(exp, list):
        if not isinstance(got, list) or len(exp) != len(got):
            a = [x.get("name") if isinstance(x, dict) else x for x in exp]
            b = [x.get("name") if isinstance(x, dict) else x for x in got] if isinstance(got, list) else got
            yield path, a, b, trail
            return
        for i, (a, b) in enumerate(zip(exp, got)):
            n = a.get("name", i) if isinstance(a, dict) else i
            yield from diff(a, b, path + "/" + str(n), trail)
        return
    if exp != got:
        yield path, exp, got, trail
