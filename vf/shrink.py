"""Makes a failing run small: fewer and simpler operations first, then a plainer schedule."""
import copy
import time

EXPR = {"lit", "var", "param", "ptag", "res", "prop", "id", "urn", "coro", "fut", "failcoro", "list", "dict", "asset", "arch", "all",
        "alld", "from", "concat", "secret", "unsecret", "idx", "apply"}
KEEP = {"op", "n", "type", "kind", "x", "tok", "k", "world", "host", "msg", "sev", "e", "ret"}


def walk(v, path=()):
    yield path, v
    if isinstance(v, dict):
        for k in list(v):
            yield from walk(v[k], path + (k,))
    elif isinstance(v, list):
        for i in range(len(v)):
            yield from walk(v[i], path + (i,))


def get(v, path):
    for k in path:
        v = v[k]
    return v


def edits(wl, editable=lambda wl, path: True):
    """(size of the removed part, description, function) — biggest first."""
    out = []
    for path, v in walk(wl):
        if not path or not editable(wl, path):
            continue
        par = get(wl, path[:-1])
        k = path[-1]
        n = sum(1 for _ in walk(v))
        if isinstance(par, list) and isinstance(v, (dict, list)) and not (k == 0 and par and isinstance(par[0], str)):
            out.append((n, path, "del", None))
        elif isinstance(par, dict) and k not in KEEP:
            out.append((n, path, "del", None))
        if isinstance(v, list) and v and isinstance(v[0], str) and v[0] in EXPR and v[0] != "lit":
            out.append((n - 0.5, path, "set", ["lit", "x"]))
            for p2, x in walk(v):
                if p2 and isinstance(x, list) and x and isinstance(x[0], str) and x[0] in EXPR and len(p2) <= 3:
                    out.append((n - sum(1 for _ in walk(x)), path, "set", copy.deepcopy(x)))
    out.sort(key=lambda t: (-t[0], repr(t[1])))
    return out


def apply_edit(wl, path, what, val):
    w = copy.deepcopy(wl)
    par = get(w, path[:-1])
    if what == "del":
        del par[path[-1]]
    else:
        par[path[-1]] = copy.deepcopy(val)
    return w


def minimise(spec, fails, legal, budget=60.0, clock=time.monotonic, editable=lambda wl, path: True):
    """fails(spec) -> result or None. Returns (spec, result) with spec['choices'] recorded."""
    t_end = clock() + budget
    best = dict(spec)
    best.pop("choices", None)
    r = fails(best)
    if r is None:
        best = dict(spec)
        r = fails(best)
        if r is None:
            return None, None
    tried = 0
    progress = True
    t_ops = clock() + budget * 0.65
    while progress and clock() < t_ops:
        progress = False
        done = set()
        for size, path, what, val in edits(best["wl"], editable):
            if clock() > t_ops:
                break
            if any(path[:len(d)] == d for d in done):
                continue
            try:
                w = apply_edit(best["wl"], path, what, val)
                if not legal(w):
                    continue
            except Exception:  # noqa: BLE001  not a program any more
                continue
            cand = dict(best, wl=w)
            tried += 1
            r2 = fails(cand)
            if r2 is not None:
                best, r = cand, r2
                progress = True
                break
    # the schedule
    ch = list(r.get("choices") or [])[: r.get("cpos") or None]
    cand = dict(best, choices=ch)
    r2 = fails(cand)
    if r2 is None:
        return best, r
    best, r = cand, r2
    n = max(1, len(ch))
    while n >= 1 and clock() < t_end:
        i = 0
        while i < len(ch) and clock() < t_end:
            if any(ch[i:i + n]):
                c2 = ch[:i] + [0] * len(ch[i:i + n]) + ch[i + n:]
                cand = dict(best, choices=c2)
                r2 = fails(cand)
                if r2 is not None:
                    best, r, ch = cand, r2, c2
            i += n
        n //= 2
    while ch and ch[-1] == 0:
        ch = ch[:-1]
    cand = dict(best, choices=ch)
    r2 = fails(cand)
    if r2 is not None:
        best, r = cand, r2
    return best, r
