"""From the design model to scripts for the real engine."""
import json, os, random, re
from ajlib import *
import ajlib

HIST = re.compile(r'^"HIST (.*)"$', re.M)
ODD_IDS = ["job:1", "a b", "é💥✓", "J0:queue:Queued", "x" * 300, "0", "null", "it's \"q\" \\", "\n", "a\0b", "%s{}",
           "j0:queue:Running", "aj_storage", "-1", "Ab", "aB", " a", "a ", ""]
STRS = ["", "x", "ünï ✓ 💥", "\"quoted\" \\ \n\r\t", "a:queue:Queued", "null", "0" * 200, "\u0000", "{\"a\":[1,2]}"]


def near_ids(r):
    """Ids that are easily taken for one another."""
    w = "".join(r.choice("abcxyz01") for _ in range(r.choice([1, 3, 8, 36, 200])))
    return list(dict.fromkeys([w + "a", w + "A", w + "a ", " " + w + "a", w + "ab", w + "b", w + "aa", w + "a:", w + "a\u0301", w + "\u00e1", "a" + w, w + "a\n"]))


def explore(scopes, tag, walk=False, timeout=800, workers=None):
    """Model-check the scopes (all behaviours, or walks); the invariant says the kernel never objects.
    Returns histories and statistics."""
    d = os.path.join(WORK, tag)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "scopes%s.ndjson" % ("W" if walk else ""))
    with open(path, "w") as f:
        for s in scopes:
            f.write(json.dumps(s) + "\n")
    rc, out, st = tlc("Aj", "AjWalk.cfg" if walk else "Aj.cfg", env={"AJ_SCOPE": path}, timeout=timeout,
                      meta=os.path.join(d, "tlcmeta"), workers=workers)
    if rc != 0:
        i = out.find("Error:")
        v = re.findall(r"viol = .*?(?=\n/\\|\nState|\n\n)", out, re.S)
        h = re.findall(r"hist = .*?>>", out, re.S)
        raise ToolError("design model violates the kernel or TLC failed (%d)\n%s\n%s\n%s"
                        % (rc, out[i:i + 400], v[-1] if v else "", h[-1] if h else ""))
    hs = set()
    for m in HIST.finditer(out):
        si, _, h = json.loads(m.group(1).replace('\\"', '"'))
        hs.add((si - 1, tuple(h)))
    return sorted(hs), st


def maximal(hs):
    """Histories that are no prefix of another one."""
    out = []
    for i, (s, h) in enumerate(hs):
        if i + 1 < len(hs) and hs[i + 1][0] == s and hs[i + 1][1][:len(h)] == h:
            continue
        out.append((s, h))
    return out


def op_of(lab):
    o = {k: v for k, v in lab.items() if k not in ("rop", "res", "nf", "d", "c", "ms", "out", "t0")}
    if o["delay"] < 0:
        o.pop("delay")
    if o["op"] != "cap":
        o.pop("n"), o.pop("tick")
    if o["op"] not in ("submit", "update"):
        for k in ("v", "kind", "at", "delay", "per", "once", "mr", "ea", "rmax", "rst", "rb", "re", "ov", "ctx", "rc0",
                  "via"):
            o.pop(k, None)
    return o


def decode(scope, hist):
    steps = []
    for i, c in enumerate(hist):
        m = re.match(r"^f(\d+)\.(\d+):", c)
        if m:
            steps.append({"op": "fault", "from": int(m.group(1)), "len": int(m.group(2))})
            c = c[m.end():]
        m = re.match(r"^c(\d+):", c)
        if m and not c.startswith("c:"):
            steps.append({"op": "crash", "at": int(m.group(1))})
            c = c[m.end():]
        if c[0] == "m":
            steps.append(op_of(scope["menu"][int(c[1:]) - 1]))
        elif c[0] == "a":
            steps.append({"op": "adv", "ms": int(c[1:])})
        else:
            f = c.split(":")
            if f[0] == "d":
                steps.append({"op": "done", "id": f[1], "out": f[2]})
            elif f[0] == "b":
                p = op_of(scope["menu"][int(f[2]) - 1])
                if p["op"] in ("submit", "update"):
                    p["v"] = 1000 + i
                steps.append({"op": "begin", "c": f[1], "call": p})
            elif f[0] == "p":
                steps.append({"op": "poll", "c": f[1]})
            elif f[0] == "rb":
                steps.append({"op": "relb", "id": f[1]})
            elif f[0] == "ra":
                steps.append({"op": "rela", "id": f[1]})
            elif f[0] == "h":
                steps.append({"op": "hold", "before": f[1][0] == "1", "after": f[1][1] == "1"})
            else:
                raise ToolError("bad history " + c)
    return steps


def ids_of(steps):
    ids = {}
    for s in steps:
        for x in (s, s.get("call") or {}):
            if x.get("id") and x.get("id") != "-":
                ids.setdefault(x["id"], x.get("q", 0))
    return ids


def tail(steps, r, np):
    """What follows a history, so that its consequences become visible."""
    ids = sorted(ids_of(steps))
    t = []
    for c in sorted({s["c"] for s in steps if s["op"] == "begin"}):
        t.append({"op": "end", "c": c})
    if any(s["op"] == "hold" for s in steps):
        t.append({"op": "hold", "before": False, "after": False})
        t += [{"op": x, "id": i} for i in ids for _ in range(max(1, np)) for x in ("relb", "rela")]
    if any(s["op"] == "crash" for s in steps):
        # a restarted process works on a queue again once it is used
        for q in sorted(set(ids_of(steps).values())):
            t.append({"op": "submit", "id": "wake%d" % q, "q": q, "v": 900 + q})
    k = r.randrange(5)
    adv = lambda ms, n: {"op": "adv", "ms": ms, "n": n}
    fin = lambda out: [{"op": "done", "id": i, "out": out} for i in ids]
    if k == 0:
        t += [adv(100, 4)] + fin("ok") + [adv(100, 3)] + fin("ok") + [adv(1000, 2)]
    elif k == 1:
        t += [adv(100, 3)] + fin("err") + [adv(100, 4)] + fin("ok") + [adv(500, 3)] + fin("ok") + [adv(100, 3)]
    elif k == 2:
        t += [adv(1000, 2)] + fin("ok") + [adv(1000, 3)] + fin("ok") + [adv(60, 4)]
    elif k == 3:
        t += fin("err") + [adv(300, 3)] + fin("err") + [adv(700, 3)] + fin("err") + [adv(3000, 2)] + fin("ok") + [adv(100, 3)]
    else:
        t += [adv(50, 8)] + fin("ok") + [adv(250, 3)]
    return t


def rename(steps, r):
    """Two types side by side: any two of those with names that are easily confused."""
    ops = [y for s in steps for y in (s, s.get("call") or {}) if y.get("op") in ("submit", "update", "cancel", "retry", "get", "cap")]
    if {y.get("q", 0) for y in ops} == {0, 1} and not any(s["op"] == "attr" for s in steps):
        m = r.choice([{0: 1, 1: 0}, {0: 2, 1: 3}, {0: 3, 1: 2}])
        for y in ops:
            y["q"] = m[y.get("q", 0)]


def retype(steps, r, want=True):
    """Sometimes the jobs of the first queue are of another type: a function, or one that uses all hooks."""
    x = r.random()
    ops = [y for s in steps for y in (s, s.get("call") or {}) if y.get("op") in ("submit", "update", "cancel", "retry", "get", "cap")]
    q = 6 if x < .12 else 5 if x < .22 else 0
    if want is not True:
        q = want
    if not q or any(s["op"] == "attr" for s in steps):
        return
    if q == 5:
        by = {}
        for y in ops:
            if y.get("q", 0) == 0 and "v" in y and by.setdefault(y["v"], y["id"]) != y["id"]:
                return
    for y in ops:
        if y.get("q", 0) == 0:
            y["q"] = q


def dress(steps, r, name, own="", np=None, plain=False, backend=None, engine=None, odd=.35, types=True, pp=.1):
    """A script: concrete ids, data, backend, number of plugins."""
    ids = ids_of(steps)
    eng = engine or ("bare" if np is None and r.random() < .12 else "actix")
    n = np if np is not None else (0 if eng == "bare" else r.choice([0, 1, 1, 2, 3]))
    rids = {}
    if not plain and r.random() < odd:
        near = r.random() < .3
        pool = near_ids(r) if near else ODD_IDS[:]
        r.shuffle(pool)
        for i in ids:
            rids[i] = pool.pop() if pool and (near or r.random() < .7) else i + "-" + str(r.randrange(10 ** 6))
    out = []
    for s in steps:
        s = dict(s)
        if "call" in s:
            s["call"] = dict(s["call"])
        for x in (s, s.get("call") or {}):
            if x.get("id") in rids:
                x["rid"] = rids[x["id"]]
            if x.get("op") in ("submit", "update"):
                x["s"] = "s" if plain else r.choice(STRS)
            if x.get("op") == "update" and x.get("ctx") and not plain and r.random() < .4:
                # settings made for another id: the job stays the one that was named
                x["cid"] = r.choice(["other", "", "x" + x["id"]] + [rids.get(i, i) for i in ids if ids[i] == ids[x["id"]]])
            if x.get("op") == "submit" and not plain and x.get("via", "run") == "run" and x is s:
                x["via"] = r.choice(["run", "run", "just", "add"])
            if x.get("op") == "submit" and not plain and x.get("via") == "enq" and x.get("ov") and r.random() < .5:
                x["via"] = "rerun" if x.get("re") else "skip"
            if x.get("kind") == "sched" and x.get("delay", -1) < 0 and not plain and r.random() < .3:
                x["sub"] = 600
            if x.get("op") in ("submit", "update") and x.get("rmax", -2) != -2 and not plain and r.random() < .15:
                x["rh"] = 1
            if x.get("op") in ("submit", "update") and x.get("rmax", -2) != -2 and not plain and r.random() < .1:
                x["ret0"] = r.choice([1, 1, 2, 5])
        out.append(s)
    if not plain and r.random() < .3:
        # callers that give up waiting
        for s in out:
            if s["op"] in ("end", "poll") and r.random() < .3:
                s["op"] = "drop"
    if ids and not plain and r.random() < .25:
        # some requests are made by the body of a job that is running
        for s in out:
            if s["op"] in ("submit", "update", "cancel", "retry", "cap") and r.random() < .5:
                s["in"] = r.choice(sorted(ids))
    if not plain and types:
        if r.random() < .6:
            rename(out, r)
        retype(out, r, types)
    be = backend or ("redis" if not plain and r.random() < .15 else "mem")
    if be == "redis":
        for s, nx in zip(out, out[1:]):    # the server fails instead of the backend
            if s["op"] == "fault" and r.random() < .7:
                # a poll whose answers get lost: see known/C19-lost-reply.json
                s["mode"] = r.choice(["err", "drop"] + (["lost", "lost"] if nx["op"] in ("submit", "update", "cancel", "retry") else []))
    sc = {"name": name, "meta": {"own": own} if own else {}, "backend": be, "engine": eng, "plugins": n,
          "lists": True, "us": 0 if plain else r.choice([0, 250]), "steps": out}
    if n and not plain and r.random() < pp:
        # plugins whose hooks panic now and then: nothing else changes
        sc["pp"] = [[r.randrange(n), h, k] for h in r.choice([["st"], ["bf"], ["af"], ["st", "bf", "af"]])
                    for k in sorted({r.choice([1, 1, 2, 3, 4, 6]) for _ in range(2)})]
    return sc


def scripts_from(scopes, hs, r, n, name, own="", np=None, tails=1, **k):
    """Sample n histories (all if n is None) and make scripts of them."""
    if n is not None and len(hs) > n:
        # every scope gets its share
        by = {}
        for s, h in hs:
            by.setdefault(s, []).append((s, h))
        pick = []
        share = max(1, n // len(by))
        for s in sorted(by):
            l = by[s]
            pick += r.sample(l, min(share, len(l)))
        hs = pick
    out = []
    for i, (s, h) in enumerate(hs):
        sc = scopes[s]
        st = decode(sc, h)
        n2 = sc["np"] if any(x["op"] == "hold" for x in st) else np
        st = st + tail(st, r, n2 or 0)
        out.append(dress(st, r, "%s%d" % (name, i), own=own or sc["own"], np=n2, **k))
    return out
