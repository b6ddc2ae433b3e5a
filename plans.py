"""What is explored for each property."""
import json, random
import gen
import special as sp
from suites import *
from gen import dress, tail, scripts_from

ASSUMPTIONS = [
    "time is virtual (clock_gettime and epoll_wait of the harness process are interposed); observations are made when every "
    "runtime thread is idle",
    "the Redis backend is exercised against an in-process server that implements the list and hash commands it uses",
    "within the recorded traces every step is decided by TLC; behaviours outside the explored scopes and walks are not covered",
]


def Case(script, controls=()):
    from check import Case as C
    return C(script, controls)


def rnd(run, salt=""):
    return random.Random("%s/%d/%s" % (run.prop, run.seed, salt))


def cases(scripts):
    return [Case(s) for s in scripts]


def without(script, drop):
    """The same script with some steps replaced by nothing (controls)."""
    s = json.loads(json.dumps(script))
    s["steps"] = [({"op": "nop"} if drop(x) else x) for x in s["steps"]]
    s["meta"] = {}
    return s


def core(run, quick, thorough, tilt, nq=600, walks=(12, 16, 28), odd=.35, engine=None, np=None, backend=None, own="",
         control=None, rk=None, rounds=10):
    """Exhaustive scopes and walks, replayed and judged for the property."""
    q = run.tier == "quick"
    r = rnd(run)
    mk = lambda l: [Case(s, control(s) if control else ()) for s in l]
    scopes = [f(d) for f, d in (quick if q else thorough)]
    if scopes:
        hs = run.model(scopes)
        sc = scripts_from(scopes, hs, r, nq if q else 12 * nq, "x", np=np, odd=odd, engine=engine, backend=backend, own=own)
        for i in range(0, len(sc), 2500):
            run.replay(mk(sc[i:i + 2500]), "cover%d" % (i // 2500))
    ns, nw, depth = walks
    for k in range(1 if q else rounds):
        if run.left() < 300 and k:
            run.log("time is up after %d rounds" % k)
            break
        ws = []
        if not ns:
            break
        for t in ([tilt] if isinstance(tilt, str) else tilt):
            ws += rscopes(r, ns, t, depth if q else depth + 8 * (k % 3), nw, **(rk or {}))
        hs = run.model(ws, walk=True)
        run.replay(mk(scripts_from(ws, hs, r, None, "w", np=np, odd=odd, engine=engine, backend=backend, own=own)), "walks%d" % k)


def extra(run, tag, f, nq, nt=None, control=None, **k):
    """Scenarios made by a function of (rng, name)."""
    n = nq if run.tier == "quick" else (nt or 10 * nq)
    r = rnd(run, tag)
    sc = [f(r, "%s%d" % (tag, i), **k) for i in range(n)]
    for i in range(0, n, 1500):
        run.replay([Case(s, control(s) if control else ()) for s in sc[i:i + 1500]], tag + str(i // 1500))


def p_c01(run):
    core(run, [(s_life, 6), (s_two, 6), (s_panic, 5), (s_sched, 4), (s_retry, 5), (s_cron, 5), (s_calls, 4)],
         [(s_life, 9), (s_two, 8), (s_panic, 7), (s_sched, 6), (s_retry, 7), (s_cron, 7), (s_calls, 6), (s_multi, 6)], ["", "resub"])
    extra(run, "races", sp.races, 120)


def p_c02(run):
    core(run, [(s_batch, 6), (s_two, 5), (s_calls2, 4), (s_retry, 5), (s_cron, 5), (s_cap, 5)],
         [(s_batch, 9), (s_two, 8), (s_calls2, 7), (s_retry, 7), (s_cron, 7), (s_cap, 8), (s_multi, 6)], ["", "sched", "mretry"])
    sizes = [(21, 0, 20), (25, 20, 20), (45, 40, 20), (45, 41, 1), (30, 10, 2), (62, 60, 20), (44, 22, 5)]
    r = rnd(run, "big")
    n = 2 if run.tier == "quick" else 12
    run.replay(cases([sp.big(r, "big%d-%d" % (i, j), a, b, k) for i, (a, b, k) in enumerate(sizes) for j in range(n)]), "big")
    if run.tier != "quick":
        run.replay(cases([sp.big(r, "huge%d" % j, r.choice([90, 130]), r.choice([20, 85]), r.choice([3, 20])) for j in range(16)]), "huge")
    extra(run, "crowd", sp.crowd, 3, 30, n=100)
    extra(run, "herd", sp.herd, 16, 100, n=600)
    extra(run, "host", sp.herd, 4, 20, n=3000)
    extra(run, "idle", sp.idle, 16, 150)
    extra(run, "backlog", sp.backlog, 16, 200)
    if run.tier != "quick":
        extra(run, "hugeherd", sp.herd, 16, 16, n=5000)
    extra(run, "retries", sp.retryrun, 25)
    extra(run, "crons", sp.cronrun, 25)


def p_c03(run):
    core(run, [(s_life, 6), (s_two, 6), (s_calls, 5), (s_calls2, 4), (s_retry, 5), (s_cron, 5)],
         [(s_life, 9), (s_two, 8), (s_calls, 6), (s_calls2, 7), (s_retry, 7), (s_cron, 7), (s_multi, 6), (s_panic, 7)],
         ["resub", "mretry", "cancel"])
    extra(run, "races", sp.races, 150)
    extra(run, "waves", sp.waves, 12, n=24, k=3)


def p_c04(run):
    core(run, [(s_sched, 5), (s_two, 5), (s_retry, 5), (s_cron, 5), (s_cron2, 4), (s_retry2, 5)],
         [(s_sched, 7), (s_two, 8), (s_retry, 7), (s_cron, 7), (s_cron2, 6), (s_retry2, 7), (s_upd, 6)], ["sched", "cron", "retry"])
    extra(run, "races", sp.races, 80)
    extra(run, "crons", sp.cronrun, 60)
    extra(run, "lang", sp.cronlang_run, 60)
    extra(run, "retries", sp.retryrun, 30)


def p_c05(run):
    core(run, [(s_cron, 6), (s_cron2, 5)], [(s_cron, 9), (s_cron2, 7), (s_upd, 6)], ["cron", "cron"])
    extra(run, "crons", sp.cronrun, 250, 3000)
    extra(run, "lang", sp.cronlang_run, 150, 3000)


def p_c06(run):
    core(run, [(s_retry, 6), (s_retry2, 6), (s_cron2, 4), (s_type6, 5)], [(s_retry, 8), (s_retry2, 9), (s_cron2, 6), (s_type6, 7)], ["retry", "retry"])
    extra(run, "retries", sp.retryrun, 150, 1500)
    sweep_retry(run)


def p_c07(run):
    core(run, [(s_life, 6), (s_two, 6), (s_sched, 4), (s_calls, 5), (s_cron2, 4), (s_retry, 5)],
         [(s_life, 9), (s_two, 8), (s_sched, 6), (s_calls, 6), (s_cron2, 6), (s_retry, 7), (s_multi, 6)], ["cancel", "cancel", "sched"])
    extra(run, "races", sp.races, 100)


def p_c08(run):
    core(run, [(s_life, 6), (s_two, 6), (s_calls, 5), (s_cron2, 4), (s_retry, 5)],
         [(s_life, 9), (s_two, 8), (s_calls, 6), (s_cron2, 6), (s_retry, 7), (s_multi, 6), (s_panic, 7)], ["mretry", "mretry", "cancel"])
    extra(run, "races", sp.races, 100)


def p_c09(run):
    core(run, [(s_life, 6), (s_upd, 5), (s_sched, 4), (s_calls, 5), (s_calls2, 4)],
         [(s_life, 9), (s_upd, 7), (s_sched, 6), (s_calls, 6), (s_calls2, 7), (s_multi, 6)], ["resub", "resub"])
    extra(run, "races", sp.races, 150, 2000)
    extra(run, "crossing", sp.crossing, 250, 4000)


def p_c10(run):
    ctl = lambda s: [without(s, lambda x: x["op"] == "cap")]
    core(run, [(s_cap, 6), (s_cap2, 5), (s_fifo, 5)], [(s_cap, 9), (s_cap2, 7), (s_fifo, 7), (s_multi, 6)], ["cap", "cap"], own="C10",
         control=ctl)
    extra(run, "caps", sp.caps, 80, 1200, control=ctl)
    extra(run, "ticks", sp.ticks, 60, 800, control=ctl)
    r = rnd(run, "wide")
    ks = [(105, 108), (25, 30), (50, 55), (1, 12), (2, 24)] * (1 if run.tier == "quick" else 8)
    run.replay([Case(s, ctl(s)) for s in [sp.wide(r, "wide%d" % i, k, n) for i, (k, n) in enumerate(ks)]], "wide")


def p_c11(run):
    core(run, [(s_life, 6), (s_two, 5), (s_retry, 4), (s_cron, 4), (s_calls, 4), (s_upd, 4), (s_panic, 4), (s_multi, 4)],
         [(s_life, 9), (s_two, 8), (s_retry, 7), (s_cron, 7), (s_calls, 6), (s_upd, 6), (s_panic, 6), (s_multi, 6)],
         ["", "resub", "cancel"])
    extra(run, "races", sp.races, 100)
    extra(run, "poison", sp.poison, 30, 300)
    r = rnd(run, "big")
    run.replay(cases([sp.big(r, "big%d" % i, a, b, k) for i, (a, b, k) in enumerate([(25, 20, 20), (45, 3, 4)] * (2 if run.tier == "quick" else 10))]), "big")


def p_c12(run):
    core(run, [(s_fifo, 6), (s_cap, 5), (s_two, 4)], [(s_fifo, 9), (s_cap, 8), (s_two, 7)], ["fifo", "fifo"])
    r = rnd(run, "big")
    sizes = [(21, 0, 20), (45, 0, 20), (45, 15, 7), (30, 5, 1), (62, 0, 3), (44, 22, 5), (30, 0, 2)]
    n = 2 if run.tier == "quick" else 12
    run.replay(cases([sp.big(r, "big%d-%d" % (i, j), a, b, k) for i, (a, b, k) in enumerate(sizes) for j in range(n)]), "big")
    extra(run, "herd", sp.herd, 12, 80, n=300)
    r = rnd(run, "waves")
    run.replay(cases([sp.waves(r, "waves%d" % i, r.choice([12, 24, 40]), r.choice([1, 1, 2, 3, 7])) for i in range(16 if run.tier == "quick" else 200)]), "waves")


def p_c13(run):
    core(run, [(s_plug, 5), (s_hold, 5), (s_life, 5), (s_cron, 4)],
         [(s_plug, 7), (s_hold, 7), (s_life, 8), (s_cron, 6), (s_calls, 6), (s_panic, 6)], ["", "resub"], nq=500, engine="actix")
    extra(run, "holds", sp.holds, 120, 1500, engine="actix")
    for np in (1, 2, 3):
        extra(run, "races%d" % np, sp.races, 50, 500, engine="actix", np=np)
        extra(run, "panics%d" % np, sp.races, 25, 300, engine="actix", np=np, pp=1)


def p_c21(run):
    core(run, [(s_life, 5), (s_upd, 5), (s_retry, 4), (s_cron, 4), (s_type5, 4), (s_type6, 4)],
         [(s_life, 8), (s_upd, 7), (s_retry, 7), (s_cron, 7), (s_calls, 6), (s_type5, 7), (s_type6, 7)],
         ["resub", ""], odd=.7, nq=400)
    extra(run, "data", sp.datarun, 150, 2000)
    for t in (5, 6):
        extra(run, "type%d" % t, sp.datarun, 40, 500, types=t)
    extra(run, "attr", sp.attrrun, 80, 800)
    extra(run, "reject", sp.rejects, 16, 60)
    extra(run, "poison", sp.poison, 60, 600)
    extra(run, "poisontype", sp.poison, 15, 150, types=5)
    extra(run, "redis", sp.datarun, 60, 600, backend="redis")
    extra(run, "races", sp.races, 60)


def p_c22(run):
    core(run, [(s_life, 6), (s_two, 5), (s_retry, 5), (s_cron, 5), (s_upd, 5), (s_cron2, 4)],
         [(s_life, 9), (s_two, 8), (s_retry, 7), (s_cron, 7), (s_upd, 7), (s_cron2, 6), (s_calls, 6)], ["", "mretry", "cron"])
    extra(run, "races", sp.races, 60)
    extra(run, "crons", sp.cronrun, 40)


def ctl_queues(s):
    """Each type alone."""
    qs = sorted({x.get("q", 0) for x in s["steps"] if x["op"] in ("submit", "cancel", "retry", "update", "cap")})
    qof = {x["id"]: x.get("q", 0) for x in s["steps"] if x.get("id") and x["op"] in ("submit", "cancel", "retry", "update", "get")}
    if len(qs) < 2:
        return [without(s, lambda x: False)]
    return [without(s, lambda x: (x.get("q", 0) != q) if x["op"] in ("submit", "cancel", "retry", "update", "cap", "get")
                    else (x.get("id") in qof and qof[x["id"]] != q)) for q in qs]


def ctl_attrs(s):
    """Each function alone."""
    return [without(s, lambda x: x["op"] == "attr" and x["fn"] != f) for f in sorted({x["fn"] for x in s["steps"] if x["op"] == "attr"})]


def p_c14(run):
    core(run, [(s_multi, 5)], [(s_multi, 7)], ["", "cap"], own="C14", control=ctl_queues, rk=dict(queues=(0, 1), own="C14"), nq=500)
    extra(run, "two", sp.two, 200, 2500, control=ctl_queues)
    extra(run, "full", sp.full, 24, 300, control=ctl_queues)
    extra(run, "blocked", sp.blocked, 60, 600, control=ctl_queues)
    extra(run, "named", sp.samename, 30, 300, control=sp.samename_control)
    extra(run, "functions", sp.attrrun, 60, 600, control=ctl_attrs, own="C14")


def p_c15(run):
    core(run, [(s_panic, 6), (s_plug, 4)], [(s_panic, 8), (s_plug, 6)], ["", "cap"], own="C15", control=sp.panic_control,
         rk=dict(outs=("ok", "panic", "panicpost", "panicjudge"), queues=(0, 1), own="C15"), nq=400)
    extra(run, "panics", sp.panics, 150, 2000, control=sp.panic_control)
    extra(run, "plugins", sp.races, 60, 900, control=sp.panic_control, own="C15", engine="actix", np=2, pp=1)
    r = rnd(run, "many")
    run.replay([Case(s, sp.panic_control(s)) for s in [sp.many_panics(r, "many%d" % i, r.choice([5, 22, 30]))
                for i in range(6 if run.tier == "quick" else 60)]], "many")


def p_c16(run):
    core(run, [(s_first, 4)], [(s_first, 5)], [], own="C16", control=sp.first_control, nq=400, rounds=0, walks=(0, 0, 0))
    extra(run, "first", sp.first, 350, 6000, control=sp.first_control)


def ctl_faults(s):
    return [without(s, lambda x: x["op"] in ("fault", "crash"))]


def p_c19(run):
    core(run, [(s_fault, 3), (s_fault2, 3)], [(s_fault, 4), (s_fault2, 4)], ["", "mretry"], own="C19", control=ctl_faults, nq=500,
         rk=dict(faults=[(i, n) for i in (0, 1, 2, 3, 4, 6, 9) for n in (1, 2, 1000)], own="C19"))
    extra(run, "faults", sp.faults, 350, 5000, control=ctl_faults)
    extra(run, "redis", sp.faults, 150, 2000, control=ctl_faults, backend="redis")


def p_c20(run):
    core(run, [(s_crash, 4)], [(s_crash, 5)], ["", "resub"], own="C20", control=ctl_faults, nq=500,
         rk=dict(crashes=list(range(10)), own="C20"))
    extra(run, "crash", sp.faults, 350, 5000, control=ctl_faults, own="C20", kind="crash")


# --- properties with a specification of their own ------------------------------------------------
def rows(path, l):
    with open(path, "w") as f:
        for x in l:
            f.write(json.dumps(x) + "\n")


def p_c17(run):
    r = rnd(run)
    ctxs = ["bare", "sys", "tokio", "quick", "quicksys"]
    confs = [dict(who=[dict(ctx=a), dict(ctx=b)], bugs=[]) for a in ctxs for b in ctxs]
    for k in range(4 if run.tier == "quick" else 40):
        confs.append(dict(who=[dict(ctx=r.choice(ctxs)) for _ in range(3)], bugs=[]))
    out, _ = run.tlc("AjStart", {"AJ_MODE": "model"}, confs)
    sch = sorted({(h["c"] - 1, tuple(h["h"])) for h in out})
    run.log("model of concurrent starts: %d configurations, %d schedules" % (len(confs), len(sch)))
    n = 500 if run.tier == "quick" else 6000
    if len(sch) > n:
        two = [x for x in sch if len(confs[x[0]]["who"]) == 2]
        sch = two[:n] + r.sample([x for x in sch if x not in set(two)], max(0, min(n - len(two), len(sch) - len(two))))
    sc = [dict(name="s%d" % i, who=[dict(w, calls=r.choice([1, 1, 2])) for w in confs[c]["who"]], sched=list(h))
          for i, (c, h) in enumerate(sch)]
    # and without a schedule: all at once, up to seven callers
    for i in range(60 if run.tier == "quick" else 1500):
        sc.append(dict(name="free%d" % i, who=[dict(ctx=r.choice(ctxs), calls=r.choice([1, 2])) for _ in range(r.choice([2, 4, 7]))], sched=[]))
    run.direct("AjStart", "start", sc, "C17", {"AJ_MODE": "trace"})


def bk_names(r, hs):
    pool = gen.ODD_IDS[:] + gen.STRS[:3] + ["k%d" % i for i in range(len(hs))]
    pool = list(dict.fromkeys(pool))
    r.shuffle(pool)
    return {h: pool.pop() for h in hs}


def near_names(r):
    """Names that are easily taken for one another: joined by a separator, in another case, with white space, cut."""
    z = r.choice([":", "/", "-", "_", " ", ".", "|", ",", "", "\u0000"])
    w = "".join(r.choice("abc") for _ in range(r.choice([1, 2, 8, 40])))
    k = [w + "1", "x" + z + w + "1", w + "2"]
    nm = {"H": w, "G": w + z + "x", "k": k[1], "k2": k[0], "k3": k[2]}
    near = [w, w.upper(), w + " ", " " + w, w + z, z + w, w + "\n", w + "0", w + w, w + z + w, w[:-1] + "d", w + "\u00e9", w + "e\u0301"]
    near = [x for x in dict.fromkeys(near) if x]
    for hs in ("ABC", "ijxyz"):
        nm.update(zip(hs, r.sample(near, len(hs))))
    seen = set()
    for h in sorted(nm):     # one handle for each string: that is how answers are read
        while nm[h] in seen:
            nm[h] += "?" + h
        seen.add(nm[h])
    return nm


ALL = 2000000000    # stands for the largest number there is


def p_c18(run):
    r = rnd(run)
    q = run.tier == "quick"
    D = dict(op="", a="-", b="-", x="-", n=0, d1="F", d2="F")
    o = lambda **k: dict(D, **k)
    dirs = ["F", "B"]
    menu = [o(op="push", a=a, x=x) for a in ("A", "B") for x in ("i", "j")]
    menu += [o(op="move", a="A", b="B", n=n, d1=x, d2=y) for n in (0, 1, 2, ALL) for x in dirs for y in dirs]
    menu += [o(op="move", a="A", b="A", n=1, d1=x, d2=y) for x in dirs for y in dirs]
    menu += [o(op="remove", a="A", x="i"), o(op="count", a="A")]
    menu += [o(op="get", a="A", n=n, d1=x) for n in (0, 1, 2, ALL) for x in dirs]
    menu += [o(op="put", a="H", b="k", x="i"), o(op="put", a="H", b="k", x="j"), o(op="put", a="G", b="k", x="i"),
             o(op="read", a="H", b="k"), o(op="read", a="G", b="k2")]
    out, _ = run.tlc("AjBackend", {"AJ_MODE": "model"}, [dict(menu=menu, depth=4 if q else 5)])
    hs = [tuple(h) for h in out]
    hs = gen.maximal([(0, h) for h in sorted(set(hs))])
    run.log("model of a backend: %d sequences of operations" % len(hs))
    n = 2500 if q else 40000
    if len(hs) > n:
        hs = r.sample(hs, n)
    look = [o(op="get", a=a, n=99, d1=d) for a in ("A", "B", "C") for d in dirs] + [o(op="count", a=a) for a in ("A", "B", "C")] \
        + [o(op="read", a=a, b=b) for a in ("H", "G") for b in ("k", "k2")]
    seqs = [[menu[i - 1] for i in h] + look for _, h in hs]
    for _ in range(250 if q else 4000):
        ops = []
        its = ["i", "j", "x", "y", "z"]
        for _ in range(r.choice([10, 30, 80])):
            a = r.choice("ABC")
            b = r.choice([z for z in "ABC" if z != a])
            x = r.random()
            if x < .4:
                ops.append(o(op="push", a=a, x=r.choice(its)))
            elif x < .6:
                ops.append(o(op="move", a=a, b=b, n=r.choice([0, 1, 1, 2, 3, 7, 50, 5000, ALL]), d1=r.choice(dirs), d2=r.choice(dirs)))
            elif x < .65:
                ops.append(o(op="move", a=a, b=a, n=1, d1=r.choice(dirs), d2=r.choice(dirs)))
            elif x < .72:
                ops.append(o(op="remove", a=a, x=r.choice(its)))
            elif x < .84:
                ops.append(o(op="get", a=a, n=r.choice([0, 1, 2, 3, 5, 20, 1000, ALL]), d1=r.choice(dirs)))
            elif x < .88:
                ops.append(o(op="count", a=a))
            elif x < .95:
                ops.append(o(op="put", a=r.choice("HG"), b=r.choice(["k", "k2", "k3"]), x=r.choice(its)))
            else:
                ops.append(o(op="read", a=r.choice("HG"), b=r.choice(["k", "k2", "k3"])))
        seqs.append(ops + look)
    sc = []
    for i, s in enumerate(seqs):
        nm = {}
        if r.random() < .5:
            nm = bk_names(r, ["i", "j", "x", "y", "z", "A", "B", "C", "H", "G", "k", "k2", "k3"])
        elif r.random() < .5:
            nm = near_names(r)
        be = ["mem"] if i % 4 and i < len(hs) else ["mem", "redis"]
        if r.random() < .4:    # failures of the server
            s = [dict(x, f=[r.choice([0, 0, 1, 2]), r.choice([1, 1, 2, 100]), r.choice(["err", "drop", "lost"])])
                 if r.random() < .25 else x for x in s]
        for b in (be if q else ["mem", "redis"]):
            sc.append(dict(name="%s%d" % (b, i), backend=b, names=nm, ops=s))
    run.direct("AjBackend", "backend", sc, "C18", {"AJ_MODE": "trace"})


def p_c23(run):
    """Threads on one backend: is there a sequential order that explains what each was answered?"""
    r = rnd(run)
    q = run.tier == "quick"
    D = dict(op="", a="-", b="-", x="-", n=0, d1="F", d2="F")
    o = lambda **k: dict(D, **k)
    init = [o(op="push", a="A", x=x) for x in ("i", "j", "k")] + [o(op="push", a="B", x="m"), o(op="put", a="H", b="k", x="v0")]
    menu = [o(op="push", a="A", x="n"), o(op="push", a="N", x="n"), o(op="move", a="A", b="B", n=1, d1="B", d2="F"), o(op="move", a="A", b="N", n=1, d1="B", d2="F"),
            o(op="move", a="A", b="A", n=1, d1="B", d2="F"), o(op="move", a="B", b="A", n=2, d1="F", d2="B"), o(op="remove", a="A", x="j"),
            o(op="get", a="A", n=5, d1="B"), o(op="get", a="B", n=5, d1="F"), o(op="count", a="A")]
    conf = [dict(menu=menu, threads=2, ops=2 if q else 2, init=init)]
    out, _ = run.tlc("AjConc", {"AJ_MODE": "model"}, conf)
    progs = sorted({tuple(map(tuple, h)) for h in out})
    progs = [p for p in progs if list(p) == sorted(p)]
    run.log("model of concurrent operations: %d programs" % len(progs))
    r.shuffle(progs)
    hm = [o(op="put", a="H", b="k", x="v1"), o(op="put", a="H", b="l", x="v2"), o(op="put", a="G", b="k", x="v3"), o(op="read", a="H", b="k"),
          o(op="read", a="H", b="l"), o(op="put", a="H", b="k", x="v4")]
    look = [o(op="get", a=a, n=99, d1="F") for a in ("A", "B", "N", "M")] + [o(op="read", a=a, b=b) for a in ("H", "G", "F") for b in ("k", "l", "o", "p")]
    sc = []
    for i, p in enumerate(progs[:800 if q else 2500]):
        th = [[menu[k - 1] for k in t] for t in p]
        if i % 3 == 0:
            th.append([r.choice(menu) for _ in range(2)])
        sc.append(dict(th=th))
    for i in range(200 if q else 2500):
        sc.append(dict(th=[[r.choice(hm) for _ in range(r.choice([2, 3, 4]))] for _ in range(r.choice([2, 3, 4]))]))
        sc.append(dict(th=[[r.choice(menu + hm) for _ in range(r.choice([2, 3, 4]))] for _ in range(r.choice([2, 3]))]))
        sc.append(dict(th=[[r.choice([o(op="push", a=a, x="n%d" % t), o(op="move", a="A", b=a, n=1, d1="B", d2="F"), o(op="move", a=a, b="A", n=1, d1="B", d2="F")])
                            for a in [r.choice(["N", "M"])] for _ in range(3)] for t in range(r.choice([2, 3]))]))
    for i in range(90 if q else 900):   # the first values of a hash, the first items of a list
        keys = ["k", "l", "o", "p"]
        r.shuffle(keys)
        th = []
        for t in range(r.choice([2, 2, 3, 4])):
            first = o(op="put", a="G", b=keys[t], x="v%d" % t) if i % 3 else o(op="push", a=r.choice(["N", "N", "M"]), x="n%d" % t)
            rest = [r.choice([o(op="put", a="G", b=r.choice(keys), x="w%d" % t), o(op="read", a="G", b=r.choice(keys)), o(op="put", a="F", b=keys[t], x="u")])
                    for _ in range(r.choice([0, 0, 1, 2]))]
            th.append([first] + rest)
        sc.append(dict(th=th, first=True))
    for i, s in enumerate(sc):
        redis = i % 12 == 11
        s.update(name="c%d" % i, backend="redis" if redis else "mem", init=init, threads=s.pop("th"), last=look, seed=run.seed * 100003 + i,
                 reps=6 if redis else 60 if s.pop("first", None) else 16, keep=2 if redis else 5 if q else 8)
    r.shuffle(sc)
    for i in range(0, len(sc), 3000):
        run.concurrent(sc[i:i + 3000])


def sweep_retry(run):
    r = rnd(run, "sweep")
    q = run.tier == "quick"
    ns = list(range(0, 70)) + [100, 127, 128, 1000, 10000, 65535, 2 ** 20, 2 ** 30, 2 ** 31 - 2]
    bases = [0, 1, 2, 3, 50, 100, 999, 1000, 60000, 86400000, 10 ** 9, 2 ** 31, 2 ** 40 + 1, 10 ** 13] + [r.randrange(1, 10 ** 7) for _ in range(6 if q else 200)]
    sc = [dict(name="%s-%s%d" % (via, k, i), via=via, rst=k, base=b, ns=ns if b else ns[:74], max=m) for via in ("policy", "job")
          for k in ("int", "exp") for i, b in enumerate(bases) for m in ([-1] if i % 3 else [-1, 0, 1, 5, 2 ** 31 - 1])]
    run.direct("AjRetry", "retry", sc, "C06", {})


PLANS = {k.upper()[2:]: v for k, v in list(globals().items()) if k.startswith("p_c")}
