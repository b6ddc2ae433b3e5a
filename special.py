"""Scenarios that are larger than what can be explored exhaustively; the specification judges their traces just the same."""
from gen import dress, tail, STRS
import gen


PANICS = ["panic", "panicpost", "panicjudge"]


def S(id, v, **k):
    o = dict(op="submit", id=id, v=v, q=k.pop("q", 0), **k)
    if "rmax" in o:
        o.setdefault("rst", "int")
    return o

def adv(ms, n=1): return dict(op="adv", ms=ms, n=n)
def done(id, out="ok"): return dict(op="done", id=id, out=out)
def cap(n, tick=100, q=0): return dict(op="cap", id="-", q=q, n=n, tick=tick)
def auto(out="ok"): return dict(op="auto", out=out)
def call(c, p): return dict(op="begin", c=c, call=p)
def end(c): return dict(op="end", c=c)


def big(r, name, n, notdue, k=20, own="", order=None, **d):
    """Many waiting jobs, some of which are not due, some due later."""
    st = [S("w0", 1), done("w0")]
    if k != 20:
        st.append(cap(k))
    ids = []
    kinds = ["n"] * (n - notdue) + ["s"] * notdue
    how = order or r.choice(["mix", "first", "last"])
    if how == "mix":
        r.shuffle(kinds)
    elif how == "first":
        kinds.sort(reverse=True)
    for i, x in enumerate(kinds):
        id = "j%d" % i
        ids.append((id, x))
        st.append(S(id, 10 + i) if x == "n" else S(id, 10 + i, kind="sched", delay=r.choice([150, 350, 100000, 100000])))
    if r.random() < .4:
        st += [dict(op="cancel", id=r.choice(ids)[0], q=0) for _ in range(2)]
    t = [i for i, x in ids if x == "n"]
    st.append(adv(100, 2))
    # a few complete by hand, the rest by themselves
    for i in t[:r.choice([1, 3])]:
        st.append(done(i, r.choice(["ok", "err"])))
    st.append(adv(100, 2))
    st.append(auto("ok"))
    for i in t:
        st.append(done(i))
    st.append(adv(100, 6 + 2 * (n // max(1, k))))
    st += [S("z", 999), adv(100, 4)]
    return dress(st, r, name, own=own, **d)


def waves(r, name, n, k, own="", **d):
    """Submissions while others run; completions in any order."""
    st = [S("w0", 1), done("w0"), cap(k, 100)]
    live = []
    for i in range(n):
        id = "j%d" % i
        st.append(S(id, 10 + i, **(dict(rmax=1, rb=100) if r.random() < .2 else {})))
        live.append(id)
        if r.random() < .35:
            st.append(adv(100, r.choice([1, 2])))
        if r.random() < .4:
            st.append(done(r.choice(live), r.choice(["ok", "ok", "err"])))
    for _ in range(4):
        st.append(adv(100, 2))
        l = live[:]
        r.shuffle(l)
        st += [done(i, r.choice(["ok", "ok", "err"])) for i in l[:k + 2]]
    st += [auto("ok")] + [done(i) for i in live] + [adv(100, 8 + 2 * n // max(1, k))]
    return dress(st, r, name, own=own, **d)


def caps(r, name, own="C10", **d):
    """The limit and the interval change while jobs wait and run."""
    st = [S("w0", 1), done("w0")]
    live, i, tick = [], 0, 100
    for _ in range(r.choice([8, 14, 20])):
        x = r.random()
        if x < .45:
            for _ in range(r.choice([1, 1, 2, 4])):
                st.append(S("j%d" % i, 10 + i, **(dict(kind="sched", delay=r.choice([50, 150])) if r.random() < .2 else {})))
                live.append("j%d" % i)
                i += 1
        elif x < .65:
            tick = r.choice([100, 100, 100, 30, 250, 500, 1000])
            st.append(cap(r.choice([0, 1, 1, 2, 3, 5, 25, 50, 10 ** 9]), tick))
        elif x < .85:
            st.append(adv(r.choice([50, 100, tick]), r.choice([1, 2, 3])))
        elif live:
            st.append(done(r.choice(live), r.choice(["ok", "err"])))
    st += [adv(tick, 3), cap(r.choice([1, 2, 4, 60]), 100), adv(100, 3 + tick // 100)]
    st += [done(x) for x in live]
    st += [adv(100, 3)] + [done(x) for x in live] + [adv(100, 3)]
    st += [auto("ok")] + [done(x) for x in live] + [adv(100, 6 + len(live))]
    return dress(st, r, name, own=own, **d)


def wide(r, name, k, n, own="C10", **d):
    """A limit above the default, and as many jobs."""
    st = [S("w0", 1), done("w0"), cap(k), adv(100, 2)] + [S("j%d" % i, 10 + i) for i in range(n)] + [adv(100, 3)]
    st += [done("j%d" % i) for i in range(0, n, 7)] + [adv(100, 3), cap(max(1, k // 2)), adv(100, 2)]
    st += [done("j%d" % i) for i in range(0, n, 2)] + [adv(100, 3), auto("ok")] + [done("j%d" % i) for i in range(n)]
    st += [adv(100, 6 + n // max(1, k // 2) * 2)]
    return dress(st, r, name, own=own, **d)


def cronrun(r, name, **d):
    """A cron job over many occurrences, with slots missed, failures and retries."""
    per = r.choice([1000, 1000, 2000, 5000, 10000, 30000, 60000, 300000, 3600000, 86400000])
    p = dict(kind="cron", per=per)
    if r.random() < .15:
        p = dict(kind="cron", once=r.choice([1000, 3000, 60000]))
        per = 1000
    if r.random() < .5:
        p["mr"] = r.choice([0, 1, 2, 3, 4, 6])
    if r.random() < .5:
        p["ea"] = r.choice([per - 1, per, per + 1, 2 * per, 3 * per - 1, 3 * per, 5 * per + 7, 0])
    if r.random() < .5:
        p.update(rmax=r.choice([-1, 0, 1, 2, 3]), rst=r.choice(["int", "exp"]), rb=r.choice([0, 50, 100, per // 2, per, 2 * per + 10]))
    st = []
    if r.random() < .5:
        st += [S("w", 9), done("w"), adv(r.choice([1, 137, 499, 1000]))]
    st.append(S("a", 1, **p))
    st.append(adv(50))
    for i in range(r.choice([6, 9, 12])):
        x = r.random()
        st.append(adv(100, 1) if x < .15 else adv(per, 1) if x < .7 else adv(per // 2 + 1, 1) if x < .85 else adv(3 * per + 20, 1))
        st.append(adv(100, r.choice([1, 2, 3])))
        y = r.random()
        if y < .85:
            st.append(done("a", r.choice(["ok", "ok", "err"])))
        if y > .9:
            st.append(dict(op=r.choice(["cancel", "retry"]), id="a", q=0))
        if y < .08:
            st.append(dict(op="update", id="a", q=0, v=100 + i))
    st += [adv(per, 2), adv(100, 2), done("a"), adv(100, 2), adv(per, 2)]
    return dress(st, r, name, **d)


def retryrun(r, name, k=None, **d):
    """A job that fails again and again."""
    k = k or r.choice([2, 4, 6, 9, 14, 20])
    rst = r.choice(["int", "exp", "exp"])
    rb = r.choice([0, 1, 50, 100, 333, 1000, 60000])
    rmax = r.choice([-1, -1, 0, 1, 2, k - 1, k, k + 3])
    p = dict(rmax=rmax, rst=rst, rb=rb)
    if r.random() < .25:
        p.update(kind="sched", delay=r.choice([100, 250]))
    st = [S("a", 1, **p), adv(100, 3)]
    for i in range(k):
        st.append(done("a", "err" if r.random() < .95 else "ok"))
        dl = rb if rst == "int" else rb * 2 ** (i + 1)
        if dl > 10 ** 9:
            st += [adv(100, 2), adv(10 ** 8, 2)]
            break
        # just before, at, and after the due time
        if dl > 200:
            st.append(adv(dl - 101))
        st.append(adv(50, 3))
        st.append(adv(100, 3))
        if r.random() < .08:
            st.append(dict(op=r.choice(["cancel", "retry"]), id="a", q=0))
        if r.random() < .05:
            st.append(dict(op="update", id="a", q=0, v=50 + i))
    st += [adv(100, 3), dict(op="retry", id="a", q=0), adv(100, 3), done("a", "err"), adv(100, 3)]
    return dress(st, r, name, **d)


def datarun(r, name, **d):
    """Data of all sorts, kept through repeated executions, updates and lookups."""
    st = []
    for i in range(r.choice([1, 2, 4])):
        id = "d%d" % i
        v = r.choice([0, 1, -1, 7, 255, 65536, 10 ** 9, -10 ** 9, r.randrange(10 ** 9)])
        st.append(S(id, v, **r.choice([{}, dict(rmax=2, rb=0), dict(kind="cron", per=1000), dict(kind="sched", delay=50)])))
        st += [adv(100, 2), done(id, "err"), adv(1000, 1), done(id, "ok"), adv(100, 2), dict(op="get", id=id, q=0)]
        st += [dict(op="update", id=id, q=0, v=r.randrange(10 ** 9)), adv(1000, 1), done(id), adv(100, 1)]
        if r.random() < .5:
            st += [dict(op="retry", id=id, q=0), adv(100, 2), done(id), adv(100, 1)]
    x = dress(st, r, name, odd=.6, **d)
    if r.random() < .15:
        for s in x["steps"]:
            if s["op"] in ("submit", "update") and r.random() < .6:
                s["s"] = "".join(r.choice(["abc ", "\u2713", "\"", "0"]) for _ in range(r.choice([300, 5000, 20000])))
    return x


def attrrun(r, name, **d):
    st = []
    for i in range(r.choice([2, 4])):
        kind = r.choice(["normal", "sched"])
        st.append(dict(op="attr", id="t%d" % i, v=r.choice([0, 3, -5, r.randrange(10 ** 9)]), s=r.choice(STRS),
                       fn=r.choice(["sync", "async", "plain", "plain", "order"]), via=r.choice(["run", "just"]) if kind == "normal" else "ctx", kind=kind,
                       at=r.choice([0, 150, 400])))
        if st[-1]["fn"] == "order":
            st[-1]["via"], st[-1]["kind"] = r.choice(["run", "just"]), "normal"
        if r.random() < .6:
            st += [adv(100, r.choice([1, 3]))]
    st += [adv(100, 6)]
    # hooks do not say which type a job has
    return dress(st, r, name, np=0, **d)


def rejects(r, name, **d):
    """Data that cannot be stored."""
    k = r.randrange(4)
    st = [dict(op="submit", id="u", q=4, v=1 + k, via="run"), adv(100, 3), S("a", 2), adv(100, 2), done("a"),
          dict(op="submit", id="u2", q=4, v=2 + k, via=r.choice(["run", "add"])), adv(100, 3)]
    x = dress(st, r, name, **d)
    for s in x["steps"]:
        if s.get("q") == 4:
            s["via"] = "run"
    return x


def poison(r, name, **d):
    """Data that cannot be stored, given to a job in any state: refused, and nothing else happens."""
    bad = lambda: 900000001 + r.randrange(3)
    st = []
    for i in range(r.choice([1, 2, 3])):
        a = "p%d" % i
        req = lambda: r.choice([dict(op="update", id=a, q=0, v=bad()), S(a, bad(), re=r.random() < .7), S(a, bad(), kind="sched", delay=200)])
        st += r.choice([[], [req()]])
        st += [S(a, 10 + i, **r.choice([{}, dict(rmax=2, rb=100), dict(kind="sched", delay=300), dict(kind="cron", per=1000)]))]
        for _ in range(r.choice([2, 4])):
            st += r.choice([[req()], [req()], [adv(100, r.choice([1, 3]))], [done(a, r.choice(["ok", "err"]))], [dict(op="cancel", id=a, q=0)],
                            [dict(op="update", id=a, q=0, v=100 + r.randrange(50))]])
        st += [adv(100, 4), req(), done(a), adv(100, 1), req(), adv(1000, 1), dict(op="get", id=a, q=0), done(a), adv(100, 2)]
    x = dress(st, r, name, **d)
    for s in x["steps"]:
        if s.get("v", 0) > 900000000 and s.get("via") == "just":
            s["via"] = "run"
    return x


def races(r, name, own="", **d):
    """Calls whose futures are polled by hand while the job moves on."""
    st = [S("a", 1, **r.choice([{}, {}, dict(rmax=2, rb=r.choice([0, 100])), dict(kind="sched", delay=100), dict(kind="cron", per=1000)]))]
    if r.random() < .3:
        st += [S("b", 2)]
    reqs = [lambda i: dict(op="update", id="a", q=0, v=100 + i), lambda i: dict(op="cancel", id="a", q=0),
            lambda i: dict(op="retry", id="a", q=0), lambda i: S("a", 200 + i),
            lambda i: S("a", 300 + i, via="enq", re=r.random() < .5, ov=r.random() < .5),
            lambda i: dict(op="update", id="a", q=0, v=400 + i, ctx=True)]
    open_, i = [], 0
    for _ in range(r.choice([8, 14])):
        i += 1
        x = r.random()
        if x < .3 and len(open_) < 2:
            c = "c%d" % i
            open_.append(c)
            st.append(call(c, r.choice(reqs)(i)))
        elif x < .5 and open_:
            st.append(dict(op="poll", c=r.choice(open_)))
        elif x < .6 and open_:
            c = open_.pop(r.randrange(len(open_)))
            st.append(end(c))
        elif x < .8:
            st.append(adv(r.choice([100, 100, 1000])))
        elif x < .95:
            st.append(done("a", r.choice(["ok", "err"])))
        else:
            st.append(r.choice(reqs)(i))
    st += [end(c) for c in open_]
    t = tail(st, r, 0)
    return dress(st + t, r, name, own=own, **d)


def crossing(r, name, own="", **d):
    """One call that begins at one point of a job's life and goes on at a later one."""
    base = [S("a", 1, **r.choice([{}, dict(rmax=2, rb=r.choice([0, 100])), dict(kind="sched", delay=100),
                                  dict(kind="cron", per=1000, mr=r.choice([0, 2])), dict(kind="cron", per=1000, rmax=1, rb=100)]))]
    for k in range(r.choice([1, 2, 3])):
        base += [adv(r.choice([100, 100, 1000]), r.choice([1, 1, 2])), done("a", r.choice(["ok", "err"]))]
        if r.random() < .15:
            base += [dict(op=r.choice(["cancel", "retry"]), id="a", q=0)]
    base += [adv(100)]
    i = r.randrange(1, len(base))
    j = r.randrange(i, len(base)) + 1
    q = r.choice([dict(op="update", id="a", q=0, v=100), dict(op="update", id="a", q=0, v=101, ctx=True),
                  dict(op="update", id="a", q=0, v=102, ctx=True, kind="sched", at=r.choice([50, 250, 1200])), dict(op="update", id="a", q=0, v=103),
                  dict(op="retry", id="a", q=0), dict(op="cancel", id="a", q=0), S("a", 104), S("a", 105, via="enq", re=False, ov=True)])
    st = base[:i] + [call("c1", q)] + base[i:j] + r.choice([[], [dict(op="poll", c="c1")], [dict(op="poll", c="c1"), adv(100)]]) \
        + [end("c1")] + base[j:]
    return dress(st + tail(st, r, 0), r, name, own=own, **d)


def holds(r, name, np=None, **d):
    """Hooks that take their time."""
    np = np or r.choice([1, 2, 3])
    st = [dict(op="hold", before=r.random() < .7, after=r.random() < .7)]
    ids = ["a", "b"]
    st += [S("a", 1, **r.choice([{}, dict(rmax=1, rb=100)])), S("b", 2)]
    for _ in range(14):
        x = r.random()
        i = r.choice(ids)
        st.append(adv(100) if x < .25 else dict(op="relb", id=i) if x < .45 else dict(op="rela", id=i) if x < .65
                  else done(i, r.choice(["ok", "err"] + PANICS if r.random() < .3 else ["ok", "err"])) if x < .85
                  else dict(op=r.choice(["cancel", "retry"]), id=i, q=0) if x < .92
                  else dict(op="hold", before=r.random() < .5, after=r.random() < .5) if x < .97 else dict(op="plug"))
    st += tail(st, r, np) + [auto("ok"), adv(100, 2)]
    return dress(st, r, name, np=np, **d)


def first(r, name, own="C16", **d):
    """Submissions of types not used before, made concurrently: their futures are polled in any order, and the
    engine's threads may not get to run before several have been made."""
    n = r.choice([2, 2, 3, 4, 6, r.choice([6, 25]), r.choice([6, 40])])
    qs = r.choice([[0], [0], [0, 1], [0, 1, 2]])
    st, open_ = [], []
    frozen = r.random() < .5
    if frozen:
        st.append(dict(op="freeze"))
    subs = [S("j%d" % i, i + 1, q=r.choice(qs), via=r.choice(["run", "run", "add", "just", "enq"]), re=True, ov=True,
              **r.choice([{}, {}, {}, dict(kind="sched", delay=100)])) for i in range(n)]
    todo = subs[:]
    while todo or (open_ and r.random() < .8):
        x = r.random()
        if todo and (x < .6 or not open_):
            c = "c%d" % len(st)
            open_.append(c)
            st.append(call(c, todo.pop(0)))
        elif x < .85 and open_:
            st.append(dict(op="poll", c=r.choice(open_)))
        elif frozen and x < .9 and (n < 20 or not todo):
            st.append(dict(op="thaw"))
            frozen = False
        elif open_ and not frozen:
            st.append(end(open_.pop(r.randrange(len(open_)))))
    if frozen:
        st.append(dict(op="thaw"))
    r.shuffle(open_)
    st += [end(c) for c in open_]
    fin = [done("j%d" % i, r.choice(["ok", "err"])) for i in range(n)]
    st += [adv(100, 4)] + fin + [adv(100, 2), S("later", 90, q=r.choice(qs)), S("other", 91, q=3), adv(100, 3)]
    st += [done("later"), done("other"), adv(100, 2)]
    x = dress(st, r, name, own=own, **d)
    for a, b in zip(x["steps"], st):   # fire-and-forget stays what it is
        if "call" in a:
            a["call"]["via"] = b["call"]["via"]
    return x


def backlog(r, name, own="", **d):
    """More requests at once than a queue takes in: its thread does not get to run before all have been made."""
    n = r.choice([5, 18, 25, 40])
    st = [S("w%d" % i, 1 + i, **r.choice([{}, dict(kind="sched", delay=10 ** 7), dict(kind="sched", delay=150)])) for i in range(6)]
    st += [adv(100, 2)] + [done("w%d" % i, r.choice(["ok", "err"])) for i in range(6) if r.random() < .6]
    st += [dict(op="freeze")]
    ws = ["w%d" % i for i in range(6)]
    r.shuffle(ws)
    cs = []
    for i in range(n):
        c = "c%d" % i
        cs.append(c)
        if ws and r.random() < .25:
            w = ws.pop()
            st.append(call(c, r.choice([dict(op="cancel", id=w, q=0), dict(op="retry", id=w, q=0), dict(op="update", id=w, q=0, v=70 + i), S(w, 70 + i, re=True, ov=True, via="enq")])))
        else:
            st.append(call(c, S("j%d" % i, 100 + i, via=r.choice(["run", "add", "enq", "just"]), re=True, ov=True, **r.choice([{}, {}, dict(kind="sched", delay=100)]))))
    st += [dict(op="poll", c=r.choice(cs)) for _ in range(r.choice([0, 3]))] + [dict(op="thaw")]
    r.shuffle(cs)
    st += [end(c) for c in cs] + [auto("ok"), adv(100, 5)]
    x = dress(st, r, name, own=own, **d)
    for a, b in zip(x["steps"], st):   # fire-and-forget stays what it is
        if "call" in a and "via" in b["call"]:
            a["call"]["via"] = b["call"]["via"]
    return x


def first_control(s):
    """The same submissions one after the other."""
    import json
    c = json.loads(json.dumps(s))
    c["meta"] = {}
    out = []
    for x in c["steps"]:
        if x["op"] == "begin":
            out.append(x["call"])
        elif x["op"] not in ("poll", "end", "drop", "freeze", "thaw"):
            out.append(x)
    c["steps"] = out
    return [c]


def panics(r, name, own="C15", **d):
    """Bodies that panic, with others waiting, running and on other queues."""
    st = [S("a0", 1), S("x0", 2, q=1)]
    ids = [("a0", 0), ("x0", 1)]
    if r.random() < .5:
        st.append(cap(r.choice([1, 2])))
    sched = [{}, {}, dict(rmax=2, rb=50), dict(kind="sched", delay=50), dict(kind="cron", per=1000)]
    for i in range(r.choice([6, 12, 24])):
        x = r.random()
        if r.random() < .12:
            st.append(dict(op="prepanic", id=r.choice(ids)[0]))
        if x < .35:
            q = r.choice([0, 0, 1])
            ids.append(("j%d" % i, q))
            st.append(S("j%d" % i, 10 + i, q=q, **r.choice(sched)))
        elif x < .6:
            st.append(adv(r.choice([100, 100, 1000]), r.choice([1, 2])))
        elif x < .9:
            st.append(done(r.choice(ids)[0], r.choice(["panic", "panic", "panicpost", "panicjudge", "ok", "err"])))
        elif x < .95:
            st.append(dict(op="retry", id=r.choice(ids)[0], q=0))
            st[-1]["q"] = dict(ids)[st[-1]["id"]]
        else:
            st += [auto(r.choice(PANICS)), adv(100, 2), dict(op="auto")]
    fin = [done(i, r.choice(["panic", "panicpost", "ok", "ok"])) for i, _ in ids]
    st += [adv(100, 2)] + fin + [adv(100, 2)] + fin + [S("later", 90), S("later1", 91, q=1), S("later2", 92, q=2), adv(100, 3)]
    st += [done("later"), done("later1"), adv(100, 6)]
    return dress(st, r, name, own=own, **d)


def many_panics(r, name, n, own="C15", **d):
    """More panicking jobs than the limit."""
    k = r.choice([1, 3, 20])
    p = r.choice(PANICS)
    st = [S("w", 1), done("w"), cap(k)] + [S("j%d" % i, 10 + i) for i in range(n)] + [adv(100, 2), auto(p)]
    st += [done("j%d" % i, p) for i in range(min(n, k))] + [adv(100, 4 + 2 * n // k), auto("ok"), S("z", 90), adv(100, 4)]
    return dress(st, r, name, own=own, **d)


def panic_control(s):
    import json
    t = json.dumps(s)
    for p in PANICS:
        t = t.replace('"%s"' % p, '"err"')
    c = json.loads(t)
    c["steps"] = [x for x in c["steps"] if x["op"] != "prepanic"]
    c["meta"] = {}
    c.pop("pp", None)
    return [c]


def again(steps, r):
    """Requests that met a failure are sometimes repeated."""
    out, armed = [], False
    for s in steps:
        out.append(s)
        if armed and s["op"] in ("submit", "cancel", "retry", "update") and r.random() < .6:
            out.append(dict(s))
        armed = s["op"] in ("fault", "crash")
    return out


def faults(r, name, own="C19", kind="fault", **d):
    """Longer histories in which operations fail now and then (or the process dies, mostly once)."""
    ids = ["a", "b", "c", "d"]
    v = [0]

    def req():
        v[0] += 1
        i = r.choice(ids)
        x = r.random()
        if x < .5:
            return S(i, v[0], **r.choice([{}, {}, {}, dict(kind="sched", delay=r.choice([50, 150])), dict(rmax=2, rb=100)]))
        if x < .6:
            return S(i, v[0], via="enq", re=r.random() < .5, ov=r.random() < .5)
        return dict(op="cancel", id=i, q=0) if x < .72 else dict(op="retry", id=i, q=0) if x < .86 \
            else dict(op="update", id=i, q=0, v=v[0])
    st = []
    if r.random() < .85:
        st += [S("w", 99), done("w")]
    if r.random() < .3:
        st += [S("a", 100), cap(r.choice([1, 2]))]
    left = 3 if kind == "fault" else r.choice([1, 1, 1, 2, 3])
    n = r.choice([6, 10, 16])
    for i in range(n):
        x = r.random()
        s = req() if x < .5 else adv(100) if x < .75 else done(r.choice(ids), r.choice(["ok", "err"]))
        if left and s["op"] != "done" and r.random() < .4 or (left and kind == "crash" and i > n // 2):
            left -= 1
            if kind == "fault":
                st.append(dict(op="fault", **{"from": r.choice([0, 0, 1, 2, 3, 4, 5, 6, 8, 11, 15]), "len": r.choice([1, 1, 2, 3, 1000])}))
                st.append(s)
                if s["op"] == "adv" and r.random() < .5:
                    st += [dict(op="fault", **{"from": 0, "len": 1000}), s]
            else:
                st += [dict(op="crash", at=r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 8])), s]
                if r.random() < .5:
                    st += [S("wake0", 900)]
        else:
            st.append(s)
    st = again(st, r)
    t = tail(st, r, 0)
    return dress(st + t, r, name, own=own, **d)


def two(r, name, own="C14", **d):
    """Two types side by side; everything is done to both."""
    st = []
    qs = [0, 1]
    ids = {q: ["%s%d" % ("ax"[q], i) for i in range(r.choice([1, 2, 4]))] for q in qs}
    v = 0
    sched = [{}, {}, {}, dict(rmax=2, rb=50), dict(kind="sched", delay=150), dict(kind="cron", per=1000)]
    for _ in range(r.choice([12, 20, 30])):
        v += 1
        q = r.choice(qs)
        i = r.choice(ids[q])
        x = r.random()
        st.append(S(i, v, q=q, **r.choice(sched)) if x < .35
                  else dict(op="cancel", id=i, q=q) if x < .45 else dict(op="retry", id=i, q=q) if x < .52
                  else dict(op="update", id=i, q=q, v=v) if x < .58
                  else cap(r.choice([0, 1, 2, 20]), r.choice([100, 100, 50, 300]), q=q) if x < .68
                  else adv(r.choice([100, 100, 100, 300, 1000])) if x < .84
                  else done(i, r.choice(["ok", "err"] + PANICS)))
    t = tail(st, r, 0)
    return dress(st + t, r, name, own=own, **d)


BADCRON = ["", "nonsense", "* * * *", "60 * * * * * *", "* 60 * * * * *", "* * 24 * * * *", "* * * 32 * * *", "* * * 0 * * *",
           "* * * * 13 * *", "* * * * * Foo *", "* * * * Foo * *", "* * * * * * * *", "a * * * * * *", "5-2000 * * * * * *", "-1 * * * * * *"]


def blocked(r, name, own="C14", **d):
    """A job whose body keeps its thread: the other types do not notice."""
    v = [10]
    sched = [{}, {}, dict(rmax=2, rb=50), dict(kind="sched", delay=150), dict(kind="cron", per=1000)]

    def others(n):
        st = []
        for _ in range(n):
            v[0] += 1
            q = r.choice([1, 2])
            i = "%s%d" % ("axy"[q], r.randrange(3))
            x = r.random()
            st.append(S(i, v[0], q=q, **r.choice(sched)) if x < .4
                      else dict(op="cancel", id=i, q=q) if x < .46 else dict(op="retry", id=i, q=q) if x < .52
                      else dict(op="update", id=i, q=q, v=v[0]) if x < .58
                      else cap(r.choice([1, 2, 20]), r.choice([100, 100, 50, 300]), q=q) if x < .64
                      else adv(r.choice([100, 100, 100, 300, 1000])) if x < .85
                      else done(i, r.choice(["ok", "err"])))
        return st
    st = others(r.choice([0, 0, 5])) + [S("a", 1)] + [adv(100, 1)]
    for _ in range(r.choice([1, 2])):
        st += [dict(op="block", id="a")] + others(r.choice([6, 12])) + [adv(100, 2), dict(op="unblock")] + others(r.choice([0, 4]))
    t = [adv(100, 2), done("a"), adv(100, 2)]
    x = dress(st + t + tail(st, r, 0), r, name, own=own, **d)
    for s in x["steps"]:
        s.pop("in", None)
    return x


def cronlang_run(r, name, **d):
    """A cron job with a general expression, followed from slot to slot."""
    import cronlang
    ex = cronlang.expression(r)
    sl = cronlang.slots(ex)
    end = sl[-3] if len(sl) >= 3 and sl[-1] != cronlang.CLIP else sl[-1] if sl else 10 ** 6
    p = dict(kind="cron", ex=ex, sl=sl)
    if r.random() < .4:
        p["mr"] = r.choice([0, 1, 2, 4])
    if r.random() < .4 and sl:
        p["ea"] = r.choice(sl[:5]) + r.choice([-1, 0, 1])
        p["ea"] = min(p["ea"], 10 ** 9)
    if r.random() < .4:
        p.update(rmax=r.choice([-1, 1, 2]), rst=r.choice(["int", "exp"]), rb=r.choice([0, 100, 700, 5000]))
    now = 0
    st = []

    def go(ms, n=1):
        nonlocal now
        if ms > 0 and now + ms * n < min(end, 10 ** 9):
            st.append(adv(ms, n))
            now += ms * n
    if r.random() < .5:
        st += [S("w", 9), done("w")]
        go(r.choice([1, 137, 499, 1000, 40000]))
    if r.random() < .3:
        st += [dict(op="badcron", ex=x) for x in r.sample(BADCRON, 4)]
    st.append(S("a", 1, **p))
    for i in range(r.choice([4, 7])):
        nx = next((s for s in sl if s > now), None)
        if nx is None or nx >= end:
            break
        go(nx - now - r.choice([1, 50, 150]))
        go(50, r.choice([2, 4]))
        go(100, 2)
        x = r.random()
        if x < .8:
            st.append(done("a", r.choice(["ok", "ok", "err"])))
        if x > .9:
            st.append(dict(op=r.choice(["cancel", "retry"]), id="a", q=0))
        if x < .1:
            st.append(dict(op="update", id="a", q=0, v=100 + i))
        elif x < .15:
            st.append(dict(op="update", id="a", q=0, v=100 + i, ctx=True, **p))
        go(100, r.choice([1, 3]))
        if r.random() < .2:
            far = [s for s in sl if now < s < end][:4]
            if far:
                go(far[-1] - now + 30)
    st += [done("a")]
    go(100, 2)
    return dress(st, r, name, **d)


def ticks(r, name, own="C10", **d):
    """The polling interval is changed, by a lot, and jobs come one at a time."""
    st = [S("w0", 1), done("w0")]
    i = 0
    for _ in range(r.choice([1, 2, 3])):
        tick = r.choice([5, 10, 20, 40, 300, 500, 1000, 2500])
        st += [cap(r.choice([1, 3, 20]), tick), auto("ok"), adv(100, r.choice([1, 2]))]
        if r.random() < .3:
            st += [adv(1000, 3)]
        g = max(1, tick // r.choice([2, 4, 10]))
        for _ in range(r.choice([4, 8])):
            st.append(S("j%d" % i, 10 + i))
            i += 1
            st.append(adv(g, r.choice([1, 2, 3, 4, 5])))
    st += [adv(1000, 6)]
    return dress(st, r, name, own=own, **d)


def crowd(r, name, n, own="", **d):
    """Very many jobs that are not due, in front of some that are."""
    st = [S("w0", 1), done("w0")]
    if r.random() < .5:
        st.append(cap(r.choice([1, 5])))
    far = lambda: r.choice([dict(kind="sched", delay=10 ** 7), dict(kind="sched", delay=10 ** 7), dict(kind="cron", per=86400000)])
    st += [S("f%d" % i, 10 + i, **far()) for i in range(n)]
    st += [auto("ok"), S("a", 500), S("b", 501, kind="sched", delay=r.choice([50, 150]))]
    st += [S("g%d" % i, 300 + i, **far()) for i in range(r.choice([0, 3]))]
    st += [adv(100, 6), dict(op="cancel", id="f0", q=0), S("c", 502), adv(100, 5)]
    return dress(st, r, name, own=own, **d)


def idle(r, name, own="", **d):
    """Hundreds of polls with nothing to do, before and between jobs."""
    q = lambda: adv(100, r.choice([70, 150, 300]))
    st = [S("w0", 1), adv(100, 2), done("w0")] if r.random() < .6 else [S("w0", 1, kind="sched", delay=10 ** 7), adv(100, 2)]
    for i in range(3):
        st += [q(), S("a%d" % i, 2 + i, **r.choice([{}, {}, dict(kind="sched", delay=r.choice([0, 150, 7000])), dict(rmax=1, rb=100), dict(kind="cron", per=5000, mr=3)])), adv(100, 3)]
        if r.random() < .6:
            st += [adv(100, 70)]
        st += [done("a%d" % i, r.choice(["ok", "err"])), adv(100, 3)]
        if r.random() < .5:
            st += [q(), dict(op="retry", id="a%d" % i, q=0), adv(100, 3), done("a%d" % i), adv(100, 2)]
    return dress(st, r, name, own=own, types=False, **d)


def herd(r, name, n, own="", **d):
    """Hundreds of jobs that are not due and that nobody asks about, among some that are."""
    tick = r.choice([100, 100, 300])
    st = [S("w0", 1), adv(100, 2), done("w0"), cap(r.choice([1, 3, 20, 50]), tick=tick), adv(100, 2)]
    fill = lambda k: dict(op="fill", n=k)
    m = r.randrange(n)
    st += [fill(m), S("a", 2), S("s", 3, kind="sched", delay=r.choice([50, 250, 700])), fill(n - m)]
    st += [S("b%d" % i, 10 + i) for i in range(r.choice([1, 4]))]
    st += [adv(tick)] * r.choice([0, 0, 1, 2]) + [auto("ok"), r.choice([adv(tick, 6), adv(tick // 4, 16)])]
    st += [dict(op=r.choice(["cancel", "retry"]), id="s", q=0), S("c", 50, re=True), S("a", 51, re=True), fill(r.choice([0, 25])), r.choice([adv(tick, 4), adv(tick // 4, 16)])]
    st += [S("t%d" % i, 60 + i, **r.choice([{}, dict(kind="sched", delay=120)])) for i in range(r.choice([2, 6]))] + [adv(tick, 5)]
    return dress(st, r, name, own=own, types=False, **d)


def samename(r, name, own="C14", **d):
    """Another type with the name of one in use: it is refused, and nothing else is affected."""
    st = [S("a", 1, **r.choice([{}, dict(rmax=1, rb=50), dict(kind="sched", delay=100)])), adv(100)]
    for i in range(r.choice([1, 1, 2])):
        st.append(S("n%d" % i, 50 + i, q=7, via=r.choice(["run", "add"])))
        st.append(r.choice([adv(100), done("a", r.choice(["ok", "err"])), dict(op="cancel", id="n0", q=7), S("b", 60 + i),
                            dict(op="retry", id="n0", q=7), cap(2, q=7)]))
    qs = r.sample([1, 2, 3], 2)
    st += [S("x", 70, q=qs[0]), adv(100), S("y", 71, q=qs[1], kind="sched", delay=100), S("b", 72), adv(100, 3)]
    st += [done("a"), done("x"), done("y"), done("b"), adv(100, 3)]
    via = [(s.get("via"), s.get("in")) for s in st]
    x = dress(st, r, name, own=own, types=False, **d)
    for s, (v, _) in zip(x["steps"], via):   # fire-and-forget reports nothing
        if s.get("q") == 7:
            s.pop("in", None)
            if v:
                s["via"] = v
    return x


def samename_control(s):
    import json
    c = json.loads(json.dumps(s))
    c["steps"] = [x for x in c["steps"] if x.get("q") != 7]
    c["meta"] = {}
    return [c]


def full(r, name, own="C14", **d):
    """One type is at its limit while another one has work."""
    k = r.choice([1, 2, 20])
    st = [S("a0", 1), S("x0", 2, q=1), done("a0"), done("x0"), cap(k), adv(100, 2)]
    if r.random() < .5:
        st += [cap(r.choice([1, 20]), q=1), adv(100, 2)]
    st += [S("a%d" % (i + 1), 10 + i) for i in range(k + r.choice([0, 2]))] + [adv(100, 2)]
    st += [S("x%d" % (i + 1), 50 + i, q=1) for i in range(r.choice([1, 3]))] + [adv(100, 4)]
    st += [dict(op="cancel", id="x1", q=1), done("x1"), adv(100, 2), done("a1"), adv(100, 3)]
    st += [auto("ok")] + [done("a%d" % (i + 1)) for i in range(k)] + [adv(100, 4)]
    return dress(st, r, name, own=own, **d)
