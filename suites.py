"""Per property: the scopes of the design model that are explored and replayed, and further scenarios."""
import random
from scopes import *


def enq(id, v, re, ov, **k):
    return submit(id, v, via="enq", re=re, ov=ov, **k)


SCHED = dict(kind="sched", delay=150)
CRON = dict(kind="cron", per=1000)
RET = dict(rmax=2, rst="int", rb=100)
EXP = dict(rmax=3, rst="exp", rb=50)


# --- small scopes, explored exhaustively -------------------------------------------------------
def s_life(d):
    return scope([submit("a", 1), enq("a", 2, False, True), enq("a", 3, True, False), cancel("a"), retry("a"),
                  update("a", 4)], d, maxnow=600)

def s_two(d):
    return scope([submit("a", 1), submit("b", 2, **SCHED), cancel("a"), cancel("b"), retry("a"), retry("b")], d,
                 maxnow=600)

def s_sched(d):
    return scope([submit("a", 1, kind="sched", delay=150), submit("a", 2, kind="sched", at=250), update("a", 3),
                  update("a", 4, ctx=True, kind="sched", at=350), cancel("a"), submit("a", 5)], d, advs=(50, 100),
                 outs=("ok",), maxnow=500)

def s_cron(d):
    return scope([submit("a", 1, kind="cron", mr=2), submit("a", 2, kind="cron", ea=2500),
                  submit("b", 3, kind="cron", once=1000)], d, advs=(100, 900), maxnow=4200)

def s_cron2(d):
    return scope([submit("a", 1, kind="cron", per=2000, rmax=1, rb=300), submit("a", 2, kind="cron", mr=1, rmax=1, rb=100),
                  submit("a", 3, kind="cron", ea=1500, rmax=2, rb=600), cancel("a"), retry("a")], d, advs=(500, 1000),
                 maxnow=5000)

def s_retry(d):
    return scope([submit("a", 1, **RET), submit("b", 2, **EXP), submit("a", 3, rmax=0), retry("a"), cancel("a")], d,
                 advs=(100,), maxnow=900)

def s_retry2(d):
    return scope([submit("a", 1, rmax=-1, rst="exp", rb=100), submit("a", 2, kind="sched", delay=100, rmax=1, rb=0)], d,
                 advs=(100, 400), maxnow=3000)

def s_type6(d):      # a type with hooks of its own
    return scope([submit("a", 1, q=6, **RET), submit("b", 2, q=6, **EXP), submit("a", 3, q=6, ret0=1, rmax=2, rst="exp", rb=50), retry("a", q=6),
                  update("a", 4, q=6)], d, advs=(100,), maxnow=1200)

def s_type5(d):      # a function
    return scope([submit("a", 1, q=5, **RET), submit("b", 2, q=5, kind="cron", mr=2), submit("a", 3, q=5, **SCHED), retry("a", q=5), cancel("a", q=5)],
                 d, advs=(100, 900), maxnow=2200)

def s_upd(d):
    return scope([submit("a", 1, **RET), update("a", 2), update("a", 3, ctx=True), update("a", 4, ctx=True, **CRON),
                  update("z", 5), enq("a", 6, False, False)], d, maxnow=1500, advs=(100, 1000))

def s_calls(d):
    return scope([submit("a", 1), cancel("a"), update("a", 2), retry("a")], d, clients=["c1"], maxnow=300)

def s_calls2(d):
    return scope([submit("a", 1), submit("b", 2), update("a", 3)], d, clients=["c1", "c2"], outs=("ok",), maxnow=200)

def s_first(d):
    return scope([submit("a", 1), submit("b", 2), submit("c", 3, q=1)], d, clients=["c1", "c2", "c3"], outs=("ok",),
                 maxnow=100, own="C16")

def s_cap(d):
    return scope([submit("a", 1), submit("b", 2), submit("c", 3), cap(1), cap(2), cap(0)], d, outs=("ok",), maxnow=500)

def s_cap2(d):
    return scope([submit("a", 1), submit("b", 2, **RET), cap(1, 100), cap(20, 300), cap(1, 50)], d, outs=("err",),
                 advs=(50, 100), maxnow=600)

def s_fifo(d):
    return scope([submit("a", 1), submit("b", 2, kind="sched", delay=150), submit("c", 3), submit("d", 4), cap(1)], d,
                 outs=("ok",), maxnow=400, batch=2)

def s_batch(d):
    return scope([submit("a", 1, kind="sched", delay=400), submit("b", 2, kind="sched", delay=400), submit("c", 3),
                  submit("d", 4, kind="sched", delay=100), cap(1)], d, outs=("ok",), maxnow=500, batch=2)

def s_hold(d, np=2):
    return scope([submit("a", 1, **RET), submit("b", 2), cancel("a"), retry("a")], d, np=np, holds=True, maxnow=400)

def s_plug(d):
    return scope([submit("a", 1, **RET), submit("b", 2, **SCHED), cancel("a"), retry("a"), update("a", 3)], d, np=2,
                 outs=("ok", "err", "panic", "panicpost"), maxnow=500)

def s_fault(d):
    return scope([submit("a", 1), submit("b", 2, kind="sched", delay=100), cancel("a"), retry("a"), update("a", 3)], d,
                 faults=[(i, n) for i in range(9) for n in (1, 2, 1000)], maxnow=400, own="C19")

def s_fault2(d):
    return scope([submit("a", 1), submit("b", 2), enq("a", 3, True, False), retry("a"), cap(1)], d, outs=("err",),
                 faults=[(i, n) for i in range(14) for n in (1, 1000)], maxnow=300, own="C19")

def s_crash(d):
    return scope([submit("a", 1), submit("b", 2, kind="sched", delay=100), cancel("a"), retry("a"), update("a", 3)], d,
                 crashes=range(10), maxnow=400, own="C20")

def s_multi(d):
    return scope([submit("a", 1), submit("x", 2, q=1), cancel("x", q=1), cancel("a"), cap(1), cap(0, q=1), retry("x", q=1),
                  submit("y", 3, q=1, kind="sched", delay=100)], d, maxnow=300)

def s_panic(d):
    return scope([submit("a", 1), submit("b", 2), submit("c", 3, **SCHED), cap(1), retry("a")], d, outs=("ok", "panic", "panicjudge"),
                 maxnow=400)


# --- random scopes for walks -------------------------------------------------------------------
def rparams(r, tilt):
    k = r.choice({"cron": ["cron"] * 4 + ["normal"], "sched": ["sched"] * 3 + ["normal"], "fifo": ["normal"] * 5 + ["sched"],
                  }.get(tilt, ["normal", "normal", "sched", "cron"]))
    p = {"kind": k}
    if k == "sched":
        if r.random() < .6:
            p["delay"] = r.choice([0, 1, 50, 99, 100, 101, 250, 700, 1500, 100000])
        else:
            p["at"] = r.choice([0, 1, 130, 500, 1200, 3000])
    if k == "cron":
        p["per"] = r.choice([1000, 1000, 2000, 5000, 60000, 120000, 3600000])
        if r.random() < .2:
            p["once"] = r.choice([1000, 3000, 61000])
        if r.random() < .5:
            p["mr"] = r.choice([0, 1, 2, 3, 5])
        if r.random() < .4:
            p["ea"] = r.choice([999, 1000, 1001, 2500, 4000, 9000, 62000])
    if r.random() < (.85 if tilt == "retry" else .4):
        p["rmax"] = r.choice([-1, 0, 1, 2, 3, 5])
        p["rst"] = r.choice(["int", "exp"])
        p["rb"] = r.choice([0, 1, 50, 100, 300, 1000])
    return p


def rscope(r, tilt, depth, walks, own="", clients=(), faults=(), crashes=(), np=1, holds=False, outs=None, nid=None,
           queues=(0,)):
    ids = ["a", "b", "c", "d", "e", "f"][:nid or r.choice([1, 2, 3, 4])]
    qof = {i: r.choice(queues) for i in ids}
    v = [0]

    def nv():
        v[0] += 1
        return v[0]
    menu = []
    w = dict(submit=5, enq=2, cancel=2, retry=2, update=2, cap=1)
    w.update({"cancel": dict(cancel=6, retry=3), "mretry": dict(retry=6), "resub": dict(enq=5, update=5, submit=5),
              "cap": dict(cap=5, submit=7), "fifo": dict(submit=8, cap=3), "cron": dict(submit=6), "sched": dict(submit=6)}
             .get(tilt, {}))
    kinds = [k for k in w for _ in range(w[k])]
    for i in ids:
        menu.append(submit(i, nv(), q=qof[i], **rparams(r, tilt)))
    for _ in range(r.choice([6, 8, 11])):
        i = r.choice(ids)
        q = qof[i]
        k = r.choice(kinds)
        if k == "submit":
            menu.append(submit(i, nv(), q=q, **rparams(r, tilt)))
        elif k == "enq":
            menu.append(enq(i, nv(), r.random() < .5, r.random() < .5, q=q, **rparams(r, tilt)))
        elif k == "cancel":
            menu.append(cancel(i, q=q))
        elif k == "retry":
            menu.append(retry(i, q=q))
        elif k == "update":
            if r.random() < .5:
                p = rparams(r, tilt)
                if p.pop("delay", None) is not None:
                    p["at"] = r.choice([0, 400, 2000])
                menu.append(update(i, nv(), q=q, ctx=True, **p))
            else:
                menu.append(update(i, nv(), q=q))
        else:
            menu.append(cap(r.choice([0, 1, 1, 2, 3, 20]), r.choice([100, 100, 50, 300, 10, 1000]), q=q))
    advs = r.choice([(100,), (50, 100), (100, 1000), (10, 100, 500), (100, 200, 60000)])
    if any(m["tick"] >= 300 for m in menu):
        advs = advs + (300,)
    return scope(menu, depth, advs=advs, outs=outs or r.choice([("ok", "err"), ("ok", "err"), ("err",), ("ok",)]),
                 maxnow=10 ** 8, np=np, clients=clients, faults=faults, crashes=crashes, holds=holds, own=own,
                 seed=r.randrange(1, 20000), walks=walks, emit=True, emitfrom=depth,
                 wdone=r.choice([20, 30, 40]), wcall=r.choice([15, 25]), wadv=r.choice([25, 35]))


def rscopes(r, n, tilt, depth, walks, **k):
    return [rscope(r, tilt, depth, walks, **k) for _ in range(n)]
