"""Bounds (scopes) for the design model: which requests, times, faults and clients are explored."""
from ajlib import DEF

def lab(op, **k):
    o = dict(DEF)
    o.update(k)
    o["op"] = o["rop"] = op
    if op in ("submit", "update"):
        o["d"] = "d%d" % o["v"]
    if o["via"] != "enq":
        o["re"], o["ov"] = True, True
    if op == "cap" and not o["id"]:
        o["id"] = "-"
    return o

def submit(id, v, **k): return lab("submit", id=id, v=v, **k)
def cancel(id, **k): return lab("cancel", id=id, **k)
def retry(id, **k): return lab("retry", id=id, **k)
def update(id, v, **k): return lab("update", id=id, v=v, **k)
def cap(n, tick=100, q=0): return lab("cap", n=n, tick=tick, q=q)

def scope(menu, depth, advs=(100,), outs=("ok", "err"), maxnow=2000, batch=20, np=1, clients=(), faults=(),
          crashes=(), holds=False, own="", bugs=(), emit=False, emitfrom=0,
          seed=1, walks=0, wdone=25, wcall=10, wadv=30):
    return dict(menu=menu, depth=depth, advs=list(advs), outs=list(outs), maxnow=maxnow, batch=batch, np=np,
                clients=list(clients), faults=[list(f) for f in faults], crashes=list(crashes), holds=holds,
                own=own, bugs=list(bugs), emit=emit, emitfrom=emitfrom,
                seed=seed, walks=walks, wdone=wdone, wcall=wcall if clients else 0, wadv=wadv)
