"""Shared machinery: building the harness, running scripts, validating traces with TLC."""
import json, os, re, subprocess, sys, time, shutil, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
WORK = os.path.join(VERIF, "work")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar"
PAR = max(2, min(8, os.cpu_count() or 2))


class ToolError(Exception):
    pass


def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
    except subprocess.TimeoutExpired as x:
        raise ToolError("timeout: %s\n%s" % (" ".join(cmd), (x.stdout or b"")[-2000:].decode("utf8", "replace")))
    return p.returncode, p.stdout.decode("utf8", "replace")


def build():
    """Rebuild the harness from /repo's working tree: what was built from other contents is dropped, whatever the file times say."""
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(REPO)):
        ds[:] = sorted(x for x in ds if x not in (".git", "target"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock", ".md")):
                h.update((os.path.join(d, f) + "\0").encode())
                h.update(open(os.path.join(d, f), "rb").read())
    stamp = os.path.join(HARNESS, "target", "aj.stamp")
    if os.path.exists(os.path.join(HARNESS, "target")) and (open(stamp).read() if os.path.exists(stamp) else "") != h.hexdigest():
        sh(["cargo", "clean", "--offline", "-p", "aj", "-p", "aj_core", "-p", "aj_macro", "-p", "ajv"], cwd=HARNESS, timeout=300)
    rc, out = sh(["cargo", "build", "--offline", "--bin", "ajv"], cwd=HARNESS, timeout=850)
    if rc != 0:
        raise ToolError("harness does not build\n" + out[-6000:])
    with open(stamp, "w") as f:
        f.write(h.hexdigest())
    return os.path.join(HARNESS, "target", "debug", "ajv")


DEF = dict(op="", rop="", id="", q=0, v=0, d="", kind="normal", at=0, delay=-1, per=1000, once=-1, mr=-1, ea=-1,
           rmax=-2, rst="int", rb=100, re=True, ov=True, ctx=False, rc0=0, n=20, tick=100, ms=0, out="", res="",
           nf=0, c="", via="run", t0=-1, sl=[], rh=0, ret0=0)


def norm_label(lab):
    src = dict(lab)
    call = src.pop("call", None)
    o = dict(DEF)
    if isinstance(call, dict):
        for k in DEF:
            if k in call:
                o[k] = call[k]
        o["rop"] = call.get("op", "")
    for k in DEF:
        if k in src and src[k] is not None:
            o[k] = src[k]
    if not isinstance(call, dict):
        o["rop"] = o["op"] if o["op"] in ("submit", "cancel", "retry", "update", "cap", "done") else ""
    if o["via"] != "enq":
        o["re"], o["ov"] = o["via"] != "skip", True
    if (call or lab).get("sub"):
        o["at"] += 1        # due within this millisecond: in whole ones, at the next
    if o["op"] == "adv":
        o["n"] = lab.get("n", 1)
    if not isinstance(o["res"], str):
        o["res"] = str(o["res"])
    return {k: o[k] for k in DEF}


EVK = ("e", "id", "q", "rc", "v", "mu", "d", "p", "s", "out", "t")


def norm_trace(t, np, ign=()):
    steps = []
    for s in t["steps"]:
        steps.append(dict(lab=norm_label(s["lab"]), now=s["now"], jobs=s["jobs"], ls=s["ls"], ex=s["ex"],
                          ev=[{k: e[k] for k in EVK} for e in s["ev"] if e["e"] != "args"]))
    own = (t.get("meta") or {}).get("own", "")
    return dict(name=t["name"], np=np, own=own, ign=list(ign), steps=steps)


def run_scripts(ajv, scripts, tag, timeout=800):
    d = os.path.join(WORK, tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    src, out = os.path.join(d, "scripts.ndjson"), os.path.join(d, "out.ndjson")
    with open(src, "w") as f:
        for s in scripts:
            f.write(json.dumps(s) + "\n")
    rc, o = sh([ajv, "run", src, out, str(PAR)], timeout=timeout)
    if rc != 0:
        raise ToolError("harness failed (%d)\n%s" % (rc, o[-3000:]))
    traces = [json.loads(l) for l in open(out)]
    if len(traces) != len(scripts):
        raise ToolError("harness returned %d of %d traces" % (len(traces), len(scripts)))
    return d, traces


def plugins_of(s):
    return 0 if s.get("engine") == "bare" else int(s.get("plugins", 1))


JAVA = ["java", "-XX:+UseParallelGC", "-Xss64m"]


def tlc(module, cfg, env=None, workers=None, timeout=800, mem="6g", extra=(), meta=None):
    """Run TLC; returns (exit code, output, {states, distinct})."""
    md = meta or os.path.join(WORK, "tlc-%s-%d" % (module, os.getpid()))
    shutil.rmtree(md, ignore_errors=True)
    cp = TLA_CP
    for j in ("/opt/veriftools/tla/CommunityModules-deps.jar", "/opt/veriftools/tla/CommunityModules.jar"):
        if os.path.exists(j):
            cp += ":" + j
    os.makedirs(md + ".tmp", exist_ok=True)
    cmd = JAVA + ["-Xmx" + mem, "-Djava.io.tmpdir=" + md + ".tmp", "-cp", cp, "tlc2.TLC", "-workers", str(workers or PAR), "-metadir", md,
                  "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module + ".tla"]
    try:
        rc, out = sh(cmd, timeout=timeout, env=env, cwd=SPEC)
    finally:
        shutil.rmtree(md, ignore_errors=True)
        shutil.rmtree(md + ".tmp", ignore_errors=True)
    st = {"states": 0, "distinct": 0}
    for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
        st = {"states": int(m.group(1)), "distinct": int(m.group(2))}
    return rc, out, st


def validate(traces, props, d, tag="val", chunks=4):
    """TLC decides which recorded steps the specification does not allow.
    Returns one list of (step, property, why, id) per trace, and statistics."""
    from concurrent.futures import ThreadPoolExecutor
    n = len(traces)
    chunks = max(1, min(chunks, n // 50 + 1))
    parts = [list(range(i, n, chunks)) for i in range(chunks)]

    def one(k):
        path = os.path.join(d, "%s%d.ndjson" % (tag, k))
        with open(path, "w") as f:
            for i in parts[k]:
                f.write(json.dumps(traces[i]) + "\n")
        rc, out, st = tlc("AjTrace", "AjTrace.cfg", env={"AJ_TRACES": path, "AJ_PROPS": ",".join(props)},
                          workers=max(1, PAR // chunks + 1), meta=os.path.join(d, "%smeta%d" % (tag, k)))
        if rc != 0:
            raise ToolError("TLC failed on traces (%d)\n%s" % (rc, out[-4000:]))
        os.remove(path)
        return [json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))
                for m in re.finditer(r'^"VIOL (.*)"$', out, re.M)], st
    with ThreadPoolExecutor(chunks) as ex:
        res = list(ex.map(one, range(chunks)))
    viols = [[] for _ in range(n)]
    for k, (vs, _) in enumerate(res):
        for v in vs:
            viols[parts[k][v["t"] - 1]].append((v["l"], v["p"], v["why"], v["id"]))
    st = {"states": sum(r[1]["states"] for r in res), "distinct": sum(r[1]["distinct"] for r in res)}
    return viols, st
