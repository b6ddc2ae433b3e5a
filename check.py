#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of cptrodgers/aj on /repo's working tree.

1. TLC explores the design model (spec/Aj.tla) in the property's scopes: the property kernel
   (spec/AjStep.tla) accepts every step of every behaviour.
2. The behaviours TLC generated (a cover of all transitions, and walks) are replayed against the real engine.
3. TLC validates every recorded trace against the kernel (spec/AjTrace.tla).
exit 0: held on everything explored; exit 1: VIOLATION; exit 2: tool error."""
import json, os, random, re, sys, time, traceback
from ajlib import *
import gen, suites, plans

ALL = ["C%02d" % i for i in range(1, 23)]


class Case:
    """A script and, for properties that are about a disturbance, scripts without it."""
    __slots__ = ("script", "controls")

    def __init__(self, script, controls=()):
        self.script, self.controls = script, list(controls)


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, steps_validated=0, samples=[])
        self.found = []
        self.notes = []
        self.dir = os.path.join(WORK, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        rep = os.path.join(WORK, "replay")
        for f in os.listdir(rep) if os.path.isdir(rep) else ():
            if f.startswith(prop + "-"):
                os.remove(os.path.join(rep, f))

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def left(self):
        return (float(os.environ.get("AJ_BUDGET", "780" if self.tier == "quick" else "6000"))) - (time.time() - self.t0)

    def model(self, scopes, walk=False):
        for s in scopes:
            s["emit"] = True
            if walk:
                s["emitfrom"] = s["depth"]
        hs, st = gen.explore(scopes, self.prop, walk=walk, timeout=max(60, self.left()))
        self.cov["states"] += st["distinct"]
        self.cov["transitions"] += st["states"]
        self.log("design model%s: %d scopes, %d states, %d transitions, %d histories"
                 % (" (walks)" if walk else "", len(scopes), st["distinct"], st["states"], len(hs)))
        return hs if walk else gen.maximal(hs)

    def judge(self, scripts, props, tag, ign=None):
        d, traces = run_scripts(self.ajv, scripts, os.path.join(self.prop, tag), timeout=max(60, self.left()))
        ok = [i for i, t in enumerate(traces) if t["steps"]]
        norm = [norm_trace(traces[i], plugins_of(scripts[i]), sorted(ign[i]) if ign else ()) for i in ok]
        vs = [[] for _ in scripts]
        if norm:
            got, st = validate(norm, props, d)
            for i, v in zip(ok, got):
                vs[i] = v
            self.cov["states"] += st["distinct"]
            self.cov["transitions"] += st["states"]
        for i, t in enumerate(traces):
            # the process died: nothing was served any more
            if not t["steps"] and t["end"] != "skipped":
                vs[i] = [(0, p, "engine does not run: " + t["end"], "") for p in ("C02", self.prop)]
        return traces, vs

    def replay(self, cases, tag, props=None):
        """Replay cases and have TLC judge the traces."""
        if not cases:
            return
        props = props or [self.prop]
        scripts = [c.script for c in cases]
        traces, vs = self.judge(scripts, props, tag)
        self.cov["traces_validated_against_impl"] += sum(1 for t in traces if t["steps"])
        self.cov["steps_validated"] += sum(len(t["steps"]) for t in traces)
        bad = [i for i, v in enumerate(vs) if any(x[1] in props for x in v)]
        self.log("%s: %d traces (%d steps) validated, %d rejected"
                 % (tag, len(scripts), sum(len(t["steps"]) for t in traces), len(bad)))
        if scripts and len(self.cov["samples"]) < 3:
            i = random.Random(self.seed).randrange(len(scripts))
            self.cov["samples"].append(dict(script=short(scripts[i]), end=traces[i]["end"], steps=len(traces[i]["steps"])))
        if not bad:
            return
        # the disturbance has to be the cause: what the runs without it show as well is passed over
        kinds = {}
        for i in bad:
            kinds.setdefault(tuple(sorted({x[2] for x in vs[i]})), []).append(i)
        # some of each sort
        bad = [l[k] for k in range(60) for l in kinds.values() if k < len(l)][:60]
        excuse = {i: set() for i in bad}
        todo = [i for i in bad if cases[i].controls]
        good = [i for i in bad if not cases[i].controls]
        for k in range(4):
            if not todo:
                break
            ctl = [c for i in todo for c in cases[i].controls]
            own = [i for i in todo for _ in cases[i].controls]
            _, cv = self.judge(ctl, ALL, "%s-control%d" % (tag, k), [excuse[i] for i in own])
            new = {i: set() for i in todo}
            for i, v in zip(own, cv):
                new[i].update(x[2] for x in v)
            good += [i for i in todo if any(x[1] in props and x[2] not in new[i] | excuse[i] for x in vs[i])]
            todo = [i for i in todo if i not in good and new[i] - excuse[i]]
            for i in todo:
                excuse[i] |= new[i]
            if todo:
                _, again = self.judge([scripts[i] for i in todo], props, "%s-past%d" % (tag, k), [excuse[i] for i in todo])
                for i, v in zip(todo, again):
                    vs[i] = v
                todo = [i for i in todo if any(x[1] in props for x in vs[i])]
        bad = [i for i in bad if i in good]
        if not bad:
            self.log("%s: all explained by what the undisturbed runs show" % tag)
            return
        # deterministic: it has to show again
        bad = bad[:12]
        for attempt in range(3):
            _, again = self.judge([scripts[i] for i in bad], props, tag + "-again", [excuse[i] for i in bad])
            conf = [k for k, v in enumerate(again) if any(x[1] in props for x in v)]
            if conf:
                break
        for k in conf:
            i = bad[k]
            self.report(tag, scripts[i], [x for x in again[k] if x[1] in props], traces[i], excuse[i])
        if not conf:
            self.notes.append("not reproduced: " + tag)
            self.log("NOT REPRODUCED", [vs[i][:2] for i in bad[:3]])

    def tlc(self, module, env, data, var="AJ_DATA"):
        """Run one of the smaller specifications; returns what it printed."""
        path = os.path.join(self.dir, module + ".ndjson")
        with open(path, "w") as f:
            for x in data:
                f.write(json.dumps(x) + "\n")
        rc, out, st = tlc(module, module + ".cfg", env=dict(env, **{var: path}), timeout=max(60, self.left()),
                          meta=os.path.join(self.dir, "meta"))
        if rc != 0:
            raise ToolError("TLC failed on %s (%d)\n%s" % (module, rc, out[-4000:]))
        self.cov["states"] += st["distinct"]
        self.cov["transitions"] += st["states"]
        un = lambda s: json.loads(s.replace('\\"', '"').replace("\\\\", "\\"))
        return [un(m.group(1)) for m in gen.HIST.finditer(out)], [un(m.group(1)) for m in re.finditer(r'^"VIOL (.*)"$', out, re.M)]

    def direct(self, module, mode, scripts, prop, env):
        """Scripts for one of the direct modes of the harness, judged by a specification of their own."""
        def once(scripts, tag):
            src, dst = os.path.join(self.dir, tag + ".in"), os.path.join(self.dir, tag + ".out")
            with open(src, "w") as f:
                for s in scripts:
                    f.write(json.dumps(s) + "\n")
            rc, o = sh([self.ajv, mode, src, dst, str(PAR)], timeout=max(60, self.left()))
            if rc != 0:
                raise ToolError("harness failed (%d)\n%s" % (rc, o[-3000:]))
            traces = [json.loads(l) for l in open(dst)]
            vs = [[] for _ in scripts]
            for i in range(0, len(traces), 4000):
                _, v = self.tlc(module, env, traces[i:i + 4000], "AJ_RUNS" if module == "AjRetry" else "AJ_DATA")
                for x in v:
                    vs[i + x["t"] - 1].append((x["l"], x["p"], x["why"], x["id"]))
            return traces, vs
        traces, vs = once(scripts, mode)
        n = sum(len(t["steps"]) for t in traces)
        self.cov["traces_validated_against_impl"] += len(traces)
        self.cov["steps_validated"] += n
        bad = [i for i, v in enumerate(vs) if v]
        self.log("%s: %d runs (%d steps) validated, %d rejected" % (mode, len(traces), n, len(bad)))
        if len(self.cov["samples"]) < 4:
            self.cov["samples"].append(dict(mode=mode, script=scripts[self.seed % len(scripts)]))
        for attempt in range(3):
            if not bad:
                return
            bad = bad[:12]
            t2, v2 = once([scripts[i] for i in bad], mode + "-again")
            conf = [k for k, v in enumerate(v2) if v]
            if conf:
                break
        for k in conf:
            self.report(mode, scripts[bad[k]], v2[k], t2[k])
        if not conf:
            # it depends on timing that could not be repeated, but what was recorded is wrong all the same
            for i in bad[:3]:
                self.report(mode, scripts[i], vs[i], traces[i])

    def concurrent(self, scripts):
        """Concurrent runs; each recorded history needs a sequential order that explains it."""
        src, dst = os.path.join(self.dir, "conc.in"), os.path.join(self.dir, "conc.out")
        with open(src, "w") as f:
            for s in scripts:
                f.write(json.dumps(s) + "\n")
        rc, o = sh([self.ajv, "conc", src, dst, str(PAR)], timeout=max(60, self.left()))
        if rc != 0:
            raise ToolError("harness failed (%d)\n%s" % (rc, o[-3000:]))
        traces = [json.loads(l) for l in open(dst)]
        bad = []
        for i in range(0, len(traces), 4000):
            part = traces[i:i + 4000]
            lin, _ = self.tlc("AjConc", {"AJ_MODE": "trace"}, part)
            lin = set(lin)
            bad += [t for k, t in enumerate(part) if k + 1 not in lin]
        n = sum(len(x) for t in traces for x in t["th"])
        self.cov["traces_validated_against_impl"] += len(traces)
        self.cov["steps_validated"] += n
        self.log("concurrent: %d programs, %d histories (%d operations) validated, %d rejected" % (len(scripts), len(traces), n, len(bad)))
        if len(self.cov["samples"]) < 4:
            self.cov["samples"].append(dict(mode="conc", script=scripts[0]))
        for t in bad[:3]:
            self.report("conc", scripts[t["i"]], [(0, self.prop, "no sequential order explains the answers", t["name"])], t)

    def report(self, tag, script, viols, trace=None, ign=()):
        os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)
        path = os.path.join(WORK, "replay", "%s-%s-%d.json" % (self.prop, tag, len(self.found)))
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, kind=tag, violations=viols, passed_over=sorted(ign), script=script, trace=trace,
                           replay="python3 /verif/check.py replay " + path), f, indent=1)
        self.found.append((path, viols))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=self.cov,
                           assumptions=plans.ASSUMPTIONS, wall_s=round(time.time() - self.t0, 1),
                           violations=len(self.found)), f, indent=1)
        for script, l in known(self.prop):
            _, v = self.judge([json.load(open(os.path.join(VERIF, script)))], [self.prop], "known")
            if any(x[1] == self.prop for x in v[0]):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, l))
        for path, viols in self.found[:10]:
            print("  ", viols[:3])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1 if self.found else 0


def known(prop):
    """Findings on file, each identified by the script that shows it."""
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=%s script=(\S+) (.*)" % prop, l.strip())
            if m:
                out.append(m.groups())
    return out


def short(script):
    s = dict(script)
    s["steps"] = [" ".join(str(v) for k, v in x.items() if k in ("op", "id", "q", "v", "kind", "ms", "n", "out", "c", "from",
                                                                 "len", "at")) for x in script["steps"][:40]]
    return s


def replay(path):
    d = json.load(open(path))
    r = Run(d["property"] + "-replay", "quick", 1)
    r.ajv = build()
    if "steps" not in (d["script"] or {}):
        print(json.dumps(d, indent=1)[:4000])
        return 0
    traces, vs = r.judge([d["script"]], [d["property"]], "replay", [d.get("passed_over", [])])
    for k, s in enumerate(traces[0]["steps"]):
        print(k, json.dumps(s["lab"], ensure_ascii=False)[:300], "now", s["now"], [(i, j["st"]) for i, j in s["jobs"].items()][:12])
    print(vs[0])
    return 1 if vs[0] else 0


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = Run(prop, tier, seed)
    run.ajv = build()
    run.log("harness built")
    plans.PLANS[prop](run)
    return run.finish()


if __name__ == "__main__":
    try:
        rc = main()
    except ToolError as e:
        print("TOOL ERROR:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
