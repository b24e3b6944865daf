"""Usage: check.py PROPERTY quick|thorough       run a check
          check.py PROPERTY --replay FILE        judge one recorded scenario again
"""
import importlib, json, os, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from core import ToolError, log

EVID = os.path.join(core.VERIF, "evidence")


class Ctx:
    """What a property module gets: tier, seed, and the legs of a check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.states = self.trans = 0
        self.traces = self.events = 0
        self.samples, self.legs, self.violations = [], [], []
        self.assumptions = []
        self.t0 = time.time()
        self.bins = {}
        self.level = "model_checking"

    def left(self, total=None):
        total = total or (60 if self.quick else 780)
        return total - (time.time() - self.t0)

    def rng(self, tag=""):
        import random
        return random.Random("%s|%s|%s|%d" % (self.prop, tag, self.tier, self.seed))

    # --- legs

    def design(self, module, cfg, what, expect=None, timeout=600, args=(), workers=core.CORES, env=None):
        """Model checks the specification itself.  expect: None if all holds,
        otherwise the name of the invariant or property that a deliberately
        broken variant must violate (this shows the check is not vacuous)."""
        r = core.run_tlc(module, cfg, timeout=timeout, args=args, workers=workers, env=env)
        self.states += r.states
        self.trans += r.transitions
        if expect is None:
            if r.rc != 0:
                sys.stderr.write(r.text[-5000:])
                raise ToolError("the specification %s does not satisfy its own properties (%s)" % (module, what))
        elif expect not in r.text or r.rc == 0:
            sys.stderr.write(r.text[-5000:])
            raise ToolError("the broken variant of %s was not refuted (%s)" % (module, what))
        self.legs.append({"leg": "design", "module": module, "what": what, "states": r.states,
                          "transitions": r.transitions,
                          "result": "refuted as expected" if expect else "holds"})
        return r

    def generate(self, module, cfg, what, timeout=600, args=(), workers=core.CORES, env=None, tag="BEH", cap=None):
        """Behaviours printed by the specification: lines <<"BEH", "json">>."""
        r = core.run_tlc(module, cfg, timeout=timeout, args=args, workers=workers, env=env)
        if r.rc != 0:
            sys.stderr.write(r.text[-5000:])
            raise ToolError("generation from %s failed" % module)
        self.states += r.states
        self.trans += r.transitions
        out = []
        mark = '<<"%s", "' % tag
        for line in r.text.splitlines():
            if line.startswith(mark):
                body = line[len(mark):line.rindex('"')]
                out.append(json.loads(body.replace('\\"', '"').replace("\\\\", "\\")))
        # Workers print in no particular order.
        out.sort(key=lambda x: json.dumps(x, sort_keys=True))
        n = len(out)
        if cap and n > cap:
            rng = self.rng("cap" + module)
            out = rng.sample(out, cap)
        self.legs.append({"leg": "generation", "module": module, "what": what, "states": r.states,
                          "transitions": r.transitions, "behaviours": n, "used": len(out)})
        log("%d behaviours from %s, %d used" % (n, module, len(out)))
        return out

    def prebuild(self, variant):
        def work():
            try:
                self.bins[variant] = core.build_harness(variant)
            except Exception as e:
                self.bins[variant] = e
        self.building = (variant, threading.Thread(target=work))
        self.building[1].start()

    def binary(self, variant=""):
        if getattr(self, "building", (None,))[0] == variant:
            self.building[1].join()
        if variant not in self.bins:
            self.bins[variant] = core.build_harness(variant)
        if isinstance(self.bins[variant], Exception):
            raise self.bins[variant]
        return self.bins[variant]

    def conform(self, scns, module, what, variant="", env=None, shards=4, stall=25, workers=core.CORES,
                timeout=700, chunk=None, max_lost=2):
        """Runs scenarios through the code and has TLC judge the records."""
        if not scns:
            raise ToolError("no scenarios: " + what)
        b = self.binary(variant)
        wd = os.path.join(core.scratch(), "h%d" % len(self.legs))
        os.makedirs(wd, exist_ok=True)
        recs = core.run_harness(b, scns, wd, shards=shards, stall=stall, max_lost=max_lost)
        if not recs:
            raise ToolError("no records")
        acc, rej, st, tr, broken = core.validate(recs, module, self.prop, timeout=timeout, env=env, workers=workers)
        self.states += st
        self.trans += tr
        self.traces += len(acc) + len(rej)
        nev = sum(len(r["ev"]) for r in recs)
        self.events += nev
        byid = {r["id"]: r for r in recs}
        for i in sorted(rej)[:50]:
            self.violations.append({"module": module, "variant": variant, "event": rej[i][0], "op": rej[i][1],
                                    "scenario": scns[i - 1], "record": byid[i], "env": env or {}})
        if not self.samples or len(self.samples) < 3:
            k = sorted(acc)[:1]
            for i in k:
                self.samples.append(clip({"scenario": scns[i - 1], "record": byid[i]}))
        leg = {"leg": "conformance", "module": module, "what": what, "scenarios": len(scns),
               "run": len(recs), "accepted": len(acc), "rejected": len(rej), "events": nev,
               "distinct_scenarios": len({json.dumps(s, sort_keys=True) for s in scns}),
               "unjudged": len(broken), "states": st, "transitions": tr}
        self.legs.append(leg)
        if broken and not rej:
            raise ToolError("TLC could not evaluate the specification on scenario(s) %s" % broken)
        log("%s: %d accepted, %d rejected" % (what, len(acc), len(rej)))
        return recs


def clip(x, limit=4000):
    s = json.dumps(x)
    return x if len(s) <= limit else s[:limit] + "..."


def known():
    path = os.path.join(core.VERIF, "known-findings.json")
    try:
        return json.load(open(path))
    except FileNotFoundError:
        return {"known": [], "fixed": []}


def main():
    prop = sys.argv[1]
    mod = importlib.import_module("props." + prop.lower())
    if sys.argv[2] == "--replay":
        return replay(prop, sys.argv[3])
    tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx = Ctx(prop, tier, seed)
    try:
        # The build does not depend on the design legs: do both at once.
        ctx.prebuild(getattr(mod, "VARIANT", ""))
        mod.run(ctx)
    except ToolError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        if not ctx.violations:
            return 2
    rc = 0
    rd = os.path.join(EVID, "replay")
    os.makedirs(rd, exist_ok=True)
    listed = [k for k in known().get("known", []) if k["property"] == prop]
    hit = set()
    shown = 0
    for n, v in enumerate(ctx.violations):
        kf = next((k for k in listed if k["scenario"] == v["scenario"]), None)
        if kf is not None:
            hit.add(kf["what"])
            continue
        rc = 1
        shown += 1
        if shown > 5:
            continue
        path = os.path.join(rd, "%s-%s-%d.json" % (prop, tier, shown))
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s rejects event %d (%s) of scenario %s"
              % (v["module"], v["event"], v["op"], json.dumps(v["scenario"])[:600]))
        ev = v["record"]["ev"]
        if 0 < v["event"] <= len(ev):
            print("  recorded: %s" % json.dumps(ev[v["event"] - 1])[:600])
    for k in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    cov = {"states": ctx.states, "transitions": ctx.trans,
           "traces_validated_against_impl": ctx.traces, "events_validated": ctx.events,
           "samples": ctx.samples[:3], "legs": ctx.legs}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": ctx.level, "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 1), "violations": shown}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d traces validated, %d states, %d violation(s), %.0fs"
          % (prop, tier, ctx.traces, ctx.states, len(ctx.violations), time.time() - ctx.t0))
    return rc


def replay(prop, path):
    v = json.load(open(path))
    ctx = Ctx(prop, "quick", 1)
    try:
        ctx.conform([v["scenario"]], v["module"], "replay", variant=v["variant"], env=v.get("env") or None)
    except ToolError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        return 2
    if ctx.violations:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print(json.dumps(ctx.violations[0]["record"]["ev"][ctx.violations[0]["event"] - 1]))
        return 1
    print("accepted")
    return 0


if __name__ == "__main__":
    sys.exit(main())
