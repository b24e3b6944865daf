"""Driver: builds the harness from /repo's working tree, runs scenarios through
it, and lets TLC judge the records.  Nothing is judged here: a scenario is
accepted if and only if TLC prints ACCEPT for it."""
import glob, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8


class ToolError(Exception):
    pass


def log(*a):
    print("[%7.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()


# ------------------------------------------------------------------ harness

def build_harness(variant=""):
    """Builds the harness against /repo with the given hook and returns the
    path of the binary."""
    target = os.path.join(VERIF, "target", variant or "plain")
    env = dict(os.environ)
    env["RUSTFLAGS"] = '--cfg bongo_verif="%s"' % variant if variant else ""
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("CARGO_TARGET_DIR", None)
    cmd = ["cargo", "build", "--offline", "--quiet", "--target-dir", target,
           "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml")]
    t = time.time()
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace")
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise ToolError("the harness does not build against /repo")
    log("harness built (%s) in %.1fs" % (variant or "plain", time.time() - t))
    return os.path.join(target, "debug", "bh")


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _run_shard(binary, scns, workdir, k, stall, max_lost, deadline, out):
    """Runs scns in one harness process, restarting it behind a scenario that
    hangs or ends the process."""
    inp = os.path.join(workdir, "scn%d.ndjson" % k)
    outp = os.path.join(workdir, "out%d.ndjson" % k)
    with open(inp, "w") as f:
        for s in scns:
            f.write(json.dumps(s, separators=(",", ":")) + "\n")
    open(outp, "w").close()
    start = 0
    lost = {}
    while start < len(scns):
        p = subprocess.Popen([binary, inp, outp, str(start)], stdout=subprocess.DEVNULL,
                             stderr=subprocess.DEVNULL, preexec_fn=_limits)
        size, since = os.path.getsize(outp), time.time()
        why = None
        while True:
            try:
                p.wait(0.05)
                break
            except subprocess.TimeoutExpired:
                pass
            s = os.path.getsize(outp)
            if s != size:
                size, since = s, time.time()
            if time.time() - since > stall:
                why = "hang"
            if time.time() > deadline:
                why = "deadline"
            if why:
                p.kill()
                p.wait()
                break
        done = _count(outp) + len(lost)
        if why is None and p.returncode == 0:
            break
        if why == "deadline":
            # Out of time: what was not run is not judged.
            break
        lost[done] = why or "abort"
        start = done + 1
        if len(lost) >= max_lost:
            break
    recs = []
    for line in open(outp):
        try:
            recs.append(json.loads(line))
        except ValueError:
            pass  # the last line of a killed process
    out[k] = (recs, lost)


def _count(path):
    n = 0
    with open(path, "rb") as f:
        data = f.read()
    n = data.count(b"\n")
    if data and not data.endswith(b"\n"):
        # Cut a partial line off, so that appending continues properly.
        with open(path, "wb") as f:
            f.write(data[:data.rfind(b"\n") + 1])
    return n


def run_harness(binary, scns, workdir, shards=4, stall=25, max_lost=2, budget=400):
    """Returns records, one per scenario that was run, with id = index + 1 of
    the scenario.  A scenario that hung or ended the process has the single
    event op "lost"."""
    shards = max(1, min(shards, (len(scns) + 19) // 20))
    deadline = time.time() + budget
    parts = [list(range(k, len(scns), shards)) for k in range(shards)]
    out = {}
    ths = []
    for k, idx in enumerate(parts):
        th = threading.Thread(target=_run_shard, args=(
            binary, [scns[i] for i in idx], workdir, k, stall, max_lost, deadline, out))
        th.start()
        ths.append(th)
    for th in ths:
        th.join()
    res = []
    nlost = 0
    for k, idx in enumerate(parts):
        recs, lost = out[k]
        for r in recs:
            r["id"] = idx[r["id"] - 1] + 1
            res.append(r)
        for i, why in lost.items():
            nlost += 1
            rec = {"id": idx[i] + 1, "ev": [{"op": "lost", "out": why}]}
            res.append(rec)
    # The constants of a scenario are part of its record.
    for rec in res:
        for f, v in scns[rec["id"] - 1].items():
            if f not in ("m", "ops", "inputs", "passes"):
                rec.setdefault(f, v)
    res.sort(key=lambda r: r["id"])
    log("harness: %d of %d scenarios run, %d lost" % (len(res), len(scns), nlost))
    return res


# ---------------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self, rc, text):
        self.rc = rc
        self.text = text
        self.states = self.transitions = 0
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", text)
        if m:
            self.transitions = int(m[-1][0].replace(",", ""))
            self.states = int(m[-1][1].replace(",", ""))
        else:
            m = re.findall(r"The number of states generated: (\d+)", text)
            if m:
                self.transitions = self.states = int(m[-1])

    def ok(self):
        return self.rc == 0


def run_tlc(module, cfg=None, env=None, args=(), workers=CORES, timeout=600, heap="8g", stack="64m", keep=None):
    """Runs TLC on spec/<module>.tla in a scratch directory."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    for f in glob.glob(os.path.join(SPEC, "*.tla")) + glob.glob(os.path.join(SPEC, "*.cfg")):
        os.symlink(f, os.path.join(d, os.path.basename(f)))
    if cfg is not None and "\n" in cfg:
        open(os.path.join(d, "run.cfg"), "w").write(cfg)
        cfg = "run"
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + stack, "-Djava.io.tmpdir=" + d, "-cp", JARS,
           "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", os.path.join(d, "st"),
           "-fp", "0", "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
    t = time.time()
    outp = os.path.join(d, "tlc.out")
    with open(outp, "w") as f:
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT)
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            shutil.rmtree(d, ignore_errors=True)
            raise ToolError("TLC on %s ran out of its %ds" % (module, timeout))
    text = open(outp, errors="replace").read()
    if keep:
        shutil.copy(outp, keep)
    shutil.rmtree(d, ignore_errors=True)
    r = TlcResult(p.returncode, text)
    log("TLC %s %s: rc %d, %d states, %d transitions, %.1fs"
        % (module, cfg or "", r.rc, r.states, r.transitions, time.time() - t))
    return r


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="bongo-verif-")
        import atexit
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def tla(v):
    """A Python value as a TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    raise TypeError(v)


TRACE_CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def validate(records, module, prop, timeout=600, workers=CORES, env=None):
    """Lets TLC decide which records are behaviours of the trace specification.
    Returns (accepted ids, {rejected id: (event number, op)}, states,
    transitions)."""
    todo = list(records)
    accepted, rejected = set(), {}
    states = trans = 0
    broken = []
    while todo:
        path = os.path.join(scratch(), "trace-%s-%d.ndjson" % (module, len(broken)))
        with open(path, "w") as f:
            for r in todo:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        e = {"TRACE": path, "PROP": prop}
        e.update(env or {})
        r = run_tlc(module, TRACE_CFG, env=e, timeout=timeout, workers=workers)
        states += r.states
        trans += r.transitions
        acc = {int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>', r.text)}
        rej = {}
        for i, l, o in re.findall(r'<<"REJECT", (\d+), (\d+), "(\w*)">>', r.text):
            rej[int(i)] = max(rej.get(int(i), (0, "")), (int(l), o))
        accepted |= acc
        for i, v in rej.items():
            rejected[i] = v
        if r.rc == 0:
            if not acc and not rej:
                raise ToolError("TLC judged nothing")
            todo = []
            for rec in records:
                if rec["id"] not in accepted and rec["id"] not in rejected and rec["id"] not in broken:
                    raise ToolError("TLC did not judge scenario %d" % rec["id"])
        else:
            # TLC could not evaluate the specification on some record.  Set
            # that record aside and judge the others.
            m = re.findall(r"/\\ tr = (\d+)", r.text)
            if not m or len(broken) >= 3:
                sys.stderr.write(r.text[-5000:])
                raise ToolError("TLC failed on %s" % module)
            bad = todo[int(m[-1]) - 1]
            log("TLC could not evaluate scenario %d" % bad["id"])
            sys.stderr.write(r.text[-2500:])
            broken.append(bad["id"])
            todo = [x for x in todo if x["id"] != bad["id"] and x["id"] not in accepted]
    for i in accepted:
        rejected.pop(i, None)
    return accepted, rejected, states, trans, broken
