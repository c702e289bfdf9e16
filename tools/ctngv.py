"""Shared machinery of the checks: TLC runs, harness build, sharded replay, verdicts."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOENV = dict(HOME="/root", LANG="C.UTF-8", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin")
CORES = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """The check itself failed: no verdict."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="ctngverif.")

    def sub(self, name):
        d = os.path.join(self.dir, name)
        os.makedirs(d, exist_ok=True)
        return d

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------------------------------------------- harness

def build_harness(sc, points=False):
    """Compile the conformance harness against the current working tree of /repo; with points, every statement of the
    repository's packages is preceded by a scheduling point (for controlled interleavings)."""
    env = dict(os.environ, **GOENV)
    tag = "_points" if points else ""
    src = os.path.join(sc.dir, "harness" + tag)
    shutil.copytree(os.path.join(VERIF, "harness"), src)
    ov = subprocess.run([sys.executable, os.path.join(VERIF, "tools", "overlay.py"), sc.sub("overlay" + tag)],
                        env=env, capture_output=True, text=True)
    if ov.returncode != 0:
        raise CheckError("overlay: " + ov.stderr)
    ovf = ov.stdout.strip()
    if points:
        pd = os.path.join(sc.dir, "points")
        shutil.copytree(os.path.join(VERIF, "tools", "points"), pd)
        p = subprocess.run(["go", "run", ".", REPO, sc.sub("points_src")], cwd=pd, env=env, capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError("points: " + p.stderr)
        o = json.load(open(ovf))
        o["Replace"].update(json.loads(p.stdout))
        json.dump(o, open(ovf, "w"))
    out = os.path.join(sc.dir, f"harness{tag}.test")
    if REPO != "/repo":
        gm = os.path.join(src, "go.mod")
        t = open(gm).read().replace("=> /repo", "=> " + REPO)
        open(gm, "w").write(t)
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", out]
    p = subprocess.run(cmd + ["."], cwd=src, env=env, capture_output=True, text=True, timeout=600)
    if p.returncode != 0:
        raise CheckError("harness does not build:\n" + p.stdout[-3000:] + p.stderr[-3000:])
    return out


def _run_shard(binp, sc, k, traces, results, errs, extra_env, wd_limit):
    """Run one shard; restart after a crash of the process under test."""
    todo = list(traces)
    attempt = 0
    while todo:
        attempt += 1
        d = sc.sub(f"run{k}_{attempt}")
        inp, outp = os.path.join(d, "in.jsonl"), os.path.join(d, "out.jsonl")
        with open(inp, "w") as f:
            for t in todo:
                f.write(json.dumps(t) + "\n")
        work = os.path.join(d, "w")
        os.makedirs(work)
        env = dict(os.environ, **GOENV)
        env.update(VERIF_IN=inp, VERIF_OUT=outp, VERIF_SCRATCH=work, VERIF_FIXTURES=os.path.join(VERIF, "fixtures", "keys.json"),
                   GOMAXPROCS="2", TZ="UTC")
        env.update(extra_env)
        with open(os.path.join(d, "log"), "wb") as lf:
            try:
                p = subprocess.run([binp, "-test.run", "^TestReplay$", "-test.timeout", "0"], cwd=work, env=env, stdout=subprocess.DEVNULL, stderr=lf, timeout=wd_limit)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -99
        done = []
        fin = False
        if os.path.exists(outp):
            for l in open(outp):
                try:
                    r = json.loads(l)
                except ValueError:
                    continue
                if r["id"] == -1:
                    fin = True
                else:
                    done.append(r)
        results.extend(done)
        ids = {r["id"] for r in done}
        left = [t for t in todo if t["id"] not in ids]
        if fin:
            shutil.rmtree(d, ignore_errors=True)
            return
        tail = open(os.path.join(d, "log"), errors="replace").read()[-200000:]
        if rc == 3 and len(left) < len(todo):      # the watchdog recorded its verdict
            todo = left
            shutil.rmtree(d, ignore_errors=True)
            continue
        if rc == -99 or not left:
            errs.append(f"replay process: rc={rc}, {len(left)} traces left\n{tail[-1500:]}")
            return
        bad = left[0]
        cr = crash_info(tail)
        if cr:
            results.append(dict(id=bad["id"], ok=False, facet="crash", step=-1, detail=cr))
        else:
            results.append(dict(id=bad["id"], ok=False, err=f"replay process died rc={rc}: {tail[-1500:]}"))
        todo = left[1:]
        shutil.rmtree(d, ignore_errors=True)
        if attempt > 60:
            errs.append("too many crashes")
            return


def crash_info(tail):
    """A panic, fatal error or deadlock of the process that involves code of the repository."""
    m = re.search(r"^(panic: .*|fatal error: .*)$", tail, re.M)
    if not m:
        return None
    rest = tail[m.start():]
    blocks = rest.split("\n\n")
    msg = m.group(1)
    # the goroutine that failed comes first; for 'deadlock' reports any goroutine of the repository counts
    head = blocks[:2] if "deadlock" not in msg and "concurrent map" not in msg else blocks
    for b in head:
        fr = re.findall(r"^\s+(%s/[^\s]+\.go:\d+)" % re.escape(REPO), b, re.M)
        if fr:
            return msg + " at " + " <- ".join(fr[:3])
    return None


def replay(binp, sc, traces, extra_env=None, shards=None, wd_limit=800):
    """Replay traces (dicts with id, model, init, steps) on the real code; returns results by id."""
    shards = shards or CORES
    parts = [[] for _ in range(shards)]
    for i, t in enumerate(traces):
        parts[i % shards].append(t)
    results, errs, ths = [], [], []
    for k, pt in enumerate(parts):
        if pt:
            th = threading.Thread(target=_run_shard, args=(binp, sc, k, pt, results, errs, extra_env or {}, wd_limit))
            th.start()
            ths.append(th)
    for th in ths:
        th.join()
    if errs:
        raise CheckError("; ".join(errs))
    he = [r for r in results if r.get("err")]
    if he:
        raise CheckError(f"{len(he)} harness errors, first: trace {he[0]['id']}: {he[0]['err'][:2000]}")
    if len(results) != len(traces):
        raise CheckError(f"{len(results)} results for {len(traces)} traces")
    return {r["id"]: r for r in results}


# ----------------------------------------------------------------------------------------------------------- TLC

class Rec:
    """A TLA+ record as a constant."""
    def __init__(self, **kw):
        self.items = tuple(kw.items())

    def __hash__(self):
        return hash(self.items)

    def __eq__(self, o):
        return self.items == o.items


class Raw:
    """TLA+ text."""
    def __init__(self, t):
        self.t = t

    def tla(self):
        return self.t


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (set, frozenset)):
        return "{" + ",".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ",".join(tla(x) for x in v) + ">>"
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, Rec):
        return "[" + ", ".join(f"{k} |-> {tla(x)}" for k, x in v.items) + "]"
    if hasattr(v, "tla"):
        return v.tla()
    return str(v)


def run_tlc(sc, spec, consts, invariants=(), properties=(), mode="bfs", view=None, constraint=None, action_constraint=None,
            spec_formula=None, workers=1, num=None, depth=None, seed=1, timeout=600, heap="3g", postcondition=None, partial=False, init="Init", nxt="Next"):
    """Run TLC; returns (emitted values, stats). A violated invariant of the specification is a CheckError: the
    specification does not depend on the code, so that is never a verdict about the code."""
    d = tempfile.mkdtemp(prefix="tlc_", dir=sc.dir)
    for f in os.listdir(os.path.join(VERIF, "specs")):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(VERIF, "specs", f), d)
    root = "MC" + spec
    defs = []
    cfg = []
    for k, v in consts.items():
        defs.append(f"const_{k} == {tla(v)}")
        cfg.append(f"CONSTANT {k} <- const_{k}")
    with open(os.path.join(d, root + ".tla"), "w") as f:
        f.write(f"---- MODULE {root} ----\nEXTENDS {spec}\n" + "\n".join(defs) + "\n====\n")
    if spec_formula:
        cfg.append("SPECIFICATION " + spec_formula)
    else:
        cfg += ["INIT " + init, "NEXT " + nxt]
    if view:
        cfg.append("VIEW " + view)
    if constraint:
        cfg.append("CONSTRAINT " + constraint)
    if action_constraint:
        cfg.append("ACTION_CONSTRAINT " + action_constraint)
    for i in invariants:
        cfg.append("INVARIANT " + i)
    for i in properties:
        cfg.append("PROPERTY " + i)
    if postcondition:
        cfg.append("POSTCONDITION " + postcondition)
    cfg.append("CHECK_DEADLOCK FALSE")
    open(os.path.join(d, root + ".cfg"), "w").write("\n".join(cfg) + "\n")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + sc.dir, "-cp",
           "/opt/veriftools/tla/tla2tools.jar:" + COMMUNITY, "tlc2.TLC", "-nowarning", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
           "-config", root + ".cfg", "-fp", "1", "-seed", str(seed)]
    if mode == "sim":
        cmd += ["-simulate", f"num={num}", "-depth", str(depth)]
    cmd += [root + ".tla"]
    out = os.path.join(d, "out.txt")
    t0 = time.time()
    with open(out, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            if not partial:
                raise CheckError(f"TLC timed out on {spec} after {timeout}s")
            rc = None       # the part explored within the time limit counts
    vals = []
    other = []
    with open(out, errors="replace") as f:
        for l in f:
            if l.startswith('<<"@@", "'):
                l = l.rstrip("\n")
                vals.append(json.loads(json.loads(l[8:-2])))
            elif l.startswith('<< "@@",') or l.startswith('<<"@@",'):
                raise CheckError("TLC wrapped an emitted value: " + l[:100])
            else:
                other.append(l)
    text = "".join(other)
    st = dict(spec=spec, mode=mode, consts={k: tla(v) for k, v in consts.items()}, wall_s=round(time.time() - t0, 2), emitted=len(vals))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    if m:
        st.update(transitions=int(m.group(1)), states=int(m.group(2)))
    m = re.search(r"depth of the complete state graph search is (\d+)", text)
    if m:
        st["depth"] = int(m.group(1))
    if mode == "sim":
        m = re.findall(r"Progress: ([\d,]+) states checked, ([\d,]+) traces generated", text)
        if m:
            st.update(states=int(m[-1][0].replace(",", "")), transitions=int(m[-1][0].replace(",", "")))
        else:
            m = re.search(r"The number of states generated: ([\d,]+)", text)
            if m:
                st.update(states=int(m.group(1).replace(",", "")), transitions=int(m.group(1).replace(",", "")))
    ok = rc in (0, None) and ("No error has been found" in text or mode == "sim" or rc is None) and "Error:" not in text
    if rc is None:
        st["complete"] = False
        m = re.findall(r"Progress\((\d+)\).*?: ([\d,]+) states generated.*?, ([\d,]+) distinct states", text)
        if m:
            st.update(depth=int(m[-1][0]), transitions=int(m[-1][1].replace(",", "")), states=int(m[-1][2].replace(",", "")))
    if not ok:
        keep = text[-6000:]
        raise CheckError(f"TLC reports an error on {spec} {str(st['consts'])[:1500]} (rc={rc}):\n{keep}")
    st["invariants"] = [i for i in list(invariants) + list(properties) if not i.startswith("Emit")]
    shutil.rmtree(d, ignore_errors=True)
    return vals, st


def _community():
    for base in ("/opt/veriftools/tla",):
        for r, _, fs in os.walk(base):
            for f in fs:
                if f.lower().startswith("communitymodules") and f.endswith(".jar"):
                    return os.path.join(r, f)
    return ""


COMMUNITY = _community()


# ------------------------------------------------------------------------------------------------------- traces

def drop_prefixes(paths):
    """paths: list of lists of steps (JSON). Keep only the ones that are not a prefix of another."""
    keyed = sorted(([json.dumps(s, sort_keys=True) for s in p] for p in paths))
    out = []
    for i, k in enumerate(keyed):
        if not k:
            continue
        if i + 1 < len(keyed) and keyed[i + 1][:len(k)] == k:
            continue
        out.append([json.loads(s) for s in k])
    return out
