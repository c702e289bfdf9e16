#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on the current working tree of /repo.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; anything else: the check itself failed."""
import concurrent.futures as cf
import hashlib
sys_path = __import__("sys").path
sys_path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)))
from ctngv import *
from suites import SUITES, POINT_SUITES
from props import PROPS


def known_findings(prop):
    """(id, facet regex, detail regex, text) of the findings recorded for the property."""
    fn = os.path.join(VERIF, "known-findings.txt")
    out = []
    for l in open(fn):
        m = re.match(r"finding: property=(\S+) suite=(\S+) match=/(.*)/ :: (.*)", l.strip())
        if m and m.group(1) == prop:
            out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[prop]
    t0 = time.time()
    sc = Scratch()
    try:
        return run(prop, tier, seed, spec, sc, t0)
    except CheckError as e:
        log(f"CHECK-ERROR property={prop}: {e}")
        return 2
    except subprocess.TimeoutExpired as e:
        log(f"CHECK-ERROR property={prop}: timeout {e}")
        return 2
    finally:
        if os.environ.get("VERIF_KEEP") != "1":
            sc.clean()


def run(prop, tier, seed, spec, sc, t0):
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        kinds = {k: ex.submit(build_harness, sc, k) for k in ({False, True} if any(x.startswith(POINT_SUITES) for x, _ in spec["suites"]) else {False})}
        gens = {s: ex.submit(SUITES[s], tier, seed, sc) for s, _ in spec["suites"]}
        binp = {k: b.result() for k, b in kinds.items()}
        gen = {s: g.result() for s, g in gens.items()}
    t_gen = time.time() - t0
    traces, stats, origin = [], [], {}
    for s, _ in spec["suites"]:
        tr, st = gen[s]
        for t in tr:
            t["id"] = len(traces)
            origin[t["id"]] = s
            traces.append(t)
        for x in st:
            x["suite"] = s
        stats += st
    if not traces:
        raise CheckError("no traces generated")
    log(f"{prop} {tier}: {len(traces)} traces, {sum(len(t['steps']) for t in traces)} steps generated in {t_gen:.1f}s")
    res = {}
    for k in sorted(binp):
        part = [t for t in traces if bool(t.get("points")) == k]
        if part:
            res.update(replay(binp[k], sc, part, wd_limit=840 if tier == "quick" else 6 * 3600))
    fac = dict(spec["suites"])
    checks = sum(r.get("checks", 0) for r in res.values())
    mine, other = [], []
    for i, r in sorted(res.items()):
        if r["ok"]:
            continue
        rx = fac[origin[i]]
        if r["facet"] in ("crash", "stuck") or re.search(rx, r["facet"]):
            mine.append(i)
        else:
            other.append(i)
    # confirm: every kind of divergence is reproduced in a process of its own
    groups = {}
    for i in mine:
        r = res[i]
        groups.setdefault((origin[i], r["facet"], re.sub(r"\d+", "#", r.get("detail", ""))[:80]), []).append(i)
    confirmed, unrepro = [], []
    for key, ids in sorted(groups.items(), key=lambda kv: len(traces[kv[1][0]]["steps"])):
        ids.sort(key=lambda i: len(traces[i]["steps"]))
        ok = False
        for i in (ids[:3] * 2):
            if len(confirmed) >= 8:
                break
            rr = replay(binp[bool(traces[i].get("points"))], sc, [traces[i]], shards=1, wd_limit=120)[traces[i]["id"]]
            if not rr["ok"] and (rr["facet"] in ("crash", "stuck") or re.search(fac[origin[i]], rr["facet"])):
                confirmed.append((i, rr, len(ids)))
                ok = True
                break
        if not ok and len(confirmed) < 8:
            unrepro.append((key, len(ids)))
    kf = known_findings(prop)
    viol, seen_kf = [], []
    for i, rr, cnt in confirmed:
        line = json.dumps([rr["facet"], rr.get("detail", ""), rr.get("want"), rr.get("got")], sort_keys=True)
        hit = [k for k in kf if k[0] == origin[i] and k[1].search(line)]
        if hit:
            seen_kf.append((hit[0][2], i))
        else:
            viol.append((i, rr, cnt))
    for text in sorted({t for t, _ in seen_kf}):
        print(f"KNOWN-FINDING: property={prop} {text}")
    rd = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rd, exist_ok=True)
    paths = []
    for i, rr, cnt in viol:
        t = traces[i]
        if t.get("independent") and rr.get("step", -1) >= 0:
            t = dict(t, steps=[t["steps"][rr["step"]]])
        h = hashlib.sha256(json.dumps(t["steps"], sort_keys=True).encode()).hexdigest()[:10]
        pth = os.path.join(rd, f"{prop}-{origin[i]}-{h}.json")
        json.dump(dict(property=prop, suite=origin[i], how="python3 tools/replay.py " + pth, divergence=rr, similar=cnt, trace=t), open(pth, "w"), indent=1)
        paths.append(pth)
    samples = []
    step = max(1, len(traces) // 4)
    for t in traces[::step][:4]:
        samples.append(dict(suite=origin[t["id"]], init=t["init"], steps=t["steps"][:4], total_steps=len(t["steps"])))
    cov = dict(states=sum(s.get("states", 0) for s in stats), transitions=sum(s.get("transitions", 0) for s in stats),
               traces_validated_against_impl=len(traces), replayed_steps=sum(len(t["steps"]) for t in traces),
               comparisons_against_impl=checks, tlc_runs=stats, samples=samples,
               divergences_of_other_properties=len(other), unreproduced=[[list(k), c] for k, c in unrepro])
    ev = dict(property=prop, tier=tier, seed=seed, level=spec["level"], coverage=cov, assumptions=spec.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for (i, rr, cnt), pth in zip(viol, paths):
        log(f"  {origin[i]} step {rr.get('step')} facet {rr['facet']}: {rr.get('detail','')}\n    want {json.dumps(rr.get('want'))[:600]}\n    got  {json.dumps(rr.get('got'))[:600]}\n    action {json.dumps(traces[i]['steps'][rr['step']]['a'])[:600] if rr.get('step',-1)>=0 else ''}  ({cnt} similar)")
        print(f"VIOLATION property={prop} replay={pth}")
    log(f"{prop} {tier}: {len(traces)} traces, {checks} comparisons, {len(viol)} violations, {len(other)} of other properties, {time.time()-t0:.1f}s")
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
