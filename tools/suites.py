"""The suites: which specification is explored with which bounds, and how its behaviours become replay traces."""
import concurrent.futures as cf
from ctngv import *

SUITES = {}
POINT_SUITES = ("conc_", "mconc_")   # suites whose traces are replayed under controlled schedules


def suite(name, facets=None):
    def deco(f):
        SUITES[name] = f
        return f
    return deco


def chunk(rows, n, model, init):
    """Group independent table rows into traces."""
    out = []
    for i in range(0, len(rows), n):
        out.append(dict(model=model, init=init, steps=[dict(a=dict(o=r["o"], facet=r["facet"]), x=r["x"]) for r in rows[i:i + n]], independent=True))
    return out


def _verify(shapes):
    def gen(tier, seed, sc):
        traces, stats = [], []
        depth = {"quick": 2, "thorough": 3}[tier]
        for ng, t in ((3, 2), (3, 3)):
            if t == 3 and not ({"full", "frag"} & set(shapes)):
                continue
            mm = depth
            if tier == "thorough" and "con" in shapes:
                mm = 2
            rows, st = run_tlc(sc, "ObjVerify", dict(NG=ng, T=t, MaxMut=mm, Shapes=set(shapes)),
                               invariants=["NoForgery", "NoFalseConflict", "ThresholdSound", "HonestValid", "NotOpenHonest", "Emit"],
                               view="View", timeout=700, heap="6g")
            stats.append(st)
            rows.sort(key=lambda r: json.dumps(r, sort_keys=True))
            traces += chunk(rows, 40, "verify", dict(ng=ng, t=t))
        return traces, stats
    return gen


SUITES["verify_init"] = _verify(["init", "frag"])
SUITES["verify_con"] = _verify(["con"])
SUITES["verify_full"] = _verify(["full"])


# ------------------------------------------------------------------------------------- one gossiper, all its inputs

def I(k, e, p, v):
    return Rec(t="init", k=k, e=e, p=p, v=v)


def F(k, e, p, v, g):
    return Rec(t="frag", k=k, e=e, p=p, v=v, g=g)


def CON(k, e, p, v, w):
    return Rec(t="con", k=k, e=e, p=p, v=v, w=w)


def ACC(e, p, by):
    return Rec(t="acc", e=e, p=p, by=by)


def NOTE(e, p, v, frm):
    return Rec(t="note", e=e, p=p, v=v, **{"from": frm})


def REQ(e, p, frm, v=1):
    return Rec(t="req", e=e, p=p, v=v, **{"from": frm})


def BAD(b):
    return Rec(t="bad", b=b)


BADS_STH = ["garbage_sth", "array_frag", "emptyobj_con", "sth_forged1", "sth_forged2", "sth_outsider", "sth_relabel", "sth_other",
            "frag_forged", "frag_outsider", "frag_relabel", "frag_other", "con_same", "con_forged", "con_periods", "con_framed", "full_one"]
BADS_REV = ["empty_rev", "note_garbage", "req_garbage", "req_unknown", "rev_forged2", "rev_altered"]
BADS_ACC = ["emptyobj_acc", "accfrag_forged", "acc_forged", "full_repeat", "full_forged"]

SOLO = {
    # name: (alphabet, MaxPer, NBad, quick MaxLen, thorough MaxLen)
    "sth": ({I("sth", "L1", "p0", 1), I("sth", "L1", "p0", 2), I("sth", "L1", "p0", 3), F("sth", "L1", "p0", 1, "G2"), F("sth", "L1", "p0", 1, "G3"),
             F("sth", "L1", "p0", 2, "G2"), CON("sth", "L1", "p0", 1, 2), CON("sth", "L1", "p0", 2, 3)}, 0, 0, 5, 7),
    "rev": ({I("rev", "C1", "p0", 1), I("rev", "C1", "p0", 2), I("rev", "C1", "p0", 3), F("rev", "C1", "p0", 1, "G2"), F("rev", "C1", "p0", 1, "G3"), F("rev", "C1", "p0", 2, "G3"),
             NOTE("C1", "p0", 1, "G2"), NOTE("C1", "p0", 2, "G3"), REQ("C1", "p0", "G2"), CON("rev", "C1", "p0", 1, 2)}, 0, 0, 5, 6),
    "acc": ({ACC("L1", "p0", "M1"), ACC("L1", "p0", "M2"), ACC("C1", "p0", "M1"), F("acc", "L1", "p0", 0, "G2"), F("acc", "L1", "p0", 0, "G3"),
             I("sth", "L1", "p0", 1), I("sth", "L1", "p0", 2), F("sth", "L1", "p0", 1, "G2")}, 0, 0, 5, 6),
    "cross": ({I("sth", "L1", "p0", 1), I("sth", "L1", "p0", 2), I("sth", "L2", "p0", 1), I("rev", "C1", "p0", 1), I("rev", "C1", "p0", 2),
               F("sth", "L2", "p0", 1, "G2"), F("rev", "C1", "p0", 1, "G2"), CON("sth", "L1", "p0", 1, 2)}, 0, 0, 5, 6),
    "periods": ({I("sth", "L1", "p0", 1), I("sth", "L1", "p1", 1), I("sth", "L1", "p1", 2), F("sth", "L1", "p0", 1, "G2"), F("sth", "L1", "p1", 1, "G2"),
                 CON("sth", "L1", "p1", 1, 2), I("rev", "C1", "p0", 1), I("rev", "C1", "p1", 1)}, 1, 0, 5, 6),
    "accper": ({ACC("L1", "p0", "M1"), ACC("L1", "p1", "M1"), F("acc", "L1", "p0", 0, "G2"), F("acc", "L1", "p1", 0, "G2"), I("sth", "L1", "p1", 1),
                I("sth", "L1", "p0", 1)}, 1, 0, 5, 6),
}
FULL_ALPHABET = (SOLO["sth"][0] | SOLO["rev"][0] | SOLO["acc"][0] | SOLO["cross"][0]
                 | {I("sth", "L2", "p0", 2), I("rev", "C2", "p0", 1), F("acc", "C1", "p0", 0, "G3"), F("sth", "L2", "p0", 1, "G3"), CON("rev", "C2", "p0", 1, 2),
                    NOTE("C2", "p0", 1, "G3"), REQ("C2", "p0", "G3")}
                 | {I("sth", "L1", "p1", 1), I("sth", "L1", "p1", 2), I("rev", "C1", "p1", 1), I("rev", "C1", "p1", 2), F("sth", "L1", "p1", 1, "G2"),
                    F("sth", "L1", "p1", 1, "G3"), F("rev", "C1", "p1", 1, "G2"), CON("sth", "L2", "p1", 1, 2), ACC("L2", "p1", "M1"), NOTE("C1", "p1", 1, "G2"),
                    I("sth", "L1", "p2", 1), I("rev", "C1", "p2", 1), I("sth", "L2", "p2", 2), F("sth", "L1", "p2", 1, "G3")})
SOLO_INV = ["OneStatement", "SignsOnce", "FullSound", "FullOnce", "ConOnce", "ShutOut", "Detects"]


def broken(i):
    """Every other behaviour is replayed with peers or the monitor not reachable, or answering with errors: what the
    process sends must not depend on it."""
    k = {1: dict(refuse=["G2"]), 3: dict(refuse=["M1"]), 5: dict(fail=["G2", "G3", "G4", "M1"]), 7: dict(refuse=["G2", "G3", "M1"])}.get(i % 8)
    return k or {}


def gossip_traces(paths, ng, t, wait=4):
    return [dict(model="gossip", init=dict(ng=ng, t=t, wait=wait, **broken(i)), steps=p) for i, p in enumerate(paths)]


def _solo(name, groups=((3, 2),), big=True):
    def gen(tier, seed, sc):
        alpha, mp, nb, ql, tl = SOLO[name]
        traces, stats = [], []
        for ng, t in groups:
            ln = ql if tier == "quick" else tl
            paths, st = run_tlc(sc, "GossipSolo", dict(Alphabet=alpha, MaxLen=ln, MaxPer=mp, NBad=nb, T=t, Wait=2, Remember=True), invariants=SOLO_INV,
                                view="View", action_constraint="Emit", timeout=3000, heap="6g")
            stats.append(st)
            traces += gossip_traces(drop_prefixes(paths), ng, t)
        return traces, stats
    return gen


for _n in SOLO:
    SUITES["gossip_" + _n] = _solo(_n)


@suite("gossip_bad")
def gossip_bad(tier, seed, sc):
    """Every invalid input in every reachable state of small scenarios."""
    traces, stats = [], []
    for base, bads in ((SOLO["sth"][0] - {I("sth", "L1", "p0", 3), CON("sth", "L1", "p0", 2, 3)}, BADS_STH), (SOLO["rev"][0], BADS_REV), (SOLO["acc"][0], BADS_ACC)):
        paths, st = run_tlc(sc, "GossipSolo", dict(Alphabet=base | {BAD(b) for b in bads}, MaxLen=4 if tier == "quick" else 5, MaxPer=0, NBad=1, T=2, Wait=2, Remember=True),
                            invariants=SOLO_INV, view="View", action_constraint="Emit", timeout=3000, heap="6g")
        stats.append(st)
        traces += gossip_traces(drop_prefixes(paths), 3, 2)
    return traces, stats


def _walk(ng, t, extra):
    def gen(tier, seed, sc):
        n, ln = (150, 24) if tier == "quick" else (6000, 40)
        alpha = FULL_ALPHABET | {BAD(b) for b in BADS_STH + BADS_REV + BADS_ACC}
        if ng > 3:
            alpha = alpha | {F(x[1], x[2], x[3], x[4], "G4") for x in
                             [[v for _, v in r.items] for r in FULL_ALPHABET if r.items[0][1] == "frag" and r.items[5][1] == "G2"]}
        paths, st = run_tlc(sc, "GossipSolo", dict(Alphabet=alpha, MaxLen=ln, MaxPer=2, NBad=8, T=t, Wait=2, Remember=False), invariants=SOLO_INV, mode="sim",
                            num=n, depth=ln + 1, seed=seed + ng, action_constraint="EmitEnd", timeout=3000)
        return gossip_traces(drop_prefixes(paths), ng, t), [st]
    return gen


SUITES["gossip_walk3"] = _walk(3, 2, ())
SUITES["gossip_walk4"] = _walk(4, 3, ())


# --------------------------------------------------------------------------------- concurrent handling at one gossiper

TIMER, TURN, DRAIN, EDGE = Rec(t="timer"), Rec(t="turn"), Rec(t="drain"), Rec(t="edge")
GC_INV = ["OneStatement", "Detected", "OneProof", "Proven", "OneFull", "FullSound", "SignsOne"]


def outcome(hist):
    """What was sent in each entry; concurrent handlers' messages without their tags."""
    return [[m["m"] for m in h["x"]] if h["a"]["t"] == "par" else h["x"] for h in hist]


def group_outcomes(rows, model, init):
    g = {}
    for r in rows:
        k = json.dumps(r["sc"], sort_keys=True)
        g.setdefault(k, (r["sc"], {}))[1][json.dumps(outcome(r["hist"]), sort_keys=True)] = outcome(r["hist"])
    out = []
    for k in sorted(g):
        sc, os_ = g[k]
        out.append(dict(model=model, points=True, init=init, steps=[dict(a=dict(t="scen", **sc), x=[os_[o] for o in sorted(os_)])]))
    return out


def pairs(ops, same=True):
    l = sorted(ops, key=lambda r: repr(r.items))
    return [[a, b] for i, a in enumerate(l) for b in l[i if same else i + 1:]]


def conc_run(sc, scen, ng, t, seed, budget):
    ss = {Rec(pre=tuple(p), ops=tuple(o), post=tuple(q)) for p, o, q in scen}
    rows, st = run_tlc(sc, "GossipConc", dict(Scen=ss, T=t, Wait=2), invariants=GC_INV, action_constraint="Emit", timeout=3000, heap="6g")
    return group_outcomes(rows, "gossipconc", dict(ng=ng, t=t, wait=4, seed=seed, budget=budget)), st


def stmts(*ops):
    return [o for o in ops]


i1, i2, i3 = (I("sth", "L1", "p0", v) for v in (1, 2, 3))
f12, f13, f14, f22, f23 = F("sth", "L1", "p0", 1, "G2"), F("sth", "L1", "p0", 1, "G3"), F("sth", "L1", "p0", 1, "G4"), F("sth", "L1", "p0", 2, "G2"), F("sth", "L1", "p0", 2, "G3")
c12 = CON("sth", "L1", "p0", 1, 2)
r1, r2 = I("rev", "C1", "p0", 1), I("rev", "C1", "p0", 2)
g12, g13, g22 = F("rev", "C1", "p0", 1, "G2"), F("rev", "C1", "p0", 1, "G3"), F("rev", "C1", "p0", 2, "G2")
n12, n13, q2 = NOTE("C1", "p0", 1, "G2"), NOTE("C1", "p0", 1, "G3"), REQ("C1", "p0", "G2")
a1, b2, b3 = ACC("L1", "p0", "M1"), F("acc", "L1", "p0", 0, "G2"), F("acc", "L1", "p0", 0, "G3")
P1 = dict(i1=I("sth", "L1", "p1", 1), i2=I("sth", "L1", "p1", 2), f2=F("sth", "L1", "p1", 1, "G2"), f3=F("sth", "L1", "p1", 1, "G3"), r1=I("rev", "C1", "p1", 1), r2=I("rev", "C1", "p1", 2),
          g2=F("rev", "C1", "p1", 1, "G2"), c=CON("sth", "L1", "p1", 1, 2), a=ACC("L1", "p1", "M1"), b2=F("acc", "L1", "p1", 0, "G2"))


def conc_scen(name, deep):
    """(pre, ops, post) of a family; ng, t"""
    if name == "sth":
        pres = [[], [i1], [f12], [i1, f12], [i1, f13]] + ([[i2], [c12], [i1, f22], [f12, f22]] if deep else [])
        opss = pairs([i1, i2, f12, f13, f22, c12]) + [[i1, i2, i3], [i1, i1, i2], [f12, f13, i1], [i1, i2, c12]]
        extra = [([f12, f22], [f13, f23]), ([f12], [f13, f22, f23]), ([], [CON("sth", "L1", "p0", 2, 3), c12]), ([c12], [i1, f12, CON("sth", "L1", "p0", 2, 3)])]
        post = [DRAIN, f13, i3, f23]
        sc = [(p, o, post) for p in pres for o in opss] + [(p, o, post) for p, o in extra]
        sc += [(p, o, post) for p in ([i1], [i1, f12], [i1, f22]) for o in ([TIMER, i1], [TIMER, i2], [TIMER, f12], [TIMER, f13], [TIMER, c12], [TIMER, f12, f13], [TIMER, i2, f12], [TIMER, f22])]
        return sc, 3, 2
    if name == "sth3":
        pres = [[i1, f12], [f12], [f12, f13]] + ([[], [i1], [f12, f22], [i1, f22]] if deep else [])
        opss = [[f13, f14], [f12, f13], [f14, f14], [f12, f13, f14], [f13, f14, c12], [f13, f14, i2], [f22, f13], [f23, f14]]
        sc = [(p, o, [DRAIN, f14, i3]) for p in pres for o in opss]
        sc += [(p, o, [f14, i3]) for p in ([i1, f12], [i1, f13], [i1]) for o in ([TIMER, f13], [TIMER, f12, f13], [TIMER, f14, c12])]
        return sc, 4, 3
    if name == "rev":
        pres = [[], [r1], [r1, g12]] + ([[r2], [r1, g13], [CON("rev", "C1", "p0", 1, 2)]] if deep else [])
        opss = pairs([r1, r2, g12, g13, n12, n13, CON("rev", "C1", "p0", 1, 2)]) + [[r1, q2], [r1, r2, I("rev", "C1", "p0", 3)], [g12, g13, r2], [r1, g12, g13]]
        post = [DRAIN, I("rev", "C1", "p0", 3)]
        # which of two conflicting payloads is kept is left open, and with it which fragments count afterwards
        sc = [(p, o, post) for p in pres for o in opss]
        sc += [(p, o, post) for p in ([r1], [r1, g12]) for o in ([TIMER, r1], [TIMER, r2], [TIMER, g12], [TIMER, g13], [TIMER, g12, g13])]
        return sc, 3, 2
    if name == "acc":
        pres = [[], [b2], [i1], [a1]] + ([[i1, f12], [b2, i1]] if deep else [])
        opss = pairs([a1, b2, b3, i1, f12, c12]) + [[a1, b2, b3], [a1, b2, i1], [a1, b2, c12]]
        sc = [(p, o, [DRAIN, b3, i2, f13]) for p in pres for o in opss]
        sc += [(p, o, [DRAIN, i2, f13]) for p in ([i1], [i1, f12], [i1, b2]) for o in ([TIMER, a1], [TIMER, b3], [TIMER, a1, b2])]
        return sc, 3, 2
    if name == "turn":
        x = P1
        pres = [[i1, f12, EDGE], [EDGE], [EDGE, x["i1"]], [i1, EDGE, x["i1"], x["f2"]], [r1, EDGE, x["r1"]]]
        opss = [[TURN, o] for o in (x["i1"], x["i2"], x["f2"], x["f3"], x["r1"], x["g2"], x["c"], x["a"], x["b2"])] + [[TURN, x["i1"], x["i2"]], [TURN, x["f2"], x["f3"]], [TURN, x["i1"], x["f2"]], [TURN, x["r1"], x["r2"]], [TURN, x["r1"], x["g2"]]]
        return [(p, o, [DRAIN, x["i2"], x["f3"], I("rev", "C1", "p1", 3)]) for p in pres for o in opss], 3, 2
    raise KeyError(name)


def _conc(name):
    def gen(tier, seed, sc):
        scen, ng, t = conc_scen(name, tier != "quick")
        tr, st = conc_run(sc, scen, ng, t, seed, 60 if tier == "quick" else 600)
        return tr, [st]
    return gen


CONC = ["sth", "sth3", "rev", "acc", "turn"]
for _n in CONC:
    SUITES["conc_" + _n] = _conc(_n)


# ------------------------------------------------------------------------------------------- several gossipers

TOPO = {
    "full3": [[2, 3], [1, 3], [1, 2]],
    "line3": [[2], [1, 3], [2]],
    "line4": [[2], [1, 3], [2, 4], [3]],
    "ring4": [[2, 4], [1, 3], [2, 4], [3, 1]],
    "star4": [[2, 3, 4], [1], [1], [1]],
    "full4": [[2, 3, 4], [1, 3, 4], [1, 2, 4], [1, 2, 3]],
}


def AT(g, r):
    return Rec(at=g, **dict(r.items))


NET = {
    # name: (topology, T, injections)
    "sth1": ("line3", 2, {AT("G1", I("sth", "L1", "p0", 1))}),
    "sth_ring": ("ring4", 3, {AT("G2", I("sth", "L1", "p0", 1)), AT("G2", I("sth", "L2", "p0", 1))}),
    "sth_full": ("full4", 3, {AT("G1", I("sth", "L1", "p0", 1)), AT("G3", I("sth", "L1", "p0", 1))}),
    "sth_star": ("star4", 4, {AT("G2", I("sth", "L1", "p0", 1)), AT("G4", I("sth", "L2", "p0", 2))}),
    "rev1": ("full3", 2, {AT("G1", I("rev", "C1", "p0", 1))}),
    "rev_line": ("line4", 2, {AT("G1", I("rev", "C1", "p0", 1)), AT("G4", I("rev", "C2", "p0", 1))}),
    "rev_two": ("ring4", 3, {AT("G1", I("rev", "C1", "p0", 1)), AT("G3", I("rev", "C1", "p0", 1))}),
    "equiv": ("line4", 2, {AT("G1", I("sth", "L1", "p0", 1)), AT("G4", I("sth", "L1", "p0", 2))}),
    "equiv3": ("full3", 3, {AT("G1", I("sth", "L1", "p0", 1)), AT("G2", I("sth", "L1", "p0", 2)), AT("G3", I("sth", "L1", "p0", 3))}),
    "equivrev": ("line3", 2, {AT("G1", I("rev", "C1", "p0", 1)), AT("G3", I("rev", "C1", "p0", 2))}),
    "acc": ("line4", 2, {AT("G1", ACC("L1", "p0", "M1")), AT("G4", ACC("L1", "p0", "M4"))}),
    "acc3": ("full4", 3, {AT("G1", ACC("C1", "p0", "M1")), AT("G2", ACC("C1", "p0", "M2")), AT("G3", ACC("C1", "p0", "M3")), AT("G4", ACC("C1", "p0", "M4"))}),
    "con": ("ring4", 2, {AT("G1", CON("sth", "L1", "p0", 1, 2)), AT("G2", I("sth", "L1", "p0", 1)), AT("G3", I("sth", "L2", "p0", 1))}),
}
NET_INV = ["Converged", "NoFraming", "Agreement"]


class Fun:
    """A TLA+ function with string domain."""
    def __init__(self, d):
        self.d = d

    def tla(self):
        return " @@ ".join(f'("{k}" :> {tla(v)})' for k, v in self.d.items())


def net_consts(topo, t, inj, record):
    n = len(TOPO[topo])
    return dict(Nodes={f"G{i+1}" for i in range(n)}, Peers=Fun({f"G{i+1}": {f"G{j}" for j in e} for i, e in enumerate(TOPO[topo])}),
                Inject=inj, Record=record, T=t, Wait=2)


def _net(names, live=()):
    def gen(tier, seed, sc):
        traces, stats = [], []
        with cf.ThreadPoolExecutor(max_workers=4) as ex:
            jobs = []
            for n in names:
                topo, t, inj = NET[n]
                jobs.append((n, ex.submit(run_tlc, sc, "GossipNet", net_consts(topo, t, inj, True), invariants=NET_INV + ["EmitQuiet"], mode="sim",
                                          num=40 if tier == "quick" else 3000, depth=400, seed=seed, timeout=3000)))
            lv = []
            for n in live if tier == "quick" else names:
                topo, t, inj = NET[n]
                small = n in live
                lv.append(ex.submit(run_tlc, sc, "GossipNet", net_consts(topo, t, inj, False), invariants=NET_INV, properties=["Terminates"] if small else [],
                                    spec_formula="Spec" if small else None, timeout=3000, heap="6g", workers=2, partial=tier != "quick" and not small))
            for n, j in jobs:
                paths, st = j.result()
                st["scenario"] = n
                stats.append(st)
                topo, t, _ = NET[n]
                traces += [dict(model="gossipnet", init=dict(ng=len(TOPO[topo]), t=t, wait=4, edges=[[j - 1 for j in e] for e in TOPO[topo]]), steps=p) for p in drop_prefixes(paths)]
            for j in lv:
                stats.append(j.result()[1])
        return traces, stats
    return gen


SUITES["net_sth"] = _net(["sth1", "sth_ring", "sth_full", "sth_star"], ["sth1"])
SUITES["net_rev"] = _net(["rev1", "rev_line", "rev_two", "equivrev"], ["rev1"])
SUITES["net_pom"] = _net(["equiv", "equiv3", "acc", "acc3", "con"], ["acc"])


# --------------------------------------------------------------------------------------------------- one monitor

def A(a, v=None):
    return Rec(a=a, v=v) if v is not None else Rec(a=a)


def MI(k, e, q, v=1):
    return Rec(t="init", k=k, e=e, q=q, v=v)


def MF(k, e, q, v=1, gs=None):
    return Rec(t="full", k=k, e=e, q=q, v=v, **({"gs": gs} if gs else {}))


def MFR(k, e, q, v=1):
    return Rec(t="frag", k=k, e=e, q=q, v=v)


def MC(k, e, q):
    return Rec(t="con", k=k, e=e, q=q)


def ASK(**k):
    return Rec(**k)


MON_BADS = ["garbage_sth", "array_frag", "emptyobj_con", "empty_rev", "sth_forged1", "sth_outsider", "sth_relabel", "sth_other", "con_same", "con_forged",
            "con_periods", "con_framed", "full_one", "full_repeat", "full_forged"]
LOG_ANS = {A("stmt", 1), A("refused"), A("timeout"), A("error"), A("empty"), A("null"), A("garbage"), A("forged", 1), A("altered", 1), A("other"), A("othertype"), A("kind"), A("stale"), A("early"),
           A("relabel"), A("outsider", 1), A("hang"), A("slow", 1), A("slowbad")}
CA_ANS = {A("hang"), A("slow", 1), A("stmt", 1), A("stmt", 2), A("stmt", 3), A("refused"), A("forged", 1), A("other", 1), A("othertype", 1), A("stale", 1), A("relabel", 1), A("kind")}
ASKS = {ASK(n=0), ASK(n=1), ASK(n=7), ASK(s="abc"), ASK(s=""), ASK(s="../M1/Period_0"), ASK(s="0/../Period_0"), ASK(raw="0"), ASK(raw="{"), ASK(raw="")}
MON = {
    # name: (watched->answers, inputs, asks, MaxPer, MaxIn, MaxAsk, MaxBad) quick; thorough raises MaxIn
    "ans": ({"L1": LOG_ANS, "C1": CA_ANS}, {MF("rev", "C1", "cur", 1)}, set(), 0, 0, 0, 0, 0),
    "log": ({"L1": {A("stmt", 1), A("refused"), A("stale"), A("forged", 1)}}, {MI("sth", "L1", "cur"), MI("sth", "L1", "prev"), MI("sth", "L2", "cur"), MC("sth", "L1", "cur"), MC("sth", "L2", "cur"),
             MF("acc", "L1", "cur", 0), MF("acc", "L1", "prev", 0), MF("acc", "L2", "cur", 0), MF("sth", "L1", "cur"), MC("sth", "L1", "prev"), MFR("sth", "L1", "cur"), BAD("sth_forged1"), BAD("con_forged"), BAD("full_one")},
            set(), 1, 2, 0, 1, 3),
    "ca": ({"C1": {A("stmt", 1), A("stmt", 3), A("refused"), A("stale", 1)}}, {MI("rev", "C1", "cur"), MI("rev", "C1", "prev"), MF("rev", "C1", "cur", 1), MF("rev", "C1", "prev", 1), MC("rev", "C1", "cur"),
            MF("acc", "C1", "cur", 0), BAD("rev_forged2")}, set(), 2, 3, 0, 1, 4),
    "both": ({"L1": {A("stmt", 1), A("refused")}, "L2": {A("stmt", 1), A("refused")}, "C1": {A("stmt", 1), A("garbage")}}, {MI("sth", "L1", "cur"), MI("rev", "C1", "cur"), MC("sth", "L2", "cur"), MF("acc", "L1", "cur", 0)},
             set(), 0, 2, 0, 0, 3),
    "pub": ({}, {MF("sth", "L1", "cur"), MF("sth", "L1", "prev"), MF("sth", "L2", "cur", 2), MF("sth", "L2", "cur", 2, frozenset({"G2", "G3"})), MF("rev", "C1", "cur", 1), MF("rev", "C1", "prev", 1), MF("acc", "L1", "cur", 0), MC("sth", "L1", "cur"), MC("rev", "C1", "cur"),
                 MI("sth", "L1", "cur"), MFR("sth", "L2", "cur")}, set(), 1, 3, 0, 0, 4),
    "pubbad": ({}, {MF("sth", "L1", "cur"), MC("sth", "L1", "cur")} | {BAD(b) for b in MON_BADS}, set(), 1, 2, 0, 1, 3),
    "ask": ({}, {MF("sth", "L1", "cur"), MC("rev", "C1", "cur")}, ASKS, 1, 1, 2, 0, 2),
}
MON_INV = ["AccuseOnce", "NeverAccusedWrongly", "SilentAccused", "PublishedOnce", "NoConvicted", "Complete"]


def mon_consts(watch, inputs, asks, mp, mi, ma, mb, rs=False):
    return dict(MayRestart=rs, Watched=set(watch), Answers=Fun(watch) if watch else Raw("[e \\in {} |-> {}]"), Inputs=inputs, Asks=asks, MaxPer=mp, MaxIn=mi, MaxAsk=ma, MaxBad=mb)


def mon_traces(paths, watch):
    return [dict(model="monitor", init=dict(ng=3, t=2, wait=5, watched=sorted(watch), **{2: dict(refuse=["G1"]), 4: dict(fail=["G1"])}.get(i % 5, {})), steps=p) for i, p in enumerate(paths)]


def _mon(name):
    def gen(tier, seed, sc):
        watch, inputs, asks, mp, mi, ma, mb, tmi = MON[name]
        paths, st = run_tlc(sc, "Monitor", mon_consts(watch, inputs, asks, mp, mi if tier == "quick" else tmi, ma, mb, name == "ask"), invariants=MON_INV, view=None if name == "ans" else "View",
                            action_constraint="Emit", timeout=3000, heap="6g")
        return mon_traces(drop_prefixes(paths), watch), [st]
    return gen


for _n in MON:
    SUITES["mon_" + _n] = _mon(_n)


@suite("mon_walk")
def mon_walk(tier, seed, sc):
    watch = {"L1": {A("stmt", 1), A("refused"), A("stale"), A("forged", 1), A("other")}, "L2": {A("stmt", 1), A("garbage")}, "C1": {A("stmt", 1), A("stmt", 3), A("refused")}}
    inputs = MON["log"][1] | MON["ca"][1] | MON["pub"][1] | {BAD(b) for b in MON_BADS}
    n = 100 if tier == "quick" else 4000
    paths, st = run_tlc(sc, "Monitor", mon_consts(watch, inputs, ASKS, 3, 16, 4, 5), invariants=MON_INV + ["EmitEnd"], mode="sim", num=n, depth=60, seed=seed, timeout=3000)
    return mon_traces(drop_prefixes(paths), watch), [st]


# ---------------------------------------------------------------------------------------------- concurrency at one monitor

def FEED(m):
    return Rec(t="feed", m=m)


def AK(**k):
    return Rec(t="ask", ask=Rec(**k))


def QUERY(*par):
    return Rec(t="query", par=tuple(par))


def WAIT(*par):
    return Rec(t="wait", par=tuple(par))


def PUBLISH(*par):
    return Rec(t="publish", par=tuple(par))


def PAR(*par):
    return Rec(t="par", par=tuple(par))


MCONC_INV = ["ExactlyOnce", "NeverBoth", "FairAccusation", "PublishedOnce", "NoConvicted"]


def mconc_scen(name, deep):
    """watched -> answer, scenarios"""
    s1, s2, s2b = MF("sth", "L1", "cur"), MF("sth", "L2", "cur"), MF("sth", "L1", "prev")
    v1, v2 = MF("rev", "C1", "cur"), MF("rev", "C2", "cur")
    k1, k2, kc = MC("sth", "L1", "cur"), MC("sth", "L2", "cur"), MC("rev", "C1", "cur")
    a1, ac = MF("acc", "L1", "cur", 0), MF("acc", "C1", "cur", 0)
    if name == "pub":
        sets = [[], [s1], [s1, s2], [v1], [s1, a1], [k2], [s1, k2, v1]]
        pars = [[x] for x in (s1, s2, v1, k1, k2, kc, a1)] + [[k1, s1], [kc, v1], [s1, a1], [s1, s2], [k1, a1], [AK(n=0)], [s1, AK(n=0)]]
        if deep:
            pars += [[k1, s1, a1], [kc, v1, s2], [k1, kc, s2], [k1, k2], [s1, v1, AK(n=0)]]
        scen = []
        for pre in sets:
            for par in pars:
                if any(x in pre for x in par):
                    continue
                scen.append([QUERY(), WAIT()] + [FEED(x) for x in pre] + [PUBLISH(*par), AK(n=0), QUERY(), WAIT(), PUBLISH(), AK(n=0), AK(n=1)])
        return {}, scen
    if name == "wait":
        ini = {"L1": MI("sth", "L1", "cur"), "C1": MI("rev", "C1", "cur")}
        pars = [[ini["L1"]], [ini["C1"]], [k1], [kc], [a1], [ac], [MI("sth", "L2", "cur")], [ini["L1"], kc], [k1, ini["C1"]], [ini["L1"], ini["C1"]], [ini["L1"], k1], [MFR("sth", "L1", "cur")]]
        pre = [[], [ini["L1"]], [kc]]
        return {"L1": A("refused"), "C1": A("refused"), "L2": A("stmt", 1)}, [[QUERY()] + [FEED(x) for x in p] + [WAIT(*par), PUBLISH(), QUERY(), WAIT()] for p in pre for par in pars if not any(x in p for x in par)] + \
               [[QUERY(), WAIT(), PUBLISH(), QUERY(), WAIT(MI("sth", "L1", "prev"))]] + [[QUERY(), PAR(*par), WAIT(), PUBLISH()] for par in ([k1, kc], [ini["L1"], ini["C1"]], [s1, s2], [k1, s1], [a1, ac], [v1, v2], [k1, ini["L1"]], [s1, AK(n=0)])]
    if name == "query":
        kp = MC("sth", "L1", "prev")
        pars = [[k1], [a1], [kc], [k1, kc], [s1], [MI("sth", "L1", "cur")], [v1]]
        return {"L1": A("stmt", 1), "C1": A("refused"), "L2": A("refused")}, [[QUERY(), WAIT(), PUBLISH(), QUERY(*par), WAIT(), PUBLISH()] for par in pars + [[kp]]]
    raise KeyError(name)


def _mconc(name):
    def gen(tier, seed, sc):
        watch, scen = mconc_scen(name, tier != "quick")
        c = mon_consts({e: {a} for e, a in watch.items()}, set(), set(), 3, 0, 0, 0)
        c["Scen"] = {tuple(s) for s in scen}
        rows, st = run_tlc(sc, "MonConc", c, invariants=MCONC_INV, action_constraint="CEmit", view="CView", init="CInit", nxt="CNext", timeout=3000, heap="6g")
        g = {}
        for r in rows:
            k = json.dumps(r["sc"], sort_keys=True)
            o = [h["x"] for h in r["hist"]]
            e = g.setdefault(k, ([h["a"] for h in r["hist"]], {}))
            e[1][json.dumps(o, sort_keys=True)] = o
        tr = []
        for k in sorted(g):
            acts, os_ = g[k]
            tr.append(dict(model="monconc", points=True, init=dict(ng=3, t=2, wait=5, watched=sorted(watch), seed=seed, budget=60 if tier == "quick" else 600),
                           steps=[dict(a=dict(t="scen", acts=acts), x=[os_[o] for o in sorted(os_)])]))
        return tr, [st]
    return gen


MCONC = ["pub", "wait", "query"]
for _n in MCONC:
    SUITES["mconc_" + _n] = _mconc(_n)


# ---------------------------------------------------------------------------------------------------------- a client

CLI_TREES = [dict(v=1, m=[1, 2, 3], stamp="t1"), dict(v=2, m=[1, 2], stamp="t2"), dict(v=3, m=[2, 3, 4, 5], stamp="t3"), dict(v=4, m=[1, 4], stamp="t4"), dict(v=5, m=[1, 2, 3], stamp="t5")]


def INFO(e="L1", i=0, v=1, ps=1, pv=None, sig="ok", typ="init", pt="no"):
    return Rec(e=e, i=i, v=v, sig=sig, typ=typ, ps=ps, pv=v if pv is None else pv, pt=pt)


def CERT(id, *infos, subj=1, iss="C1", rid=6, ext="ok"):
    return Rec(id=id, subj=subj, iss=iss, rid=rid, ext=ext, infos=tuple(infos))


L1, L2 = INFO(), INFO("L2", 0, 4)
CLI_CERTS = {
    "l1": CERT("l1", L1), "l2": CERT("l2", L2), "both": CERT("both", L1, L2), "s2": CERT("s2", INFO(ps=2), subj=2), "s3": CERT("s3", INFO(v=5, ps=3), subj=3),
    "stamp": CERT("stamp", INFO(v=5)), "l1p1": CERT("l1p1", INFO(i=1, v=2)), "l2p1": CERT("l2p1", INFO("L2", 1, 3, 4), subj=4), "l1p01": CERT("l1p01", L1, INFO(i=1, v=2)),
    # not vouched for
    "none": CERT("none"), "noext": CERT("noext", L1, ext="none"), "junk": CERT("junk", L1, ext="junk"), "asn1": CERT("asn1", L1, ext="asn1"),
    "wrongsubj": CERT("wrongsubj", INFO(ps=1), subj=2), "notin": CERT("notin", INFO(ps=1), subj=4), "root": CERT("root", INFO(v=2)), "period": CERT("period", INFO(i=1, v=1)),
    "otherproof": CERT("otherproof", INFO(v=1, pv=2)), "otherlogger": CERT("otherlogger", INFO("L2", 0, 1)), "nopoi": CERT("nopoi", INFO(pt="none")), "path": CERT("path", INFO(pt="path")),
    "sib": CERT("sib", INFO(pt="sib")), "short": CERT("short", INFO(pt="short")), "forged": CERT("forged", INFO(sig="forged")), "byother": CERT("byother", INFO(sig="byother")),
    "signer": CERT("signer", INFO(sig="signer")), "relabel": CERT("relabel", INFO(sig="relabel")), "full": CERT("full", INFO(typ="full")),
    # one of the loggers is enough, wherever it is listed
    "bad_ok": CERT("bad_ok", INFO(sig="forged"), L2), "ok_bad": CERT("ok_bad", L1, INFO("L2", 0, 4, pt="sib")), "bad_bad": CERT("bad_bad", INFO(pt="path"), INFO("L2", 0, 3, 4)),
    "three": CERT("three", INFO(pt="none"), INFO("L2", 0, 4, sig="forged"), INFO("L1", 1, 2)),
    # issuers and numbers
    "c2": CERT("c2", L1, iss="C2"), "r0": CERT("r0", L1, rid=0), "r1": CERT("r1", L1, rid=1), "r2": CERT("r2", L1, rid=2), "r3": CERT("r3", L1, rid=3), "r7": CERT("r7", L1, rid=7), "r9": CERT("r9", L1, rid=9),
    "r8": CERT("r8", L1, rid=8), "r10": CERT("r10", L1, rid=10), "c2r0": CERT("c2r0", L1, iss="C2", rid=0), "c2r7": CERT("c2r7", L1, iss="C2", rid=7), "unknown": CERT("unknown", L1, iss="L1"),
    "c2l2": CERT("c2l2", L2, iss="C2"), "r10l2": CERT("r10l2", INFO("L2", 0, 4), rid=10),
}


def UO(t, e, i=0, v=None, b="ok"):
    return Rec(t=t, e=e, i=i, **({"v": v} if v is not None else {}), b=b)


def UPD(rev=(), sth=(), acc=(), con=()):
    return Rec(rev=tuple(rev), sth=frozenset(sth), acc=frozenset(acc), con=frozenset(con))


def RV(e, i=0, v=1, b="ok"):
    return UO("rev", e, i, v, b)


def ST(e, i=0, v=1, b="ok"):
    return UO("sth", e, i, v, b)


BASE_UPD = UPD([RV("C1"), RV("C2", 0, 2)], [ST("L1"), ST("L2", 0, 4)])
FULL_BADS = ["one", "repeat", "outsider", "forged", "altered", "init", "frag", "kind"]
CON_BADS = ["same", "forged", "periods", "framed", "kind"]
CLI = {
    # name: (updates, MaxUp, MaxSave, MaxStart) quick, thorough MaxUp
    "state": ({BASE_UPD, UPD([RV("C1")], [ST("L1")]), UPD([], [ST("L2", 0, 4)]), UPD([RV("C2", 0, 2)]), UPD([RV("C1", 1), RV("C2", 1, 2)], [ST("L1", 1, 2), ST("L2", 1, 3)]), UPD([RV("C1", 1, 4)]),
               UPD(con=[UO("con", "L1")]), UPD(acc=[UO("acc", "L2")]), UPD([], [ST("L1", 0, 5)]), UPD()}, 3, 0, 0, 4),
    "chain": ({UPD([RV("C1", i, v)]) for i in range(3) for v in (1, 2, 4)} | {UPD([RV("C1", 0), RV("C1", 1)], [ST("L1")]), UPD([RV("C1", 1, 3)]), UPD([RV("C1", 1, 5)]), UPD([RV("C2", 0, 1), RV("C2", 1, 4)]),
               UPD([], [ST("L1"), ST("L2", 0, 4)])}, 3, 0, 0, 4),
    "bad": ({BASE_UPD, UPD([RV("C1", 1)], [ST("L1", 1, 2)]), UPD(con=[UO("con", "L1")])} | {UPD([RV("C1", b=b)]) for b in FULL_BADS + ["srh", "relabel"]} | {UPD([], [ST("L1", b=b)]) for b in FULL_BADS + ["relabel"]}
            | {UPD(acc=[UO("acc", "L1", b=b)]) for b in FULL_BADS} | {UPD(con=[UO("con", "L1", b=b)]) for b in CON_BADS}, 3, 0, 0, 3),
    "mixed": ({BASE_UPD, UPD([RV("C1"), RV("C2", b="forged")], [ST("L1")]), UPD([RV("C2", 0, 2, b="one"), RV("C1")], [ST("L2", 0, 4)]), UPD([RV("C1"), RV("C2", 0, 2)], [ST("L1", b="init"), ST("L2", 0, 4)]),
               UPD([RV("C1"), RV("C2", 0, 2)], [ST("L1"), ST("L2", 0, 4)], acc=[UO("acc", "L2", b="one")]), UPD([RV("C1"), RV("C2", 0, 2)], [ST("L1"), ST("L2", 0, 4)], con=[UO("con", "L1", b="framed"), UO("con", "L2")]),
               UPD([RV("C1", 1)], [ST("L1", 1, 2)], [UO("acc", "L2")], [UO("con", "L1")])}, 3, 0, 0, 4),
    "save": ({BASE_UPD, UPD([RV("C1", 1), RV("C2", 1, 4)], [ST("L1", 1, 2)]), UPD(con=[UO("con", "L1")]), UPD(acc=[UO("acc", "L2")]), UPD([RV("C1")], [ST("L1")]), UPD([RV("C1", 1, 3)])}, 3, 1, 2, 3),
}
CLI_INV = ["OnlyVerified", "OneRoot", "NoRevoked"]


def untla(r):
    """A Rec as plain JSON data."""
    if isinstance(r, Rec):
        return {k: untla(v) for k, v in r.items}
    if isinstance(r, (list, tuple, set, frozenset)):
        return [untla(x) for x in r]
    return r


def cli_consts(ups, mu, ms, mr):
    return dict(Updates=ups, Certs=set(CLI_CERTS.values()), MaxUp=mu, MaxSave=ms, MaxStart=mr)


def cli_traces(paths):
    init = dict(trees=CLI_TREES, certs=[untla(c) for c in CLI_CERTS.values()])
    return [dict(model="client", init=init, steps=p) for p in paths]


def _cli(name):
    def gen(tier, seed, sc):
        ups, mu, ms, mr, tmu = CLI[name]
        paths, st = run_tlc(sc, "Client", cli_consts(ups, mu if tier == "quick" else tmu, ms, mr), invariants=CLI_INV, view="View", action_constraint="Emit", properties=["Kept"], spec_formula="Spec", timeout=3000, heap="6g")
        return cli_traces(drop_prefixes(paths)), [st]
    return gen


for _n in CLI:
    SUITES["cli_" + _n] = _cli(_n)


@suite("cli_walk")
def cli_walk(tier, seed, sc):
    ups = set().union(*[c[0] for c in CLI.values()])
    n = 200 if tier == "quick" else 3000
    paths, st = run_tlc(sc, "Client", cli_consts(ups, 8, 2, 2), invariants=CLI_INV + ["EmitEnd"], mode="sim", num=n, depth=14, seed=seed, timeout=3000)
    return cli_traces(drop_prefixes(paths)), [st]


# ----------------------------------------------------------------------------------------------- loggers and CAs

def PC(id, ca, s, key):
    return Rec(id=id, ca=ca, s=s, key=key)


PRECERTS = {k: PC(k, *v) for k, v in dict(a=("C1", 1, 1), b=("C1", 2, 2), c=("C2", 1, 3), d=("C1", 3, 1), e=("C1", 1, 4), f=("C2", 5, 5), g=("C2", 6, 6), h=("C1", 7, 7), i=("C2", 8, 1)).items()}
LOG_BADS = ["empty", "garbage", "json", "trunc", "trail", "forged", "swap", "outsider", "known", "altered", "nosig", "ecdsa"]


def pcs(ids):
    return {PRECERTS[i] for i in ids}


LOG = {
    # name: (subs, bads, down, MaxSub, MaxBad, MaxPer, MaxAsk, thorough MaxSub)
    "sub": (pcs("abcf"), [], [()], 3, 0, 1, 0, 5),
    "same": (pcs("acdei"), [], [()], 4, 0, 0, 0, 5),
    "many": (pcs("abcdefghi"), [], [()], 9, 0, 0, 0, 9),
    "ask": (pcs("ac"), [], [()], 2, 0, 2, 2, 3),
    "down": (pcs("abc"), [], [(), ("C1",), ("C2",), ("C1", "C2")], 2, 0, 1, 1, 3),
    "bad": (pcs("ac"), LOG_BADS, [()], 2, 1, 1, 0, 3),
}
LOG_INV = ["Logged", "NothingElse", "OneTree", "Ready", "Listed"]


def log_consts(subs, bads, down, ms, mb, mp, ma):
    return dict(Subs=subs, Bads=set(bads), AllCAs={"C1", "C2"}, Down={frozenset(d) for d in down}, MaxSub=ms, MaxBad=mb, MaxPer=mp, MaxAsk=ma)


def log_traces(paths):
    return [dict(model="logger", init={}, steps=p) for p in paths]


def _log(name):
    def gen(tier, seed, sc):
        subs, bads, down, ms, mb, mp, ma, tms = LOG[name]
        kw = dict(view="View", action_constraint="Emit", invariants=LOG_INV)
        if name == "many":
            kw = dict(mode="sim", num=60 if tier == "quick" else 1000, depth=11, seed=seed, invariants=LOG_INV + ["EmitEnd"])
        paths, st = run_tlc(sc, "Logger", log_consts(subs, bads, down, ms if tier == "quick" else tms, mb, mp, ma), timeout=3000, heap="6g", **kw)
        return log_traces(drop_prefixes(paths)), [st]
    return gen


for _n in LOG:
    SUITES["log_" + _n] = _log(_n)


@suite("log_walk")
def log_walk(tier, seed, sc):
    n = 80 if tier == "quick" else 3000
    paths, st = run_tlc(sc, "Logger", log_consts(set(PRECERTS.values()), LOG_BADS, [(), ("C1",), ("C2",)], 12, 4, 4, 4), invariants=LOG_INV + ["EmitEnd"], mode="sim", num=n, depth=40, seed=seed, timeout=3000)
    return log_traces(drop_prefixes(paths)), [st]


def CS(l, cov, b="ok"):
    return Rec(l=l, cov=frozenset(cov), b=b)


def CP(l, k, cov, b="ok"):
    return Rec(l=l, k=k, cov=frozenset(cov), b=b)


STH_BADS = ["forged", "byother", "signer", "stale", "future", "relabel", "full", "unsigned"]
POI_BADS = ["path", "sib", "short", "null", "other", "unknown", "nokey", "old", "logger", "monitor"]
CA_BADS = [a + b for a in ("sth_", "poi_") for b in ("empty", "garbage", "null", "array", "obj", "types", "rev", "con")]
B12 = (1, 2)
CAS = {
    # name: (N, loggers, sths, pois, bads, MaxMsg, MaxBad, MaxPer, thorough MaxMsg)
    "order": (2, ("L1", "L2"), {CS("L1", B12), CS("L2", B12)}, {CP("L1", 1, B12), CP("L1", 2, B12), CP("L2", 1, B12), CP("L2", 2, B12)}, [], 5, 0, 0, 7),
    "proof": (2, ("L1", "L2"), {CS("L1", B12), CS("L2", (1,))}, {CP("L1", 1, B12), CP("L1", 1, (1,)), CP("L2", 1, (1,)), CP("L2", 2, (1,)), CP("L2", 1, B12)} | {CP("L1", 1, B12, b) for b in POI_BADS}, [], 4, 0, 0, 5),
    "stmt": (1, ("L1", "L2"), {CS("L1", (1,))} | {CS("L1", (1,), b) for b in STH_BADS}, {CP("L1", 1, (1,)), CP("L2", 1, (1,))}, [], 4, 0, 0, 5),
    "rounds": (2, ("L1", "L2"), {CS("L1", B12), CS("L1", B12, "stale"), CS("L2", B12)}, {CP("L1", 1, B12), CP("L2", 2, B12), CP("L1", 1, B12, "old")}, [], 4, 0, 2, 6),
    "equiv": (2, ("L1",), {CS("L1", B12), CS("L1", (1,)), CS("L1", (2,))}, {CP("L1", 1, B12), CP("L1", 1, (1,)), CP("L1", 2, (2,)), CP("L1", 2, B12)}, [], 4, 0, 0, 6),
    "bad": (1, ("L1", "L2"), {CS("L1", (1,))}, {CP("L1", 1, (1,))}, CA_BADS, 2, 2, 0, 3),
    "none": (3, ("L1",), {CS("L1", ()), CS("L1", (3,))}, {CP("L1", 3, (3,)), CP("L1", 1, ())}, [], 2, 0, 2, 4),
}
CAS_INV = ["Fresh", "Backed", "Within"]


def cas_consts(n, ls, sths, pois, bads, mm, mb, mp):
    return dict(N=n, Loggers=set(ls), Sths=sths, Pois=pois, Bads=set(bads), MaxMsg=mm, MaxBad=mb, MaxPer=mp)


def _cas(name):
    def gen(tier, seed, sc):
        n, ls, sths, pois, bads, mm, mb, mp, tmm = CAS[name]
        paths, st = run_tlc(sc, "Authority", cas_consts(n, ls, sths, pois, bads, mm if tier == "quick" else tmm, mb, mp), view="View", action_constraint="Emit", invariants=CAS_INV, timeout=3000, heap="6g")
        return [dict(model="authority", init=dict(n=n, nl=len(ls)), steps=p) for p in drop_prefixes(paths)], [st]
    return gen


for _n in CAS:
    SUITES["ca_" + _n] = _cas(_n)


@suite("ca_walk")
def ca_walk(tier, seed, sc):
    k = 80 if tier == "quick" else 3000
    sths = {CS(l, c, b) for l in ("L1", "L2") for c in (B12, (1,)) for b in ["ok"] * 1} | {CS(l, B12, b) for l in ("L1", "L2") for b in STH_BADS}
    pois = {CP(l, k, c) for l in ("L1", "L2") for k in (1, 2) for c in (B12, (1,))} | {CP(l, k, B12, b) for l in ("L1", "L2") for k in (1, 2) for b in POI_BADS}
    paths, st = run_tlc(sc, "Authority", cas_consts(2, ("L1", "L2"), sths, pois, CA_BADS, 24, 4, 2), invariants=CAS_INV + ["EmitEnd"], mode="sim", num=k, depth=40, seed=seed, timeout=3000)
    return [dict(model="authority", init=dict(n=2, nl=2), steps=p) for p in drop_prefixes(paths)], [st]


# ------------------------------------------------------------------------------------- from the CA to the client

REVOC = {
    # name: (CAs, numbers, MaxPer, MaxRev, MaxTimes, MaxRestart, mass, thorough MaxPer, thorough MaxTimes)
    "one": (["C1"], [0, 1], 3, 1, 3, 0, 0, 4, 4),
    "two": (["C1", "C2"], [3], 2, 2, 3, 0, 0, 3, 3),
    "save": (["C1"], [1, 2, 3], 2, 1, 2, 2, 0, 3, 3),
    "mass": (["C1", "C2"], [2], 3, 2, 2, 0, 4, 3, 3),
}
REVOC_INV = ["InForce", "StatedOnce", "Reaches"]


def _revoc(name):
    def gen(tier, seed, sc):
        cas, nums, mp, mr, mt, ms, mass, tp, tt = REVOC[name]
        if tier != "quick":
            mp, mt = tp, tt
        paths, st = run_tlc(sc, "Revocation", dict(CAs=set(cas), Nums=set(nums), MaxPer=mp, MaxRev=mr, MaxTimes=mt, MaxRestart=ms), invariants=REVOC_INV,
                            properties=["UpToDate"], spec_formula="Spec", view="View", action_constraint="Emit", timeout=3000, heap="6g")
        return [dict(model="revocation", init=dict(cas=cas, nums=nums, mass=mass), steps=p) for p in drop_prefixes(paths)], [st]
    return gen


for _n in REVOC:
    SUITES["revoc_" + _n] = _revoc(_n)


@suite("revoc_walk")
def revoc_walk(tier, seed, sc):
    n, mp = (40, 6) if tier == "quick" else (1000, 10)
    paths, st = run_tlc(sc, "Revocation", dict(CAs={"C1", "C2"}, Nums={0, 1, 2, 3, 4}, MaxPer=mp, MaxRev=3, MaxTimes=mp + 2, MaxRestart=2), invariants=REVOC_INV + ["EmitEnd"],
                        mode="sim", num=n, depth=4 * mp + 6, seed=seed, timeout=3000)
    return [dict(model="revocation", init=dict(cas=["C1", "C2"], nums=[0, 1, 2, 3, 4], mass=2), steps=p) for p in drop_prefixes(paths)], [st]


# --------------------------------------------------------------------------------------------------- whole system

SYS_INV = ["HonestClean", "Exposed", "ShutOut"]


def sys_run(sc, nl, nc, nm, t, modes, interval, ways, mf, mp, mr, minutes, topo=None, sim=None, seed=1):
    ls, cs = [f"L{i+1}" for i in range(nl)], [f"C{i+1}" for i in range(nc)]
    fs = ["(" + " @@ ".join(f'("{e}" :> {m.get(e, 0)})' for e in ls + cs) + ")" for m in modes]
    consts = dict(Loggers=set(ls), CAs=set(cs), NM=nm, Modes=Raw("{" + ", ".join(fs) + "}"), Interval=interval,
                  Ways=set(ways) if ways else Raw("{}"), MaxFaults=mf, MaxPer=mp, MaxRevoke=mr)
    if sim:
        paths, st = run_tlc(sc, "System", consts, invariants=SYS_INV + ["EmitEnd"], mode="sim", num=sim, depth=mp + 1, seed=seed, timeout=3000)
    else:
        paths, st = run_tlc(sc, "System", consts, invariants=SYS_INV, properties=["StaysRevoked"], spec_formula="Spec", view="View", action_constraint="Emit", timeout=3000, heap="6g")
    out = []
    for i, p in enumerate(drop_prefixes(paths)):
        init = dict(ng=nm, t=t, nl=nl, nc=nc, wait=5, m=minutes[i % len(minutes)], interval=interval)
        if topo:
            init["edges"] = [[j - 1 for j in r] for r in TOPO[topo]]
        out.append(dict(model="system", init=init, steps=p))
    return out, st


@suite("sys_faults")
def sys_faults(tier, seed, sc):
    """Every way of misbehaving of one or two entities in every period."""
    tr, st = sys_run(sc, 2, 2, 3, 2, [{}], 2, ["silent", "split", "some", "lie"], 2, 2 if tier == "quick" else 3, 1 if tier != "quick" else 0, [10, 58, 59, 8, 0])
    return tr, [st]


@suite("sys_modes")
def sys_modes(tier, seed, sc):
    """The built-in fault modes of loggers and CAs."""
    md = [{"L1": m, "C1": k} for m in range(7) for k in range(7)]
    tr, st = sys_run(sc, 2, 2, 3, 2, md, 2, [], 0, 3, 0, [20, 57, 5])
    return tr, [st]


@suite("sys_minutes")
def sys_minutes(tier, seed, sc):
    """Every minute of the hour as the start."""
    traces, stats = [], []
    for minute in range(60):
        tr, st = ([], None) if traces and minute else sys_run(sc, 1, 1, 2, 2, [{}], 2, ["silent"], 1, 3, 1, [0])
        if st:
            stats.append(st)
            base = tr
        pick = base if tier != "quick" else [base[(minute * 7 + j * 13) % len(base)] for j in range(3)]
        for t in pick:
            traces.append(dict(model="system", init=dict(t["init"], m=minute), steps=t["steps"]))
    return traces, stats


@suite("sys_walk")
def sys_walk(tier, seed, sc):
    traces, stats = [], []
    n, mp = (12, 5) if tier == "quick" else (300, 8)
    for nm, t, topo in ((3, 2, "line3"), (4, 3, "ring4"), (4, 2, "star4"), (4, 4, "full4")):
        tr, st = sys_run(sc, 2, 2, nm, t, [{}], 2, ["silent", "split", "some", "lie"], 3, mp, 3, [seed * 7 % 60, 56, 31, 59], topo, sim=n, seed=seed + nm + t)
        traces += tr
        stats.append(st)
    return traces, stats


# ------------------------------------------------------------------------------------------- generated configurations

CFG_INV = ["Closed", "Paired", "Enough"]


def cfg_run(sc, params, lists, mg, subsets="all", init=None):
    ps = {Rec(ng=a, t=b, nl=c, nc=d) for a, b, c, d in params}
    paths, st = run_tlc(sc, "Config", dict(Params=ps, Lists=set(lists), MaxGen=mg, Subsets=subsets), invariants=CFG_INV, action_constraint="Emit", timeout=1500, heap="6g")
    return [dict(model="config", init=init or {}, steps=p) for p in drop_prefixes(paths)], st


@suite("cfg_sizes")
def cfg_sizes(tier, seed, sc):
    """Every small number of entities and threshold, mapped to every kind of IP list."""
    n = 4 if tier == "quick" else 5
    m = 3 if tier == "quick" else 4
    ps = [(g, t, l, c) for g in range(2, n + 1) for t in range(1, g + 1) for l in range(1, m + 1) for c in range(1, m + 1)]
    tr, st = cfg_run(sc, ps, ["tmpl", "own", "one", "apart"], 1)
    if tier == "quick":     # every size with every threshold, each with one of the lists
        tr = [t for i, t in enumerate(tr) if t["steps"][-1]["a"]["t"] != "map" or (i + sum(t["steps"][0]["a"]["p"].values())) % 4 == seed % 4]
    return tr, [st]


@suite("cfg_large")
def cfg_large(tier, seed, sc):
    """Indices with two (thorough: three) digits, keys made by the generator, and generating again in the same directory."""
    traces, stats = [], []
    big = [(11, 6, 2, 3), (3, 2, 12, 2), (3, 2, 3, 13)] + ([(101, 51, 2, 2), (3, 2, 101, 2), (3, 2, 2, 102)] if tier != "quick" else [])
    for p in big:
        tr, st = cfg_run(sc, [p], ["tmpl", "apart"], 1, "few", dict(abs=True, real=max(p) > 20))
        traces += tr
        stats.append(st)
    tr, st = cfg_run(sc, [(2, 2, 1, 1), (4, 3, 2, 1)], ["own"], 1, "all", dict(real=True))
    traces += tr
    stats.append(st)
    tr, st = cfg_run(sc, [(2, 2, 1, 1), (4, 3, 2, 3), (3, 1, 3, 1)], ["own"], 2, "all", dict(abs=True))
    traces += tr
    stats.append(st)
    return traces, stats
