"""Which suites (and which facets of their divergences) decide which property."""
MC = "model_checking"
BASE_ASSUME = ["RSA/BLS and SHA-256 are unforgeable; the specification is symbolic",
               "bounds of the TLC runs as listed in coverage.tlc_runs"]
NETS = ["net_sth", "net_rev", "net_pom"]
GOS = ["gossip_sth", "gossip_rev", "gossip_acc", "gossip_cross", "gossip_periods", "gossip_accper", "gossip_bad", "gossip_walk3", "gossip_walk4"]


def gos(rx, only=None):
    return [(s, rx) for s in GOS if not only or s[7:] in only]


def net(rx, only=None):
    return [(s, rx) for s in NETS if not only or s[4:] in only]


def mon(rx, only):
    return [("mon_" + s, rx) for s in only]


def cli(rx, only):
    return [("cli_" + s, rx) for s in only]


def log_(rx, only=("sub", "same", "many", "ask", "down", "bad", "walk")):
    return [("log_" + s, rx) for s in only]


def ca_(rx, only=("order", "proof", "stmt", "rounds", "equiv", "bad", "none", "walk")):
    return [("ca_" + s, rx) for s in only]


def conc(*only):
    return [("conc_" + s, ".*") for s in only]


def mconc(*only):
    return [("mconc_" + s, ".*") for s in only]


PROPS = {
    "C01": dict(level=MC, suites=[("verify_init", ".*")] + gos(r"^invalid/(garbage|array|emptyobj|sth|rev|frag|acc)", ["bad"]), assumptions=BASE_ASSUME),
    "C02": dict(level=MC, suites=[("verify_con", ".*")] + gos(r"^invalid/con", ["bad"]) , assumptions=BASE_ASSUME),
    "C03": dict(level=MC, suites=gos(r"^(conflict|con)/|/con/") + net(r"/con/", ["pom"]) + conc("sth", "rev"), assumptions=BASE_ASSUME),
    "C04": dict(level=MC, suites=gos(r"^blacklisted/") + conc("acc"), assumptions=BASE_ASSUME),
    "C05": dict(level=MC, suites=gos(r"^(frag|revfrag|acc)/|/(full|frag)/|^invalid/(frag|acc|full)") + net(r"/(full|frag)/", ["sth", "rev"]) + conc("sth3", "sth"), assumptions=BASE_ASSUME),
    "C06": dict(level=MC, suites=[("verify_full", ".*")] + gos(r"^invalid/full", ["bad"]), assumptions=BASE_ASSUME),
    "C09": dict(level=MC, suites=gos(r"^(fresh|repeat|sign|period)/") + conc("sth", "turn"), assumptions=BASE_ASSUME),
    "C07": dict(level=MC, suites=net(".*"), assumptions=BASE_ASSUME + ["revocation statements spread faster than the gossip waiting time"]),
    "C20": dict(level=MC, suites=gos(r"^(payload|revfrag)/|/(note|req)/|/rev$|^invalid/(empty_rev|note|req|rev)", ["rev", "cross", "periods", "bad", "walk3", "walk4"]) + net(".*", ["rev"]) + conc("rev"), assumptions=BASE_ASSUME),
    "C10": dict(level=MC, suites=mon(r"^(query|wait|feed)/", ["ans", "log", "ca", "both", "walk"]) + gos(r"^acc/", ["acc", "accper"]) + conc("acc") + mconc("wait", "query"), assumptions=BASE_ASSUME),
    "C11": dict(level=MC, suites=mon(r"^(publish|ask|feed)/", ["pub", "pubbad", "ask", "log", "walk"]) + mconc("pub", "wait"), assumptions=BASE_ASSUME),
    "C12": dict(level=MC, suites=cli(r"/verdict/", ["state", "chain", "mixed", "walk"]), assumptions=BASE_ASSUME),
    "C13": dict(level=MC, suites=cli(".*", ["bad", "mixed", "chain", "state", "walk"]), assumptions=BASE_ASSUME),
    "C15": dict(level=MC, suites=log_(".*"), assumptions=BASE_ASSUME),
    "C17": dict(level=MC, suites=ca_(".*"), assumptions=BASE_ASSUME),
    "C08": dict(level=MC, suites=gos(".*", ["bad"]) + mon(".*", ["pubbad"]) + log_(".*", ["bad"]) + ca_(".*", ["bad"]), assumptions=BASE_ASSUME),
    "C14": dict(level=MC, suites=[("revoc_" + s, ".*") for s in ("one", "two", "save", "mass", "walk")], assumptions=BASE_ASSUME + ["the endorsed statement reaches the monitor within its period (before second 40)"]),
    "C16": dict(level=MC, suites=[("sys_minutes", ".*")], assumptions=BASE_ASSUME),
    "C21": dict(level=MC, suites=[("sys_faults", ".*"), ("sys_modes", ".*"), ("sys_walk", ".*")], assumptions=BASE_ASSUME + ["messages arrive well within the gossip waiting time"]),
    "C18": dict(level=MC, suites=[("cfg_sizes", ".*"), ("cfg_large", ".*")], assumptions=BASE_ASSUME + ["MMD and MRD are equal; at least two gossipers and one logger, at most 999 of a kind"]),
    "C19": dict(level=MC, suites=cli(".*", ["save", "walk"]) + mon(r"^ask/", ["ask", "walk"]), assumptions=BASE_ASSUME + ["the client is not stopped while it is saving"]),
}
