"""The checks, one function per property."""
import json, os, random
import runner
from runner import Check, CheckError, printed

CHECKS = {}
TECHNIQUES = {}      # property -> (technique, level note) where they differ from the machines'
NUM = "java/Num.java evaluates the arithmetic of spec/Num.tla with 40 digits; comparisons allow 1e-9 of the magnitude involved"
RUN = "the executions are those of the generated markets: every market up to the stated length over a small alphabet of bars, and random ones"


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def markets(c, group, length, bars, sim=0, cap=None, env=None):
    """Explore markets with the specification, replay each through the code, validate what it published."""
    conf = c.path("conf.json")
    e = dict(GROUP=group, LEN=length, BARS=bars, CONF_FILE=conf, SIM="1" if sim else "0")
    args = ["-simulate", "num=%d" % sim, "-depth", str(length + 2), "-seed", str(c.seed)] if sim else []
    out, gen, dist = c.tlc_model("Market", env=e, args=args, workers=1 if sim else 8)
    ms = sorted(set(tuple(m) for m in printed(out, "MARKET")))
    if not ms:
        raise CheckError("no markets were generated")
    mf = c.path("markets.json")
    with open(mf, "w") as f:
        for m in ms:
            f.write(json.dumps(m) + "\n")
    tf = c.path("replay.json")
    n = c.harness("replay", "-conf", conf, "-markets", mf, "-out", tf)
    if n is None:
        return
    bad = c.validate(tf, env=env)
    c.parts.append({"part": "markets of length %d over %d bars, %s" % (length, bars, "simulated" if sim else "all"),
                    "markets": len(ms), "executions": int(n), "rejected": bad})
    if not sim:
        c.exhaustive.append("all %d markets of length %d over %d bars, each with every configuration of the group" % (len(ms), length, bars))


def values(c, group, per, long=60, classes="normal", env=None, sided=False, seed=None):
    tf = c.path("values.json")
    a = ["values", "-group", group, "-seed", seed or c.seed, "-per", per, "-long", long, "-classes", classes, "-out", tf]
    if sided:
        a.append("-sided")
    n = c.harness(*a)
    if n is None:
        return
    bad = c.validate(tf, env=env)
    c.parts.append({"part": "random %s markets, seed %s" % (classes, seed or c.seed), "executions": int(n), "rejected": bad})


def sweep(c, group, per, env, classes="normal", sided=False):
    """Thorough: more seeds until the time is used."""
    s = c.seed * 1000
    while c.left() > 60 and not c.violations:
        s += 1
        values(c, group, per, long=100, classes=classes, env=env, sided=sided, seed=s)


def machine(pid, what, per=180, mode="values", short=(4, 5), deep=(5, 6), sim=None, touch=0):
    """A property decided by the machines of one group."""
    def run(c):
        env = dict(MODE=mode, FINITE="0")
        markets(c, pid, *(deep if c.thorough else short), env=env)
        if sim:
            markets(c, pid, sim[0], 6, sim=sim[1] * (10 if c.thorough else 1), env=env)
        values(c, pid, per, env=env)
        if touch:
            values(c, pid, touch, long=40, env=env, classes="touching")
        if c.thorough:
            sweep(c, pid, per * 2, env)
        return [NUM, RUN, what]
    CHECKS[pid] = run


machine("C05", "averages are computed over closes; list functions over any numbers", per=180)
machine("C06", "for equal extremes on both sides PivotMax/PivotMin may report either position", short=(4, 5), deep=(5, 6))
machine("C07", "standard deviations are compared through their squares")
machine("C08", "a range below 0.001 (StochRsi) or a divisor of pure rounding noise is left open", sim=(24, 12))
machine("C09", "")
machine("C10", "volumes are whole numbers or multiples of a binary fraction, up to the tolerance")
machine("C12", "comparisons with the stop are exact on dyadic prices; elsewhere a near tie may go either way", per=300, sim=(40, 30), touch=120)
machine("C13", "", mode="both", per=280, sim=(40, 30), touch=120)
machine("C14", "average true range is 0 for the first 200 bars (the length is fixed in the code)", per=300, short=(6, 3), deep=(8, 3), sim=(60, 12))
machine("C15", "", per=400, sim=(40, 30))
machine("C23", "the direction and change of a Heikin-Ashi candle are left open", per=300, short=(4, 6), deep=(6, 6))
machine("C25", "a single abscissa has slope 0", per=180)
machine("C26", "a projection range that is zero only up to rounding is left open", sim=(24, 8))
machine("C27", "Nzs changes its argument by design", per=120)


@check("C11")
def c11(c):
    env = dict(MODE="sides", FINITE="0")
    markets(c, "C11", 4 if c.thorough else 3, 6 if c.thorough else 5, env=env)
    markets(c, "C11", 40, 6, sim=150 if c.thorough else 20, env=env)
    values(c, "all", 60, env=env, sided=True)
    values(c, "all", 20, env=env, sided=True, classes="degenerate")
    values(c, "all", 120, long=40, env=env, sided=True, classes="touching")
    if c.thorough:
        c.t0 -= 200        # a share of the time
        sweep(c, "all", 120, env, sided=True, classes="touching")
        c.t0 += 200
        sweep(c, "all", 40, env, sided=True)
    return [RUN, "the rule is evaluated on the values the indicator itself published (their correctness is C05-C15, C26)"]


@check("C24")
def c24(c):
    env = dict(MODE="values", FINITE="1")
    markets(c, "C24", 4 if c.thorough else 3, 6, env=env)
    markets(c, "C24", 24, 6, sim=60 if c.thorough else 8, env=env)
    values(c, "all", 30, env=env, classes="degenerate")
    if c.thorough:
        sweep(c, "all", 20, env, classes="degenerate")
    return [NUM, RUN, "valid candles: positive prices, low <= open, close <= high, volume >= 0"]


# ---- C01-C04: the publisher and the session --------------------------------
SESSION = "the execution of each script is sequential; indicators are compared with freshly built ones over equal candles"


def generated(c, module, tag, env, name):
    """Run a design model and keep the behaviours it prints."""
    out, gen, dist = c.tlc_model(module, env=env)
    got = sorted(set(tuple(m) for m in printed(out, tag)))
    if not got:
        raise CheckError("%s generated nothing" % module)
    f = c.path(name)
    with open(f, "w") as o:
        for g in got:
            o.write(json.dumps(g) + "\n")
    return f, len(got)


@check("C01")
def c01(c):
    ln = 48 if c.thorough else 34
    f, k = generated(c, "Publisher", "SHAPE", dict(LEN=ln), "shapes.json")
    for s in range(6 if c.thorough else 1):
        tf = c.path("records.json")
        n = c.harness("shapes", "-shapes", f, "-seed", c.seed + 1000 * s, "-stride", 1 if c.thorough else 3, "-out", tf)
        if n is None or c.left() < 60:
            break
        bad = c.validate(tf, module="TracePublisher")
        c.parts.append({"part": "shapes of markets up to %d candles" % ln, "shapes": k, "executions": int(n), "rejected": bad})
    c.exhaustive.append("every indicator over one-stretch markets of every length 0..%d and every shape" % ln)
    return [RUN, "periods of at least 1; the times of the candles are distinct"]


@check("C02")
def c02(c):
    env = dict(GROUP="C24", LEN=4 if c.thorough else 3, BARS=6, SIM="0", CONF_FILE=c.path("conf.json"))
    f, k = generated(c, "Market", "MARKET", env, "markets.json")
    tf = c.path("prefixes.json")
    n = c.harness("prefixes", "-conf", c.path("conf.json"), "-markets", f, "-out", tf)
    if n is not None:
        bad = c.validate(tf, module="TracePublisher")
        c.parts.append({"part": "every prefix of every market of length %s over 6 bars" % env["LEN"], "markets": k, "executions": int(n), "rejected": bad})
    s = 0
    while True:
        n = c.harness("prefixes", "-seed", c.seed + 1000 * s, "-per", 20 if c.thorough else 14, "-long", 80 if c.thorough else 50, "-out", tf)
        if n is None:
            break
        bad = c.validate(tf, module="TracePublisher")
        c.parts.append({"part": "every prefix of random markets, seed %d" % (c.seed + 1000 * s), "executions": int(n), "rejected": bad})
        s += 1
        if not c.thorough or c.left() < 90 or c.violations:
            break
    return [RUN, "the strategy that compares with a second time scale is given the same second market for every prefix",
            "records are compared bit for bit first, and up to 1e-9 of the magnitude where they differ"]


@check("C03")
def c03(c):
    for ops, ln in ((5, 4), (3, 6)) if not c.thorough else ((6, 4), (4, 5), (3, 8)):
        env = dict(SLOTS=1, OPS=ops, LEN=ln + 1, REBUILD="0", ONCE="0", CLEARING="no", MOVES=0)
        f, k = generated(c, "Session", "SCRIPT", env, "scripts.json")
        s = 0
        while True:
            tf = c.path("calls.json")
            n = c.harness("calls", "-scripts", f, "-seed", c.seed + 1000 * s, "-per", 2, "-extra", 40 if c.thorough else 16, "-out", tf)
            if n is None:
                break
            bad = c.validate(tf, module="TraceSession")
            c.parts.append({"part": "scripts of %d calls of %d kinds" % (ln, ops), "scripts": k, "executions": int(n), "rejected": bad})
            s += 1
            if not c.thorough or s >= 8 or c.left() < 60 or c.violations:
                break
        c.exhaustive.append("every script of %d calls over the first %d calls an indicator offers, for every indicator" % (ln, ops))
    for how, ln in (("keeps", 6 if c.thorough else 5), ("drops", 7 if c.thorough else 6)):
        env = dict(SLOTS=1, OPS=3, LEN=ln, REBUILD="1" if how == "drops" else "0", ONCE="0", CLEARING=how, MOVES=0)
        f, k = generated(c, "Session", "SCRIPT", env, "scripts.json")
        tf = c.path("calls.json")
        n = c.harness("calls", "-scripts", f, "-seed", c.seed, "-per", 1, "-clearing", how, "-out", tf)
        if n is not None:
            bad = c.validate(tf, module="TraceSession")
            c.parts.append({"part": "scripts of %d calls with clearing, where it %s the candles" % (ln, how), "scripts": k, "executions": int(n), "rejected": bad})
    for ops, ln, moves in ((4, 5, 1), (3, 7, 2)) if c.thorough else ((3, 5, 1), (2, 6, 2)):
        env = dict(SLOTS=1, OPS=ops, LEN=ln, REBUILD="0", ONCE="0", CLEARING="no", MOVES=moves)
        f, k = generated(c, "Session", "SCRIPT", env, "scripts.json")
        tf = c.path("calls.json")
        n = c.harness("calls", "-scripts", f, "-seed", c.seed + moves, "-per", 4 if c.thorough else 2, "-moves", moves, "-out", tf)
        if n is not None:
            bad = c.validate(tf, module="TraceSession")
            c.parts.append({"part": "scripts of %d calls while the market moves on up to %d times" % (ln, moves), "scripts": k, "executions": int(n), "rejected": bad})
    return [RUN, SESSION, "when the market has moved on, an indicator is built again before it is asked again",
            "an indicator whose Clear drops the candles is built again before it is asked again"]


@check("C04")
def c04(c):
    plans = [(2, 5, 6), (3, 4, 6)] if c.thorough else [(2, 4, 6), (3, 3, 5)]
    for slots, ops, ln in plans:
        env = dict(SLOTS=slots, OPS=ops, LEN=ln, REBUILD="0", ONCE="1", CLEARING="no", MOVES=0)
        f, k = generated(c, "Session", "SCRIPT", env, "scripts.json")
        lf = c.path("lists.json")
        with open(lf, "w") as o:
            import itertools
            for m in range(0, slots + 1):
                for l in itertools.product(range(1, slots + 1), repeat=m):
                    o.write(json.dumps(l) + "\n")
            for m in (5, 9, 17, 40):   # longer lists name an indicator several times
                r = random.Random("%d %d" % (c.seed, m))
                o.write(json.dumps([r.randint(1, slots) for _ in range(m)]) + "\n")
        s = 0
        while True:
            tf = c.path("sessions.json")
            n = c.harness("sessions", "-scripts", f, "-lists", lf, "-slots", slots, "-seed", c.seed + 1000 * s,
                          "-count", 1200 if c.thorough else 900, "-each", 60 if c.thorough else 30, "-out", tf)
            if n is None:
                break
            bad = c.validate(tf, module="TraceSession")
            c.parts.append({"part": "scripts of %d calls on %d indicators" % (ln, slots), "scripts": k, "executions": int(n), "rejected": bad})
            s += 1
            if not c.thorough or s >= 6 or c.left() < 90 or c.violations:
                break
    f, k = generated(c, "Session", "SCRIPT", dict(SLOTS=2, OPS=3, LEN=6, REBUILD="0", ONCE="1", CLEARING="drops", MOVES=0), "scripts.json")
    tf = c.path("sessions.json")
    n = c.harness("sessions", "-scripts", f, "-slots", 2, "-seed", c.seed, "-clearing",
                  "-count", 300 if c.thorough else 120, "-each", 120 if c.thorough else 60, "-out", tf)
    if n is not None:
        bad = c.validate(tf, module="TraceSession")
        c.parts.append({"part": "scripts of 6 calls on 2 indicators with clearing", "scripts": k, "executions": int(n), "rejected": bad})
    f, k = generated(c, "Session", "SCRIPT", dict(SLOTS=2, OPS=2, LEN=6, REBUILD="0", ONCE="0", CLEARING="no", MOVES=1), "scripts.json")
    tf = c.path("sessions.json")
    n = c.harness("sessions", "-scripts", f, "-slots", 2, "-seed", c.seed, "-moves", 1,
                  "-count", 900 if c.thorough else 300, "-each", 60 if c.thorough else 24, "-out", tf)
    if n is not None:
        bad = c.validate(tf, module="TraceSession")
        c.parts.append({"part": "scripts of 6 calls on 2 indicators while the market moves on", "scripts": k, "executions": int(n), "rejected": bad})
    return [RUN, SESSION, "when the market has moved on, an indicator is built again before it is asked again", "combinations of indicators are sampled; an indicator built from columns shares them with the others"]


SESS = ("TLA+ model of publishers and of sessions of calls; TLC explores every script of calls (and every shape of market), "
        "the harness runs each with the real indicators and TLC validates the recorded sessions against the model")
for _p in ("C01", "C02", "C03", "C04"):
    TECHNIQUES[_p] = (SESS, "Exhaustive over the scripts and shapes of the stated bound; the indicators' parameters and the markets' prices are "
                      "sampled with the seed. Trusts TLC, java/Num.java and the harness's logging.")


# ---- C16, C17: containers --------------------------------------------------
def scripts(c, module, env, name, sim=0, cfg=None):
    args = ["-simulate", "num=%d" % sim, "-depth", str(env["LEN"] + 2), "-seed", str(c.seed)] if sim else []
    out, gen, dist = c.tlc_model(module, cfg=cfg, env=dict(env, SIM="1" if sim else "0"), args=args, workers=1 if sim else 8)
    got = sorted(set(tuple(m) for m in printed(out, "SCRIPT")))
    if not got:
        raise CheckError("%s generated nothing" % module)
    f = c.path(name)
    with open(f, "w") as o:
        for g in got:
            o.write(json.dumps(g) + "\n")
    return f, len(got), dist


def container(c, mode, module, f, k, what, *args):
    tf = c.path(mode + ".json")
    n = c.harness(mode, "-scripts", f, "-out", tf, *args)
    if n is not None:
        bad = c.validate(tf, module=module)
        c.parts.append({"part": what, "scripts": k, "executions": int(n), "rejected": bad})


@check("C16")
def c16(c):
    for v, nodes in ([(5, 5), (3, 6), (2, 7)] if c.thorough else [(4, 5), (2, 6)]):
        f, k, d = scripts(c, "Tree", dict(VALUES=v, NODES=nodes, LEN=99), "scripts.json")
        container(c, "tree", "TraceTree", f, k, "every tree of up to %d nodes over %d values, every operation on it" % (nodes, v), "-types", 5 if c.thorough else 2)
        c.exhaustive.append("every operation on each of the %d reachable trees of up to %d nodes over %d values" % (d, nodes, v))
    f, k, d = scripts(c, "Tree", dict(VALUES=9, NODES=24, LEN=80), "scripts.json", sim=1000 if c.thorough else 150, cfg="TreeSim.cfg")
    container(c, "tree", "TraceTree", f, k, "random scripts of 80 operations over 9 values", "-types", 5)
    f, k, d = scripts(c, "Tree", dict(VALUES=40, NODES=150, LEN=500), "scripts.json", sim=20 if c.thorough else 4, cfg="TreeSim.cfg")
    container(c, "tree", "TraceTree", f, k, "random scripts of 500 operations over 40 values", "-types", 5)
    return ["values are finite float64, int64 or implement Comparable consistently; one type per tree",
            "the tree is observed through its methods: minimum, maximum and removals, down to the empty tree"]


@check("C17")
def c17(c):
    f, k, d = scripts(c, "Queue", dict(VALUES=2, LEN=8 if c.thorough else 6), "scripts.json")
    container(c, "queue", "TraceQueue", f, k, "every script of %d operations" % (8 if c.thorough else 6))
    c.exhaustive.append("every script of %d operations over values nil, 1, 2" % (8 if c.thorough else 6))
    f, k, d = scripts(c, "Queue", dict(VALUES=4, LEN=60), "scripts.json", sim=2000 if c.thorough else 200)
    container(c, "queue", "TraceQueue", f, k, "random scripts of 60 operations")
    f, k, d = scripts(c, "Queue", dict(VALUES=4, LEN=1500), "scripts.json", sim=40 if c.thorough else 6)
    container(c, "queue", "TraceQueue", f, k, "random scripts of 1500 operations")
    return ["one goroutine uses a queue at a time"]


for _p, _w in (("C16", "linked search tree refining a multiset"), ("C17", "first-in first-out queue")):
    TECHNIQUES[_p] = ("TLA+ model of the %s; TLC explores its state graph, every script is replayed through the code and the "
                      "recorded calls are validated against the model" % _w,
                      "Exhaustive over the scripts of the stated bound, random beyond. Trusts TLC and the harness's logging.")


# ---- C18, C19: channels ----------------------------------------------------
def networks(c, family, maxin, sched, what, repeat=1, sim=0, live=False):
    if c.violations:
        return
    conf = c.path("nets.json")
    env = dict(FAMILY=family, MAXIN=maxin, SIM="1" if sim else "0", SCHED="1" if sched else "0", CONF_FILE=conf)
    args = ["-simulate", "num=%d" % sim, "-depth", "200000", "-seed", str(c.seed)] if sim else []
    out, gen, dist = c.tlc_model("Channels", cfg="ChannelsLive.cfg" if live else "Channels.cfg", env=env, args=args, workers=1 if sim else 8)
    got = sorted(set(tuple(m) for m in printed(out, "SCHEDULE")))
    if not got:
        raise CheckError("no schedules")
    a = ["channels", "-nets", conf, "-seed", c.seed, "-repeat", repeat, "-out", c.path("channels.json")]
    if sched:
        f = c.path("schedules.json")
        with open(f, "w") as o:
            for g in got:
                o.write(json.dumps(g) + "\n")
        a += ["-schedules", f]
    n = c.harness(*a)
    if n is None:
        return
    bad = c.validate(c.path("channels.json"), module="TraceChannels", env=dict(WHAT=what))
    nets = sum(1 for _ in open(conf))
    c.parts.append({"part": "%s networks, inputs up to %d values, %s" % (family, maxin, "simulated schedules" if sim else "all interleavings in the model"),
                    "networks": nets, "model_states": dist, "schedules_replayed": len(got) if sched else 0, "executions": int(n), "rejected": bad})
    if not sim:
        c.exhaustive.append("all interleavings of the %d %s networks with inputs up to %d values, in the model" % (nets, family, maxin))


def channel_check(c, what):
    t = c.thorough
    networks(c, "single", 4 if t else 3, True, what, repeat=8 if t else 2)
    networks(c, "pairs", 3 if t else 2, True, what, repeat=8 if t else 2)
    networks(c, "fan", 2 if t else 1, True, what, repeat=4 if t else 2)
    networks(c, "chains", 3 if t else 2, False, what, repeat=30 if t else 6, live=True)
    networks(c, "fan", 3, False, what, repeat=20 if t else 6, live=True)
    networks(c, "all", 9, True, what, repeat=6 if t else 1, sim=600 if t else 120)
    networks(c, "long", 260, True, what, repeat=6 if t else 2, sim=60 if t else 8)
    networks(c, "long", 2600 if t else 1100, True, what, repeat=2 if t else 1, sim=8 if t else 3)
    if what == "values":
        env = dict(MODE="generate", LEN=4)
        out, gen, dist = c.tlc_model("Equals", env=env)
        f = c.path("equals.json")
        ms = sorted(set(tuple(m) for m in printed(out, "SCRIPT")))
        with open(f, "w") as o:
            for m in ms:
                o.write(json.dumps(m) + "\n")
        n = c.harness("equals", "-scripts", f, "-count", 20000 if t else 2000, "-out", c.path("answers.json"))
        if n is not None:
            bad = c.validate(c.path("answers.json"), module="Equals", env=dict(MODE="validate", LEN=0))
            c.parts.append({"part": "CheckEquals on up to two pairs of short streams and on random pairs of long ones, of five types", "executions": int(n), "rejected": bad})
    return ["the order in which the real goroutines move follows the schedule at the ends of the network only; between them the Go scheduler decides",
            "the model assumes sequentially consistent channels as the Go specification describes them",
            "a network is stuck when it has not finished after 30 s",
            "the comparison helper is a reader, not an operator: after a difference it leaves the rest of its inputs unread"]


@check("C18")
def c18(c):
    return channel_check(c, "values")


@check("C19")
def c19(c):
    return channel_check(c, "ends")


for _p in ("C18", "C19"):
    TECHNIQUES[_p] = ("TLA+ model of networks of channel operators; TLC explores every interleaving (delivery, no deadlock, termination), the harness "
                      "replays the schedules with the real operators and TLC validates the recorded events",
                      "The model is exhaustive for the networks and input lengths stated; of the real code the schedules of the model's ends are replayed "
                      "while the Go scheduler interleaves the operators. Trusts TLC and the harness's logging.")


# ---- C29: calls that overlap ------------------------------------------------
@check("C29")
def c29(c):
    runner.compile_harness(runner.RACING, "-race")
    t = c.thorough
    plans = [(2, 2, 3, 0, 700 if t else 150, 30), (3, 2, 2, 0, 400 if t else 75, 30), (4, 5, 5, 4000 if t else 400, 600 if t else 150, 8)]
    for slots, ops, calls, sim, count, each in plans:
        env = dict(SLOTS=slots, OPS=ops, CALLS=calls, LEN=1000)
        f, k, d = scripts(c, "Together", env, "scripts.json", sim=sim)
        tf = c.path("together.json")
        n = c.harness("together", "-scripts", f, "-slots", slots, "-seed", c.seed, "-count", count, "-each", each, "-out", tf, binary=runner.RACING)
        if n is None:
            break
        bad = c.validate(tf, module="TraceTogether")
        c.parts.append({"part": "%d calls of each of %d indicators that overlap" % (calls, slots), "scripts": k, "executions": int(n), "rejected": bad})
        if not sim:
            c.exhaustive.append("in the model, every way in which %d calls of each of %d indicators overlap" % (calls, slots))
    return [RUN, "each indicator is used by one goroutine at a time; the candles are not changed meanwhile",
            "combinations of indicators are sampled; between the beginnings and ends of calls the Go scheduler decides, and the race detector "
            "reports conflicting accesses that no synchronisation orders"]


TECHNIQUES["C29"] = ("TLA+ model of overlapping calls; TLC explores every overlap (no conflict, answers as alone), the harness replays the overlaps with real "
                     "indicators under the race detector and TLC validates the recorded answers",
                     "The model is exhaustive for the bounds stated; in the real code the beginnings and ends of calls follow it and the Go scheduler decides "
                     "between them. Trusts TLC, the harness's logging and Go's race detector.")


# ---- C20-C22: candle lists and ranges --------------------------------------
def replayed(c, mode, module, trace, env, what, sim=0, depth=0, args=(), exhaustive=None):
    """Scripts of a design model, replayed by the harness, validated."""
    if c.violations:
        return
    a = ["-simulate", "num=%d" % sim, "-depth", str(depth), "-seed", str(c.seed)] if sim else []
    out, gen, dist = c.tlc_model(module, env=dict(env, SIM="1" if sim else "0"), args=a, workers=1 if sim else 8)
    got = sorted(set(tuple(m) for m in printed(out, "SCRIPT")))
    if not got:
        raise CheckError("%s generated nothing" % module)
    f = c.path("scripts.json")
    with open(f, "w") as o:
        for g in got:
            o.write(json.dumps(g) + "\n")
    tf = c.path("replay.json")
    n = c.harness(mode, "-scripts", f, "-seed", c.seed, "-out", tf, *args)
    if n is not None:
        bad = c.validate(tf, module=trace)
        c.parts.append({"part": what, "scripts": len(got), "executions": int(n), "rejected": bad})
        if exhaustive:
            c.exhaustive.append(exhaustive)


@check("C20")
def c20(c):
    t = c.thorough
    w = "every source of up to %d candles over %d bars" % ((7, 4) if t else (6, 3))
    replayed(c, "upscale", "Upscale", "TraceUpscale", dict(MODE="bars", LEN=7 if t else 6, BARS=4 if t else 3, TIMES=0), w, exhaustive=w)
    w = "every spacing of up to 4 candles over the times 0..%d, every pair of intervals" % (6 if t else 4)
    replayed(c, "upscale", "Upscale", "TraceUpscale", dict(MODE="times", LEN=4, BARS=5, TIMES=6 if t else 4), w, exhaustive=w)
    for n in (60, 23, 700) + ((200, 97, 150) if t else ()):
        replayed(c, "upscale", "Upscale", "TraceUpscale", dict(MODE="bars", LEN=n, BARS=5, TIMES=0), "random sources of %d candles" % n,
                 sim=(600 if t else 150) // (1 if n < 300 else 20), depth=n + 2, args=["-real"])
    return [NUM, "intervals are whole seconds, prices are positive", "the scripts fix the spacing of the candles; the unit of time and the first time are sampled with the seed"]


@check("C21")
def c21(c):
    t = c.thorough
    for times, ln, ops in ((3, 5, 1), (2, 3, 2)) + (((3, 3, 2), (1, 2, 3), (4, 6, 1)) if t else ()):
        w = "every list of up to %d candles over %d times, every %d operations" % (ln, times, ops)
        replayed(c, "candles", "Candles", "TraceCandles", dict(TIMES=times, LEN=ln, OPS=ops), w, exhaustive=w)
    for n in (20, 40, 150) + ((100, 13, 30) if t else ()):
        replayed(c, "candles", "Candles", "TraceCandles", dict(TIMES=8 if n < 150 else 250, LEN=n, OPS=10), "random lists of %d candles, 10 operations" % n,
                 sim=(1000 if t else 200) // (1 if n < 150 else 20), depth=n + 12)
    return ["the edges of a range are whole seconds, like the times of candles", "sorting may leave candles of one time in any order"]


@check("C22")
def c22(c):
    t = c.thorough
    top, maxi, lim = (20, 6, 7) if t else (12, 4, 5)
    w = "every start and end in 0..%d, interval up to %d and limit up to %d" % (top, maxi, lim)
    replayed(c, "ranges", "Ranges", "TraceRanges", dict(TOP=top, MAXI=maxi, MAXLIMIT=lim, PAGES="0"), w, exhaustive=w)
    replayed(c, "ranges", "Ranges", "TraceRanges", dict(TOP=3100 if t else 1100, MAXI=3 if t else 2, MAXLIMIT=1000 if t else 500, PAGES="1"),
             "ranges of one to three requests of up to %d intervals, one more and one less" % (1000 if t else 500))
    replayed(c, "ranges", "Ranges", "TraceRanges", dict(TOP=200, MAXI=24, MAXLIMIT=40, PAGES="0"), "random ranges", sim=3000 if t else 400, depth=220)
    return ["intervals are whole seconds", "the unit of time and the date are sampled with the seed", "a start after now is allowed when a range is split"]


LISTS = ("TLA+ machine of the operation; TLC explores every script of the stated bound and checks the machine against its definition, "
         "the harness replays each script with the real code and TLC validates what it returned")
@check("C28")
def c28(c):
    t = c.thorough
    n, g = (6, 400) if t else (4, 100)
    w = "every text of up to %d characters over 8, every number k/8 up to %d to -2..2 decimals, every set of fields of a candle" % (n, g // 8)
    replayed(c, "helpers", "Helpers", "TraceHelpers", dict(LEN=n, GRID=g), w, args=["-count", 20000 if t else 3000], exhaustive=w)
    return ["numbers are finite", "a number beyond the range of a double may be refused or infinite"]


for _p in ("C20", "C21", "C22", "C28"):
    TECHNIQUES[_p] = (LISTS, "Exhaustive over the scripts of the stated bound, random beyond. Trusts TLC, java/Num.java and the harness's logging.")
