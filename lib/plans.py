"""What each check runs."""
import os, json, tempfile, shutil
import legs, runlegs, sesslegs, corelegs, utillegs

ASSUMPTIONS = [
    "R64.java evaluates IEEE-754 arithmetic as R64.tla defines it (exercised by R64Test.tla)",
    "quick runs execute the Python source without numba compilation; thorough runs repeat a part with compilation",
]

COLUMN = {  # property: (gen options quick, gen options thorough, mc bounds quick, mc bounds thorough)
 "C01": (dict(n=60, depth=8), dict(n=600, depth=12), {}, dict(snow=3)),
 "C02": (dict(n=50, depth=10), dict(n=600, depth=14), {}, dict(snow=3)),
 "C03": (dict(n=50, depth=12), dict(n=600, depth=16), dict(snow=1), dict(snow=1, depth=2)),
 "C04": (dict(n=50, depth=10), dict(n=600, depth=14), {}, dict(snow=3)),
 "C05": (dict(n=50, depth=10), dict(n=600, depth=14), {}, dict(snow=3)),
 "C06": (dict(n=15, depth=8), dict(n=200, depth=10), {}, dict(snow=3)),
 "C07": (dict(n=50, depth=10), dict(n=600, depth=14), {}, dict(snow=3)),
 "C08": (dict(n=50, depth=10), dict(n=600, depth=14), {}, dict(snow=3)),
 "C09": (dict(n=50, depth=12), dict(n=600, depth=16), dict(snow=1, ice=1), dict(snow=2, ice=1)),
 "C10": (dict(n=50, depth=12), dict(n=600, depth=16), dict(snow=1), dict(snow=2)),
 "C11": (dict(n=15, depth=8), dict(n=200, depth=12), dict(snow=1, ice=1), dict(snow=2, ice=1)),
 "C12": (dict(n=15, depth=8), dict(n=200, depth=12), dict(snow=1, ice=1), dict(snow=2, ice=1)),
 "C16": (dict(n=12, depth=2), dict(n=150, depth=3), {}, {}),
}
ALLRUN = ["run", "run-alt", "run-adaptive", "run-3h", "run-phys", "run-newton"]
INRUN = {   # in-run leg of the column properties (constants)
 "C01": ["run", "run-adaptive"], "C07": ["run", "run-alt", "run-adaptive", "run-3h"], "C09": ["run", "run-alt", "run-phys"],
 "C11": ["run", "run-alt", "run-newton"], "C12": ["run", "run-alt", "run-phys"],
}
RUN = {     # property: (words variants quick, weather options quick, weather options thorough)
 "C13": (["run"], dict(n=2, length=12), dict(n=40, length=24)),
 "C14": (["run"], dict(n=4, length=10), dict(n=60, length=20)),
 "C15": (["run"], dict(n=2, length=12), dict(n=40, length=24)),
 "C32": (["run"], dict(n=2, length=14), dict(n=40, length=30)),
}

def F(family, ny, nx, nt, runs, cap, **k):
    return lambda p, seed, tmp: sesslegs.leg_family(p, seed, tmp, family, ny, nx, nt, runs, cap, tag=k.get("tag") or family, **{a: b for a, b in k.items() if a != "tag"})


def RND(n, **k):
    return lambda p, seed, tmp: sesslegs.leg_random(p, seed, tmp, n, **k)


def WX(n, length):
    return lambda p, seed, tmp: runlegs.leg_weather(p, "quick", seed, tmp, ALLRUN, n=n, length=length)


ALT = ("run", "run-alt", "run-adaptive", "run-newton", "run-3h")
MANY = ALT + ("run-phys",)
SESS = {    # property: (quick legs, thorough legs)
 "C18": ([F("masks", 2, 2, 2, 1, 65), F("tiles", 2, 3, 2, 1, 48), RND(8)],
         [F("masks", 2, 2, 2, 1, 65), F("masks", 2, 3, 2, 1, 1500, tag="masks23"), F("tiles", 2, 3, 2, 1, 976), RND(150, constants=ALT), RND(60, maxy=4, maxx=5, tag="large")]),
 "C19": ([F("splits", 1, 2, 4, 3, 40, constants="run-3h"), F("splits", 1, 2, 4, 3, 40, constants="run-alt", tag="splits-alt"), F("tilesplits", 2, 2, 3, 2, 16), RND(8, constants=("run", "run-phys"))],
         [F("splits", 1, 2, 4, 3, 300, tag="splits0"), F("splits", 1, 1, 6, 4, 1500, tag="splits6")]
         + [F("splits", 1, 2, 4, 3, 300, constants=c, tag="splits-" + c) for c in MANY] + [F("tilesplits", 2, 2, 3, 2, 600), RND(150, constants=ALT, nt=10, runs=5)]),
 "C20": ([F("periods", 1, 1, 3, 1, 200), F("tiles", 2, 3, 2, 1, 40), RND(12)],
         [F("periods", 1, 1, 3, 1, 600), F("periods", 1, 1, 4, 1, 1500, tag="periods4"), F("tiles", 2, 3, 2, 1, 976), RND(250, constants=ALT, nt=9)]),
 "C21": ([RND(14, constants=("run", "run-phys")), F("masks", 1, 2, 2, 1, 20), WX(3, 6)],
         [RND(250, constants=MANY), F("masks", 2, 2, 2, 1, 65), WX(30, 16)]),
 "C22": ([F("bad", 2, 2, 2, 1, 100), RND(6, focus="bad"), sesslegs.leg_options, sesslegs.leg_layers],
         [F("bad", 2, 2, 2, 1, 1300), RND(150, focus="bad", constants=ALT), sesslegs.leg_options, lambda p, s, t: sesslegs.leg_layers(p, s, t, n=40, nt=12)]),
 "C24": ([F("masks", 2, 2, 2, 1, 30, wrf=True), F("splits", 1, 2, 4, 3, 24, wrf=True), F("tilesplits", 2, 2, 3, 2, 20, wrf=True), RND(8, focus="wrf")],
         [F("masks", 2, 2, 2, 1, 65, wrf=True), F("tiles", 2, 3, 2, 1, 600, wrf=True), F("splits", 1, 2, 4, 3, 300, wrf=True), F("tilesplits", 2, 2, 3, 2, 300, wrf=True),
          RND(150, focus="wrf", constants=ALT)]),
}

def HIS(**k):
    return lambda p, seed, tmp: corelegs.leg_history(p, seed, tmp, **k)


def CPL(**k):
    return lambda p, seed, tmp: corelegs.leg_coupled(p, seed, tmp, **k)


SESS.update({
 "C17": ([HIS(cap=36, constants=("run", "run-alt")), HIS(cap=12, cells=3, config={"stake_evaluation": True}, tag="stakes"), RND(4)],
         [HIS(cap=640, constants=("run",)), HIS(cap=2000, cells=3, depth=4, lengths=(1, 3), constants=MANY, tag="deep"),
          HIS(cap=300, cells=3, depth=4, config={"stake_evaluation": True}, tag="stakes"), RND(100, constants=ALT),
          HIS(cap=4, constants=("run",), tag="compiled", jit=True)]),
 "C23": ([CPL(n=4, length=6)], [CPL(n=60, length=14), CPL(n=1, length=8, constants=("run",), procs=2, tag="compiled", jit=True)]),
})


def STK(**k):
    return lambda p, seed, tmp: corelegs.leg_stakes(p, seed, tmp, **k)


def LCH(**k):
    return lambda p, seed, tmp: corelegs.leg_launch(p, seed, tmp, **k)


def GRD(**k):
    return lambda p, seed, tmp: corelegs.leg_grid(p, seed, tmp, **k)


def UT(name, **k):
    return lambda p, seed, tmp: getattr(utillegs, "leg_" + name)(p, seed, tmp, **k)


SESS.update({
 "C38": ([lambda p, s, t: corelegs.leg_compiled(p, s, t)], [lambda p, s, t: corelegs.leg_compiled(p, s, t, chains=8, length=4, n=2, steps=12)]),
 "C37": ([GRD(n=40)], [GRD(n=800, depth=20), GRD(n=200, depth=20, constants=("fine", "adaptive", "otherphys"), tag="more", exhaustive=False),
                       GRD(n=60, depth=16, constants=("base",), tag="compiled", jit=True, exhaustive=False)]),
 "C36": ([LCH(n=9)], [LCH(n=120, runs=8)]),
 "C25": ([STK(n=10)], [STK(n=150, stakes=5, nt=4)]),
 "C26": ([UT("station", n=24)], [UT("station", n=900)]),
 "C27": ([UT("wrf", n=8)], [UT("wrf", n=250)]),
 "C28": ([UT("setup", cap=1500)], [UT("setup", cap=10**6)]),
 "C29": ([UT("config", n=30)], [UT("config", n=600, loads=6)]),
 "C30": ([UT("legacy", n=20)], [UT("legacy", n=500)]),
 "C33": ([UT("static", n=12)], [UT("static", n=400)]),
 "C35": ([UT("moelg", n=8)], [UT("moelg", n=120)]),
 "C34": ([UT("plot", n=16)], [UT("plot", n=500)]),
 "C31": ([UT("sun", n=20), UT("station", n=30, only="Wohlfahrt2016")], [UT("sun", n=1500), UT("station", n=900, only="Wohlfahrt2016")]),
})

CLAIMED = list(COLUMN) + list(RUN) + list(SESS)
NOTE = ("Bounded: exhaustive over the palettes of the model, seeded random behaviours beyond them, each executed in the real Python "
        "source and checked by TLC against the specification. Trusts TLC, R64.java's IEEE arithmetic and the driver's serialisation.")
TECHNIQUE, LEVEL_NOTE = {}, {}


def run(prop, tier, seed, tmp):
    th = tier == "thorough"
    res = legs.Result()
    if prop in COLUMN:
        q, t, mq, mt = COLUMN[prop]
        res.merge(legs.leg_mc(prop, tier, seed, tmp, bounds=mt if th else mq, cap=20000 if th else 4000))
        res.merge(legs.leg_gen(prop, tier, seed, tmp, jit=150 if th else 0, **(t if th else q)))
        names = INRUN.get(prop, ["run", "run-alt", "run-phys"])
        res.merge(runlegs.leg_weather(prop, tier, seed, tmp, ALLRUN if th else names, n=24 if th else 2, length=20 if th else 12))
        if prop != "C16":   # every word of the palette, replayed in whole runs
            res.merge(runlegs.leg_words(prop, tier, seed, tmp, ALLRUN[:2] if th else ["run"], length=3 if th else 2, cap=1000 if th else 40))
        if th:
            res.merge(legs.leg_gen(prop, tier, seed, tmp, focus="cycle", tag="cycle", n=60, depth=24))
    if prop in RUN:
        words, q, t = RUN[prop]
        res.merge(runlegs.leg_words(prop, tier, seed, tmp, ALLRUN[:2] if th else words, length=3 if th else 2, cap=2000 if th else 60))
        res.merge(runlegs.leg_weather(prop, tier, seed, tmp, ALLRUN, **(t if th else q)))
        if th:
            res.merge(runlegs.leg_weather(prop, tier, seed + 1, tmp, ["run"], n=1, length=12, jit=True, tag="compiled"))
    for leg in SESS.get(prop, ((), ()))[1 if th else 0]:
        res.merge(leg(prop, seed, tmp))
    return res


def replay(path):
    """re-execute a replay file and say whether it still fails"""
    b = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="verif_")
    try:
        if b.get("kind") == "run":
            res = runlegs.validate_runs(b["property"], [], [(b["constants"], b["job"])], tmp, "replay", legs.Result(), module=b["module"])
            print(json.dumps([{k: x.get(k) for k in ("key", "cell", "step", "error")} for x in res.bad], indent=1))
            return 1 if res.bad else 0
        if b.get("kind") == "session":
            res = sesslegs.validate_sessions(b["property"], [(b["constants"], b["job"])], tmp, "replay", legs.Result())
            print(json.dumps([{k: x.get(k) for k in ("key", "run", "status", "message")} for x in res.bad], indent=1))
            return 1 if res.bad else 0
        if b.get("kind") in ("history", "coupled", "stakes", "launch", "layers"):
            res = legs.Result()
            corelegs.validate_cases(b["property"], [b["variant"]], tmp, "replay", res, {"history": "HistoryTrace", "coupled": "CoupledTrace", "stakes": "StakesTrace", "launch": "LaunchTrace", "layers": "GridTrace"}[b["kind"]],
                                    b["kind"], lambda j, i: j, lambda c: 1)
            print(json.dumps([{k: x.get(k) for k in ("key", "call", "message")} for x in res.bad], indent=1))
            return 1 if res.bad else 0
        if b.get("kind") == "compiled":
            _, _, bad = corelegs.chain_bad(b["property"], b["links"], tmp, "replay", legs.Result())
            print(json.dumps([{"case": ci, "step": t + 1, "clauses": cl} for ci, t, _, cl in bad][:20], indent=1))
            return 1 if bad else 0
        if b.get("kind") == "util":
            res = legs.Result()
            utillegs.validate(b["property"], [b["job"]], tmp, "replay", res, b["module"])
            print(json.dumps([{k: x.get(k) for k in ("key", "call", "message")} for x in res.bad], indent=1))
            return 1 if res.bad else 0
        if "job" in b:
            import variants
            variants.V["_replay"] = b["constants"]
            res = legs.replay_and_validate(b["property"], ["_replay"], [(0, b["job"])], tmp, "replay", legs.Result())
            print(json.dumps([{k: x[k] for k in ("key", "op", "event", "recorded")} for x in res.bad], indent=1))
            return 1 if res.bad else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 2
