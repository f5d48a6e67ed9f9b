"""Engines per property (see DESIGN.md).  cases = per shard, time = cap in seconds per shard (8 shards run in parallel)."""


def eng(name, kind, src, quick, thorough=None, **kw):
    return dict(name=name, kind=kind, src=src, quick=quick, thorough=thorough or quick, **kw)


def n(cases, time):
    return dict(cases=cases, time=time)


CHECKS = {}
for p in (1, 2, 3, 4, 22):
    pid = "P%02d" % p
    CHECKS[pid] = dict(level="exploration", engines=[
        eng("sched", "sched", "hist.cpp", n(4000, 25), n(200000, 400), defs=["PROP=%d" % p]),
        eng("native", "native", "hist.cpp", n(1500, 15), n(40000, 200), defs=["PROP=%d" % p]),
    ])

for p, nat, san in ((5, n(6000, 20), n(1500, 20)), (7, n(60000, 20), n(15000, 20)), (23, n(60000, 20), n(15000, 20))):
    d = ["PROP=%d" % p]
    CHECKS["P%02d" % p] = dict(level="exploration", engines=[
        eng("native", "native", "msg.cpp", nat, n(nat["cases"] * 30, 300), defs=d),
        eng("asan", "asan", "msg.cpp", san, n(san["cases"] * 20, 300), defs=d),
    ] + ([eng("fullname", "native", "msg.cpp", n(nat["cases"] // 6, 10), n(nat["cases"] * 5, 60), defs=d, gen=["G3_LOG_FULL_FILENAME"])] if p in (5, 7) else []) + ([eng("sched", "sched", "msg.cpp", n(1500, 20), n(60000, 200), defs=d)] if p == 5 else []))

DYN = ["G3_DYNAMIC_LOGGING"]
CHECKS["P06"] = dict(level="exploration", engines=[
    eng("static", "native", "printf.cpp", n(25000, 15), n(600000, 240)),
    eng("dynsize", "native", "printf.cpp", n(25000, 15), n(600000, 240), gen=["G3_DYNAMIC_MAX_MESSAGE_SIZE"]),
    eng("tsan", "tsan", "printf.cpp", n(300, 15), n(8000, 120), batch=50),
    eng("asan", "asan", "printf.cpp", n(4000, 15), n(60000, 120), gen=["G3_DYNAMIC_MAX_MESSAGE_SIZE"]),
])

CHECKS["P19"] = dict(level="exploration", engines=[
    eng("native", "native", "timefmt.cpp", n(60000, 15), n(3000000, 240)),
    eng("asan", "asan", "timefmt.cpp", n(10000, 15), n(300000, 120)),
    eng("tsan", "tsan", "timefmt.cpp", n(1500, 15), n(60000, 120), batch=50),
])

CHECKS["P09"] = dict(level="exploration", engines=[
    eng("dynamic", "native", "levels.cpp", n(20000, 20), n(600000, 300), gen=DYN),
    eng("static", "native", "levels.cpp", n(5000, 10), n(100000, 60)),
    eng("sched", "sched", "levels.cpp", n(2500, 15), n(80000, 200), gen=DYN),
    eng("asan", "asan", "levels.cpp", n(3000, 15), n(60000, 120), gen=DYN),
])

for p, nat, san in ((15, n(8000, 20), n(1000, 15)), (16, n(16000, 25), None), (17, n(5000, 20), n(700, 15)), (18, n(3000, 25), n(400, 15)), (25, n(5000, 20), n(700, 15))):
    d = ["PROP=%d" % p]
    es = [eng("native", "native", "file.cpp", nat, n(nat["cases"] * 25, 300), defs=d)]
    if san:
        es.append(eng("asan", "asan", "file.cpp", san, n(san["cases"] * 20, 200), defs=d))
    CHECKS["P%02d" % p] = dict(level="exploration", engines=es)

for p, nat, sch in ((10, n(500, 25), n(1500, 20)), (11, n(700, 25), None), (13, n(700, 20), n(1500, 15)), (14, n(1200, 20), n(2500, 20))):
    d = ["PROP=%d" % p]
    es = [eng("native", "native", "fatal.cpp", nat, n(nat["cases"] * 20, 300), defs=d)]
    if sch:
        es.insert(0, eng("sched", "sched", "fatal.cpp", sch, n(sch["cases"] * 20, 300), defs=d))
    if p != 10:
        es.append(eng("statics", "native", "statics.cpp", n(400, 10), n(8000, 60), defs=d))
        es.append(eng("statics-dyn-asan", "asan", "statics.cpp", n(60, 10), n(2000, 60), defs=d, gen=["G3_DYNAMIC_LOGGING"]))
    CHECKS["P%02d" % p] = dict(level="exploration", engines=es)

CHECKS["P12"] = dict(level="exploration", engines=[
    eng("native", "native", "sig.cpp", n(8000, 20), n(200000, 300)),
    eng("disabled", "native", "sig.cpp", n(800, 8), n(10000, 60), gen=["DISABLE_FATAL_SIGNALHANDLING"]),
])

CHECKS["P20"] = dict(level="exploration", engines=[
    eng("sched", "sched", "active.cpp", n(8000, 25), n(400000, 400)),
    eng("native", "native", "active.cpp", n(3000, 15), n(80000, 200)),
    eng("tsan", "tsan", "active.cpp", n(500, 15), n(10000, 150), batch=20),
])

CHECKS["P21"] = dict(level="exploration", engines=[
    eng("native", "native", "stackdump.cpp", n(60000, 15), n(3000000, 240)),
    eng("asan", "asan", "stackdump.cpp", n(15000, 15), n(500000, 200)),
])

import p08  # noqa: E402
CHECKS["P08"] = dict(level="exploration", engines=[
    dict(name="static", kind="python", src="", python=p08.engine, quick=dict(cases=180, time=20), thorough=dict(cases=6000, time=240)),
    dict(name="dynamic", kind="python", src="", python=p08.engine, gen=DYN, quick=dict(cases=180, time=20), thorough=dict(cases=6000, time=240)),
])

CHECKS["P24"] = dict(level="exploration", engines=[
    eng("races", "sched", "conc.cpp", n(600, 25), n(40000, 400), gen=DYN),
    eng("tsan", "tsan", "conc.cpp", n(400, 30), n(20000, 400), gen=DYN),
    eng("asan", "asan", "conc.cpp", n(400, 15), n(20000, 200), gen=DYN),
    eng("leak", "native", "conc.cpp", n(150, 15), n(4000, 200), gen=DYN, defs=["LEAK"]),
])
