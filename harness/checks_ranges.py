"""R01-R05: ranges, range sets, range maps."""
import json
import random

KINDS_ALL = ["int", "int0", "neg", "big", "sparse", "float", "mixed", "inf", "str", "ustr", "bytes", "date",
             "delta", "frac", "dec", "tuple", "weird", "collide", "bare", "numbers"]


def _kinds(ctx, k):
    rnd = random.Random(ctx.seed)
    ks = KINDS_ALL[:]
    rnd.shuffle(ks)
    must = ["int0", "bare", "str", "numbers"]
    ks = must + [x for x in ks if x not in must]
    return ks[:k]


def r01(ctx):
    n = ctx.pick(3, 4)
    laws = ("LawMembership LawEmpty LawEncloses LawEnclosesOrder LawConnected LawConnectedPoints LawIntersection "
            "LawUnionWhenConnected LawSpan LawAssociative LawConvex LawForms")
    exp = ctx.path("calls.ndjson")
    ctx.tlc("RangesMC", "INIT Init\nNEXT Next\nINVARIANTS %s\nPOSTCONDITION Export\n" % laws,
            consts={"N": n}, env={"EXPORT": exp}, workers=4)
    with open(exp) as f:
        calls = [json.loads(l) for l in f]
    ctx.sample(dict(exported_call=calls[0]))
    d = ctx.drive("d_ranges:algebra_replay", dict(n=n, calls=calls, kinds=_kinds(ctx, ctx.pick(9, 20))))
    ctx.traces += len(calls)
    nb = 30
    d = ctx.drive("d_ranges:algebra_record", dict(n=nb, count=ctx.pick(15000, 200000)))
    for r in d.records[:2]:
        ctx.sample(dict(recorded_call=r))
    ctx.judge("RangesJudge", d.records, consts={"N": nb}, what="range algebra")
    if not ctx.violations:
        ctx.binding_test("RangesJudge", d.records, _corrupt_res, consts={"N": nb})
    ctx.assumptions.append("endpoint orders are total and consistent with equality; exhaustive up to %d distinct endpoints, "
                           "sampled up to %d" % (n, nb))


def _corrupt_res(r, rnd):
    x = r["res"]
    if not x:
        r["res"] = [1, 4]
    elif x in ([0], [1]) and r["op"] not in ("lower_endpoint", "upper_endpoint", "len"):
        r["res"] = [1 - x[0]]
    elif x in ([-1], [-2]):
        r["res"] = [1, 4]
    else:
        j = rnd.randrange(len(x))
        x[j] += 1
    return r


def r02(ctx):
    n = ctx.pick(3, 4)
    ctx.tlc("RangeSetMC", "SPECIFICATION Spec\nCONSTRAINT Bounded\nINVARIANTS InvMembers InvQueries\n"
            "PROPERTIES PropSnapshotsImmutable PropAddMonotone\n", consts={"N": 2, "MaxSnaps": 2})
    ctx.tlc("RangeSetMC", "SPECIFICATION Spec\nCONSTRAINT Bounded\nINVARIANTS InvMembers InvQueries\n"
            "PROPERTIES PropSnapshotsImmutable PropAddMonotone\n", consts={"N": n, "MaxSnaps": 0})
    # sets feeding each other: sources and targets of add_all stay independent
    ctx.tlc("RangeSetMC", "SPECIFICATION Spec2\nCONSTRAINT Bounded\nINVARIANTS InvMembers\n"
            "PROPERTIES PropSnapshotsImmutable PropOthersIndependent\n", consts={"N": 1, "MaxSnaps": 1})
    ctx.tlc("RangeSetImpl", "SPECIFICATION Spec\nINVARIANTS InvCanonical\nPROPERTIES Refines\n", consts={"N": n})
    states, universe = _export(ctx, n, "adds")
    ctx.sample(dict(state=states[len(states) // 2]["members"], adds=len(universe)))
    ctx.drive("d_ranges:sets_replay", dict(n=n, states=states, universe=universe, kinds=_kinds(ctx, ctx.pick(4, 8))))
    ctx.traces += len(states) * len(universe)
    nb = 24
    d = ctx.drive("d_ranges:sets_record", dict(n=nb, histories=ctx.pick(400, 4000)))
    ctx.sample(dict(recorded_history=d.records[:4]))
    ctx.judge_traces("RangeSetTrace", d.records, consts={"N": nb}, what="range set history")
    # long histories of large sets
    d2 = ctx.drive("d_ranges:sets_record", dict(n=160, histories=ctx.pick(6, 40)))
    ctx.judge_traces("RangeSetTrace", d2.records, consts={"N": 160}, what="history of a large range set")
    if not ctx.violations:
        ctx.binding_traces("RangeSetTrace", d.records, _corrupt_obs, consts={"N": nb})


def _corrupt_obs(r, rnd):
    if r["op"] == "new":
        return None
    if r.get("seen") and rnd.random() < 0.7:
        if r["obs"]:
            j = rnd.randrange(len(r["obs"]))
            r["obs"][j] += 1
        else:
            r["obs"] = [1, 2]
        return r
    if r.get("snaps"):
        r["snaps"][0] = r["snaps"][0] + [97, 98]
        return r
    return None


def _export(ctx, n, what):
    r = ctx.tlc("RangeSetExport", "INIT EInit\nNEXT ENext\nINVARIANT Visit\n", consts={"N": n}, env={"WHAT": what},
                label="RangeSetExport(%s)" % what)
    universe = [p["universe"] for p in r.prints if "universe" in p][0]
    states = [p for p in r.prints if "members" in p]
    assert len(states) == 2 ** (2 * n + 1), len(states)
    return states, universe


def r03(ctx):
    n = ctx.pick(3, 4)
    ctx.tlc("RangeSetMC", "SPECIFICATION Spec\nCONSTRAINT Bounded\nINVARIANTS InvMembers InvQueries\n",
            consts={"N": n, "MaxSnaps": 0})
    states, universe = _export(ctx, n, "queries")
    ctx.sample(dict(state=states[77]["members"], value_queries=states[77]["vq"]))
    ctx.drive("d_ranges:queries_replay", dict(n=n, states=states, universe=universe, kinds=_kinds(ctx, 20),
                                              reps=ctx.pick(6, 6)))
    ctx.traces += sum(sum(len(v) for v in s["vq"].values()) + sum(len(v) for v in s["rq"].values()) + 4 for s in states)
    nb = 24
    d = ctx.drive("d_ranges:queries_record", dict(n=nb, sets=ctx.pick(600, 4000), per=36))
    ctx.sample(dict(recorded_query=d.records[5]))
    ctx.judge("RangeSetJudge", d.records, consts={"N": nb}, what="range set query", cfg="INIT JInit\nNEXT JNext\n")
    # sets of a hundred members and more
    d2 = ctx.drive("d_ranges:queries_record", dict(n=260, sets=ctx.pick(16, 80), per=30))
    ctx.judge("RangeSetJudge", d2.records, consts={"N": 260}, what="query of a large range set", cfg="INIT JInit\nNEXT JNext\n")
    if not ctx.violations:
        ctx.binding_test("RangeSetJudge", d.records, _corrupt_res, consts={"N": nb}, cfg="INIT JInit\nNEXT JNext\n")


def r04(ctx):
    n = ctx.pick(3, 3)
    r = ctx.tlc("RangeMapMC", "INIT MInit\nNEXT MNext\nINVARIANTS LawBuildable LawFunction Visit\n", consts={"N": n})
    universe = [p["universe"] for p in r.prints if "universe" in p][0]
    maps = [p for p in r.prints if "ps" in p]
    ctx.sample(dict(map=maps[-1]["ps"], answers=maps[-1]["vq"]))
    ctx.drive("d_ranges:maps_replay", dict(n=n, maps=maps, universe=universe, kinds=_kinds(ctx, 20),
                                           reps=ctx.pick(3, 18)))
    ctx.traces += len(maps)
    nb = 24
    d = ctx.drive("d_ranges:maps_record", dict(n=nb, maps=ctx.pick(900, 8000), per=12))
    ctx.sample(dict(recorded=d.records[3]))
    ctx.judge("RangeMapJudge", d.records, consts={"N": nb}, what="range map", cfg="INIT JInit\nNEXT JNext\n")
    d2 = ctx.drive("d_ranges:maps_record", dict(n=260, maps=ctx.pick(40, 300), per=12))
    ctx.judge("RangeMapJudge", d2.records, consts={"N": 260}, what="large range map", cfg="INIT JInit\nNEXT JNext\n")
    if not ctx.violations:
        ctx.binding_test("RangeMapJudge", d.records, _corrupt_res, consts={"N": nb}, cfg="INIT JInit\nNEXT JNext\n")


def r05(ctx):
    n = ctx.pick(2, 3)
    # equality of range sets as sets of points, of maps as associations: the laws the copies are judged by
    ctx.tlc("RangeSetMC", "SPECIFICATION Spec\nCONSTRAINT Bounded\nINVARIANTS InvMembers InvQueries\n",
            consts={"N": n, "MaxSnaps": 0})
    ctx.tlc("RangeMapMC", "INIT MInit\nNEXT MNext\nINVARIANTS LawBuildable LawFunction\n", consts={"N": n})
    nb = 14
    d = ctx.drive("d_ranges:persist_record", dict(n=nb, count=ctx.pick(2500, 25000)))
    for r in d.records[:3]:
        ctx.sample(r)
    ctx.judge("RangeMapJudge", d.records, consts={"N": nb}, what="copy/equality", cfg="INIT JInit\nNEXT JNext\n")
    d2 = ctx.drive("d_ranges:persist_record", dict(n=120, count=ctx.pick(60, 600)))
    ctx.judge("RangeMapJudge", d2.records, consts={"N": 120}, what="copy/equality of large ones", cfg="INIT JInit\nNEXT JNext\n")
    if not ctx.violations:
        ctx.binding_test("RangeMapJudge", d.records, _corrupt_res, consts={"N": nb}, cfg="INIT JInit\nNEXT JNext\n")
    ctx.assumptions.append("endpoints and values are themselves picklable, hashable and immutable")
