"""C01, U01, G01: checkpoints, iterator utilities, topological sorting."""
from core import CheckError


def c01(ctx):
    ctx.tlc("Checkpoints", "SPECIFICATION Spec\nCONSTANTS Dirs = {1,2}\n Names = {%s}\nINVARIANTS TypeOK Unmade\n"
            "PROPERTIES Independent OnlyReset OneAtATime\n" % ctx.pick("1,2,3", "1,2,3,4"), workers=2)
    hs = []
    for nd, nn, depth in ctx.pick([(1, 2, 5), (2, 1, 4)], [(1, 2, 6), (2, 2, 5)]):
        r = ctx.tlc("CheckpointsMC", "INIT HInit\nNEXT HNext\nCONSTANTS Dirs = {%s}\n Names = {%s}\n Depth = %d\nINVARIANT Visit\n" % (
            ",".join(map(str, range(1, nd + 1))), ",".join(map(str, range(1, nn + 1))), depth), workers=2)
        hs = [p for p in r.prints if "h" in p]
        if len(hs) < 50:
            raise CheckError("too few histories exported")
        ctx.drive("d_small:points_replay", dict(histories=hs, names=nn, dirs=nd), timeout=ctx.pick(300, 2500))
        ctx.traces += len(hs)
        ctx.sample(dict(exported_history=[[s["op"], s["d"], s["n"], s["saved"]] for s in hs[-1]["h"]]))
    nd, nn = 3, 8
    d = ctx.drive("d_small:points_record", dict(histories=ctx.pick(250, 3000), names=nn, dirs=nd), timeout=ctx.pick(300, 2500))
    ctx.sample(dict(recorded=d.records[1:6]))
    cfg = "INIT TInit\nNEXT TNext\nCONSTANTS Dirs = {1,2,3}\n Names = {1,2,3,4,5,6,7,8}\n"
    ctx.judge_traces("CheckpointsTrace", d.records, what="checkpoints", cfg=cfg)
    if not ctx.violations:
        def corrupt(r, rnd):
            if r["op"] == "ask" and rnd.random() < 0.5:
                r["ans"] = 1 - r["ans"]
                return r
            if r["op"] in ("set", "ask", "reset") and r["res"] == "ok":
                i = r["d"] - 1
                r["all"][i] = r["all"][i][1:] if r["all"][i] else [r["n"]]
                return r
            return None
        ctx.binding_traces("CheckpointsTrace", d.records, corrupt, cfg=cfg)
    ctx.assumptions += ["names are legal file names, and nothing else changes the directories"]


def u01(ctx):
    ctx.tlc("IterUtilsMC", "SPECIFICATION Spec\nCONSTANTS Elems = {0,1,2}\n MaxLen = %d\n MaxW = %d\n Export = FALSE\n"
            "INVARIANTS Correct Lazy JustEnough Laws\nPROPERTY Terminates\n" % ctx.pick((4, 4), (6, 6)), workers=2)
    r = ctx.tlc("IterUtilsMC", "INIT Init\nNEXT ExportNext\nCONSTANTS Elems = {0,1,2}\n MaxLen = %d\n MaxW = %d\n Export = TRUE\n"
                "INVARIANT Visit\n" % ctx.pick((4, 5), (6, 7)), label="IterUtilsMC export")
    cases = [p for p in r.prints if "windows" in p]
    ctx.sample(dict(exported_case=cases[len(cases) // 2]))
    ctx.drive("d_small:iter_replay", dict(cases=cases, kinds=ctx.pick(3, 6)), timeout=ctx.pick(300, 2500))
    ctx.traces += len(cases)
    d = ctx.drive("d_small:iter_record", dict(rounds=ctx.pick(6000, 60000)), timeout=ctx.pick(300, 2500))
    ctx.sample(dict(recorded=d.records[3]))
    ctx.judge("IterUtilsJudge", d.records, what="iterator utilities")
    if not ctx.violations:
        def corrupt(r, rnd):
            if r["op"] == "only":
                r["res"] = "ok" if r["res"] != "ok" else "ValueError"
            elif r["pulls"] and r["res"] == "ok" and rnd.random() < 0.5:
                r["pulls"][0] += len(r["s"]) + r["w"] + 1
            elif r["out"]:
                r["out"] = r["out"][1:]
            else:
                r["res"] = "TypeError"
            return r
        ctx.binding_test("IterUtilsJudge", d.records, corrupt)


def g01(ctx):
    ctx.tlc("TopoMC", "INIT Init\nNEXT Next\nCONSTANTS MaxN = 3\n SelfLoops = TRUE\nINVARIANTS Inv CycleDef Certificates\n", workers=2)
    ctx.tlc("TopoMC", "INIT Init\nNEXT Next\nCONSTANTS MaxN = 4\n SelfLoops = %s\nINVARIANTS Inv CycleDef\n"
            % ctx.pick("FALSE", "TRUE"), workers=ctx.pick(4, 6), label="TopoMC, 4 nodes")
    graphs = []
    for mx, loops in ctx.pick([(3, "TRUE")], [(3, "TRUE"), (4, "FALSE")]):
        r = ctx.tlc("TopoMC", "INIT Init\nNEXT ExportNext\nCONSTANTS MaxN = %d\n SelfLoops = %s\nINVARIANT Visit\n" % (mx, loops),
                    label="TopoMC export")
        graphs += [p for p in r.prints if "edges" in p]
    if len(graphs) < 500:
        raise CheckError("too few graphs exported")
    ctx.sample(dict(exported_graph=graphs[-3]))
    d = ctx.drive("d_small:topo_record", dict(graphs=graphs, random=ctx.pick(1500, 20000), large=ctx.pick(6, 40)), timeout=ctx.pick(300, 2500))
    # the exported verdict, directly
    for c, r in zip(graphs, d.records):
        if r["made"] == "ok" and any((u["res"] == "ok") != c["acyclic"] for u in r["runs"]):
            ctx.violation("graph %s: acyclic is %s but sorting gives %s" % (c["edges"], c["acyclic"], r["runs"]), dict(graph=c, record=r))
    ctx.judge("TopoJudge", d.records, what="topological sorting", chunk=4000)
    if not ctx.violations:
        def corrupt(r, rnd):
            if r["made"] != "ok":
                r["made"] = "ok"
                return r if not r["runs"] else None
            u = rnd.choice(r["runs"])
            z = rnd.random()
            if z < 0.3:
                u["res"] = "ok" if u["res"] != "ok" else "ParameterInterpolationError"
            elif u["res"] == "ok" and r["edges"]:
                u["order"] = u["order"][::-1]
            else:
                u["order"] = u["order"] + [77]
            return r
        ctx.binding_test("TopoJudge", d.records, corrupt)
    ctx.assumptions += ["nodes are strings"]
