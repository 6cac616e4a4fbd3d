"""P01 to P08: parameters."""
from core import CheckError


def p02(ctx):
    mc = "INIT Init\nNEXT %s\nCONSTANTS Keys = {\"a\",\"b\"}\n SubKeys = {%s}\n Vals = {%s}\n Deep = %s\nINVARIANT %s\n"
    ctx.tlc("ParamTreeMC", mc % ("Next2", '"a","b"', ctx.pick("1,2", "1,2,3"), "TRUE", "Inv"), workers=4, label="ParamTreeMC, pairs")
    ctx.tlc("ParamTreeMC", mc % ("Next3", '"a"', "1,2", ctx.pick("FALSE", "TRUE"), "Inv"), workers=4, label="ParamTreeMC, triples")
    r = ctx.tlc("ParamTreeMC", mc % (("Next2",) + ctx.pick(('"a"', "1,2", "TRUE"), ('"a","b"', "1,2", "FALSE")) + ("Visit",)), label="ParamTreeMC export")
    cases = [p for p in r.prints if "f" in p]
    if len(cases) < 1000:
        raise CheckError("too few cases exported")
    ctx.sample(dict(exported_case=cases[len(cases) // 2]))
    d = ctx.drive("d_params:unify_record", dict(cases=cases, random=ctx.pick(4000, 40000)), timeout=ctx.pick(300, 2500))
    ctx.sample(dict(recorded=d.records[-1]))
    ctx.judge("ParamTreeJudge", d.records, what="unification", chunk=4000)
    if not ctx.violations:
        ctx.binding_test("ParamTreeJudge", [r for r in d.records if not any(e["t"] == "null" for e in r["a"] + r["b"] + r.get("c", []))], corrupt_tree)
    ctx.assumptions += ["names are non-empty strings without '.'"]


def corrupt_tree(r, rnd):
    if r["res"] != "ok":
        r["res"], r["out"] = "ok", []
        return r
    z = rnd.random()
    if not r["out"]:
        r["out"] = [dict(p=["q"], t="str", v="q", n=0)]
    elif z < 0.3:
        r["out"] = r["out"][:-1]
    elif z < 0.6:
        e = rnd.choice(r["out"])
        e["t"], e["v"] = "str", e["v"] + "!"
    elif z < 0.8:
        r["out"].append(dict(p=["q", "q"], t="null", v="", n=0))
    elif "a2" in r and r["a2"]:
        r["a2"] = r["a2"][1:]
    else:
        return None
    return r


def p03(ctx):
    mc = "INIT BInit\nNEXT Give\nCONSTANTS Keys = {\"a\",\"b\"}\n SubKeys = {\"a\",\"b\"%s}\n Vals = {1,2}\n Deep = TRUE\nINVARIANT BuildInv\n"
    ctx.tlc("ParamTreeMC", mc % ctx.pick("", ',"c"'), workers=4, label="ParamTreeMC, building")
    d = ctx.drive("d_params:convert_record", dict(random=ctx.pick(9000, 90000)), timeout=ctx.pick(300, 2500))
    ctx.sample(dict(recorded=d.records[3]))
    ctx.sample(dict(recorded=d.records[-1]))
    ctx.judge("ParamTreeJudge", d.records, what="conversions", chunk=4000)
    if not ctx.violations:
        ctx.binding_test("ParamTreeJudge", d.records, corrupt_tree)
    ctx.assumptions += ["names are strings without '.', values those YAML knows (no not-a-number, bytes, times with zones, or strings with surrogates or references)"]


def p01(ctx):
    cfg = "INIT Init\nNEXT Ask\nINVARIANT %s\n"
    ctx.tlc("ParamAccessMC", cfg % "Laws", workers=4)
    r = ctx.tlc("ParamAccessMC", cfg % "Visit", label="ParamAccessMC export")
    cases = [p for p in r.prints if "req" in p]
    if len(cases) < 5000:
        raise CheckError("too few cases exported")
    ctx.sample(dict(exported_case=cases[len(cases) // 3]))
    d = ctx.drive("d_params:access_record", dict(cases=cases * ctx.pick(1, 4), random=ctx.pick(3000, 40000), far=ctx.pick(600, 8000)), timeout=ctx.pick(300, 2500))
    ctx.sample(dict(recorded=d.records[-1]))
    ctx.judge("ParamAccessJudge", d.records, what="parameter access", chunk=6000)
    if not ctx.violations:
        def corrupt(r, rnd):
            if rnd.random() < 0.2:
                r["after"] = r["after"] + [dict(p=["q"], t="str", v="q", n=0)]
            elif r["req"]["acc"] == "sub_namespaces":
                r["trees"] = r["trees"] + [[]] if [] not in r["trees"] else r["trees"][1:]
            elif r["res"] != "ok":
                if r["req"]["d"]["t"] != "none":
                    return None
                r["res"] = "ok"
                r["out"] = dict(k="val", node=dict(t="str", v="q", n=0), tree=[])
                if r["req"]["typ"] == "object":
                    return None
            elif r["req"]["d"]["t"] != "none":
                return None
            elif r["out"]["k"] == "val" and rnd.random() < 0.8:
                r["out"]["node"]["v"] += "!"
            elif r["req"]["typ"] == "object":
                return None
            else:
                r["out"] = dict(k="val", node=dict(t="str", v="q", n=0), tree=[])
            return r
        ctx.binding_test("ParamAccessJudge", d.records, corrupt)
    ctx.assumptions += ["names are strings without '.'"]


def corrupt_load(r, rnd):
    if r["res"] != "ok":
        r["res"], r["out"] = "ok", [dict(p=["q"], t="str", v="q", n=0)]
    elif r["out"]:
        leaves = [e for e in r["out"] if e["t"] != "ns"]
        z = rnd.random()
        if z < 0.3 or not leaves:
            r["out"] = r["out"][1:]
        elif z < 0.8:
            rnd.choice(leaves)["v"] += "%"
        else:
            r["res"] = "OSError"
    else:
        r["out"] = [dict(p=["q"], t="str", v="q", n=0)]
    return r


def p04(ctx):
    strings = ctx.pick('"x", "%a%", "%b%", "%c%-%n.a%", "%n%", "%e%", "%z%", "%b%%c%"', '"x", "%a%", "%b%", "%c%", "%c%-%n.a%", "%n%", "%e%", "%n.c%", "%z%", "%b%%c%"')
    mc = "%sCONSTANTS Strings = {%s}\n MaxLen = %d\n Letters = {\"%%\", \"a\", \".\", \" \"}\n Nested = %s\nINVARIANT %s\n"
    ctx.tlc("ParamLoadMC", mc % ("SPECIFICATION Spec\n", strings, 1, "FALSE", "Correct\nPROPERTY Terminates"), workers=4)
    ctx.tlc("ParamLoadMC", mc % ("SPECIFICATION Spec\n", ctx.pick('"x", "%b%", "%n%", "%n.a%-%b%"', '"x", "%a%", "%b%", "%n%", "%n.a%-%b%", "%c%", "%e%"'), 1, "TRUE",
                                 "Correct\nPROPERTY Terminates"), workers=4, label="ParamLoadMC, nested")
    ctx.tlc("ParamLoadMC", mc % ("INIT SInit\nNEXT NoStep\n", '"x"', ctx.pick(6, 8), "FALSE", "SLaws"), workers=4, label="ParamLoadMC, strings")
    r = ctx.tlc("ParamLoadMC", mc % ("INIT SInit\nNEXT NoStep\n", '"x"', ctx.pick(6, 7), "FALSE", "SVisit"), label="ParamLoadMC, strings export")
    words = [p for p in r.prints if "parts" in p]
    if len(words) < 3000:
        raise CheckError("too few strings exported")
    ctx.drive("d_paramload:tokens_replay", dict(cases=words), timeout=ctx.pick(300, 2500))
    ctx.traces += len(words)
    cases = []
    for st, nested in [(strings, "FALSE"), (ctx.pick('"x", "%b%", "%n%", "%n.a%-%b%"', '"x", "%a%", "%b%", "%n%", "%n.a%-%b%", "%c%", "%e%"'), "TRUE")]:
        r = ctx.tlc("ParamLoadMC", mc % ("INIT Init\nNEXT NoStep\n", st, 1, nested, "Visit"), label="ParamLoadMC export")
        cases += [p for p in r.prints if "own" in p]
    ctx.rnd.shuffle(cases)
    if len(cases) < 3000:
        raise CheckError("too few cases exported")
    ctx.sample(dict(exported_case=cases[0]))
    d = ctx.drive("d_paramload:interp_record", dict(cases=cases[:ctx.pick(4000, 40000)], random=ctx.pick(5000, 60000), chains=[3, 5, 8, 10, 12, 15] * ctx.pick(8, 30)),
                  timeout=ctx.pick(300, 2500))
    ctx.sample(dict(recorded=d.records[-20]))
    ctx.judge("ParamLoadJudge", d.records, what="references", chunk=2500)
    if not ctx.violations:
        ctx.binding_test("ParamLoadJudge", [r for r in d.records if not any(e["t"] == "null" or ("." in e["v"] and "%" in e["v"]) for e in r["ctx"] + r["top"]["own"]) and len(r["top"]["own"]) < 3], corrupt_load)
    ctx.assumptions += ["nothing is promised of references to nulls, or to something within a parameter that is itself a reference"]


def p05(ctx):
    mc = "%sCONSTANTS MaxIncs = %d\nINVARIANT %s\n"
    ctx.tlc("ParamIncludeMC", mc % ("SPECIFICATION Spec\n", 2, "Correct\nPROPERTY Terminates"), workers=6)
    r = ctx.tlc("ParamIncludeMC", mc % ("INIT Init\nNEXT NoStep\n", ctx.pick(1, 2), "Visit"), label="ParamIncludeMC export")
    cases = [p for p in r.prints if "files" in p]
    ctx.rnd.shuffle(cases)
    if len(cases) < 300:
        raise CheckError("too few cases exported")
    ctx.sample(dict(exported_case=cases[0]["files"][0]))
    # (loading files which include each other takes long, so only some of these)
    cases = [c for c in cases if not c["failed"]][:ctx.pick(300, 5000)] + [c for c in cases if c["failed"]][:ctx.pick(50, 800)]
    d = ctx.drive("d_paramload:include_record", dict(cases=cases, random=ctx.pick(2500, 20000)), timeout=ctx.pick(300, 2500))
    ctx.sample(dict(recorded=d.records[-3]))
    ctx.judge("ParamLoadJudge", d.records, what="inclusion", chunk=1000, parallel=6)
    if not ctx.violations:
        ctx.binding_test("ParamLoadJudge", d.records[:300], corrupt_load)
    ctx.assumptions += ["no symbolic links among the files"]


def p06(ctx):
    mc = "INIT Init\nNEXT Next\nCONSTANTS Names={\"a\",\"b\"}\n MaxDepth=2\n Targets={%s}\n Stamps={\"x\"}\n Histories=%s\n MaxLevel=%d\nINVARIANT %s\nCONSTRAINT Depth\n"
    ctx.tlc("FsParamsMC", mc % (ctx.pick("1,3", "1,2,3,5,6"), "FALSE", 1, "Laws"), label="FsParamsMC, all trees")
    ctx.tlc("FsParamsMC", mc % (ctx.pick("1", "1,2"), "TRUE", ctx.pick(5, 6), "Laws"), workers=6, label="FsParamsMC, histories")
    r = ctx.tlc("FsParamsMC", mc % (ctx.pick("1,3,5", "1,2,3,5"), "FALSE", 1, "Visit"), label="FsParamsMC export")
    cases = [p for p in r.prints if "asks" in p]
    if len(cases) < 800:
        raise CheckError("too few cases exported: %d" % len(cases))
    ctx.sample(dict(exported_case=dict(fs=cases[99]["fs"], ask=cases[99]["asks"][0])))
    ctx.drive("d_fsparams:fs_replay", dict(cases=cases, asks=ctx.pick(24, 96)), timeout=ctx.pick(300, 2500))
    ctx.traces += len(cases)
    d = ctx.drive("d_fsparams:fs_record", dict(random=ctx.pick(6000, 60000)), timeout=ctx.pick(300, 2500))
    ctx.sample(dict(recorded=d.records[-1]))
    ctx.judge("FsParamsJudge", d.records, what="file parameters", chunk=3000)
    if not ctx.violations:
        def corrupt(r, rnd):
            if r["req"]["acc"] == "creatable_file" or any(e["t"] == "link" for e in r["before"]):
                return None
            z = rnd.random()
            if z < 0.3:
                r["after"] = r["after"][1:] if r["after"] and r["after"][0]["t"] != "dir" else r["after"] + [dict(p=["qq"], t="dir", v="", abs=False, to=[])]
            elif r["out"]["k"] == "ret":
                r["out"] = rnd.choice([dict(k="perr", p=[]), dict(k="nothing", p=[]), dict(k="ret", p=r["out"]["p"] + ["x"])])
            else:
                r["out"] = dict(k="ret", p=["a"])
            return r
        ctx.binding_test("FsParamsJudge", d.records, corrupt)
    ctx.assumptions += ["nobody else changes the tree during a call", "permission to read and write everything in the tree"]


def p07(ctx):
    cfg = "INIT Init\nNEXT Next\nCONSTANTS Wide = %s\nINVARIANT %s\n"
    ctx.tlc("ObjParamsMC", cfg % ("TRUE", "Laws"), workers=4)
    r = ctx.tlc("ObjParamsMC", cfg % (ctx.pick("FALSE", "TRUE"), "Visit"), label="ObjParamsMC export")
    cases = [p for p in r.prints if "req" in p]
    ctx.rnd.shuffle(cases)
    if len(cases) < 4000:
        raise CheckError("too few cases exported: %d" % len(cases))
    ctx.sample(dict(exported_case=cases[0]))
    d = ctx.drive("d_objects:objects_record", dict(cases=cases[:ctx.pick(4000, 40000)], random=ctx.pick(6000, 60000)), timeout=ctx.pick(300, 2500))
    ctx.sample(dict(recorded={k: v for k, v in d.records[-1].items() if k != "w"}))
    ctx.judge("ObjParamsJudge", d.records, what="objects from parameters", chunk=2500)
    if not ctx.violations:
        def corrupt(r, rnd):
            if r["out"]["k"] not in ("obj", "made"):
                return None
            z = rnd.random()
            if z < 0.2:
                r["after"] = r["after"] + [dict(p=["qq"], t="str", v="q", n=0)]
            elif r["calls"] and z < 0.7:
                c = r["calls"][0]
                if c["arg"] == "none":
                    r["calls"] = []
                elif z < 0.4:
                    c["tree"] = c["tree"] + [dict(p=["qq"], t="str", v="q", n=0)]
                elif z < 0.6:
                    c["prefix"] = c["prefix"] + ["x"]
                else:
                    r["calls"] = r["calls"] * 2
            elif r["out"]["k"] == "obj":
                r["out"]["id"] += "!"
            else:
                r["out"]["by"] += "!"
            return r
        # (only where something is promised)
        sure = [r for r in d.records if len(r["req"]["ctx"]) and r["req"]["acc"] == "object" and not any(e["v"].startswith("vt7") for e in r["tree"])
                and not any(e["v"] in ("sf", "sv", "sb", "SV") for e in r["tree"])]
        ctx.binding_test("ObjParamsJudge", sure, corrupt)
    ctx.assumptions += ["special values and special factories have different names", "nothing is promised of modules a namespace does not import, or of a factory parameter "
                        "that holds a special name"]


def p08(ctx):
    cfg = "INIT Init\nNEXT Next\nCONSTANTS MaxLen = %d\nINVARIANT %s\n"
    ctx.tlc("EntryPointMC", cfg % (ctx.pick(6, 8), "Laws"), workers=6)
    r = ctx.tlc("EntryPointMC", cfg % (ctx.pick(6, 7), "Visit"), label="EntryPointMC export")
    cases = [p for p in r.prints if "line" in p]
    called = [c for c in cases if c["called"]]
    ctx.rnd.shuffle(cases)
    if len(called) < 50:
        raise CheckError("too few cases exported")
    ctx.sample(dict(exported_case=called[len(called) // 2]))
    d = ctx.drive("d_entry:entry_record", dict(cases=called[:ctx.pick(1500, 10000)] + cases[:ctx.pick(1500, 12000)], random=ctx.pick(3000, 40000)), timeout=ctx.pick(300, 2500))
    ctx.sample(dict(recorded=d.records[-1]))
    ctx.judge("EntryPointJudge", d.records, what="the entry point", chunk=2500)
    if not ctx.violations:
        def corrupt(r, rnd):
            if not r["calls"]:
                r["calls"] = [dict(tree=[], level=20)]
            else:
                z = rnd.random()
                c = r["calls"][0]
                if z < 0.2:
                    r["calls"] = r["calls"] * 2
                elif z < 0.4:
                    c["level"] += 10
                elif z < 0.6 or not c["tree"]:
                    c["tree"] = c["tree"] + [dict(p=["qq"], t="str", v="q", n=0)]
                elif z < 0.8:
                    c["tree"] = [e for e in c["tree"] if e["p"] != c["tree"][-1]["p"]]
                else:
                    r["ended"] = "exit"
            return r
        sure = [r for r in d.records if not any("%" in e["v"] and "." in e["v"] for f in r["files"] for e in f["own"])
                and not any(e["t"] == "null" for f in r["files"] for e in f["own"]) and not any(e["t"] == "null" for e in r["sup"])]
        ctx.binding_test("EntryPointJudge", sure, corrupt)
    ctx.assumptions += ["no abbreviations of options; values and names on the command line do not start with '-' unless they are negative numbers"]
