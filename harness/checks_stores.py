"""K01-K04: key-value stores."""


def k01(ctx):
    ctx.tlc("ZipStore", "SPECIFICATION Spec\nCONSTANTS Keys = {1,2,3}\n Vals = {1,2}\nINVARIANTS TypeOK ListedPresent\n"
            "PROPERTIES RefusedIsNoop FileStable SessionMonotone\n", workers=2)
    depth = ctx.pick(6, 7)
    r = ctx.tlc("ZipStoreMC", "INIT HInit\nNEXT HNext\nCONSTANTS Keys = {1,2}\n Vals = {1,2,3,4,5,6,7,8,9}\n"
                " Depth = %d\nINVARIANT Visit\n" % depth)
    hs = [p for p in r.prints if "h" in p]
    if len(hs) < 100:
        from core import CheckError
        raise CheckError("too few histories exported")
    ctx.sample(dict(exported_history=[[s["op"], s["a"], s["v"], s["o"]["res"]] for s in hs[len(hs) // 3]["h"]]))
    ctx.drive("d_stores:zip_replay", dict(histories=hs, nkeys=2), timeout=ctx.pick(400, 2500))
    ctx.traces += len(hs)
    # with so many keys that the archive needs its larger form
    def crowds(x):
        s = x["h"]
        return all(q["o"]["res"] == "ok" and q["op"] in ("open_ow", "open_app", "put", "close") for q in s) and s[-1]["op"] == "close" \
            and len([q for q in s if q["op"] == "put"]) == 2 and len(s[-1]["o"]["keys"]) == 2
    many = [x for x in hs if crowds(x)]
    if not many:
        from core import CheckError
        raise CheckError("no history with two keys put")
    ctx.rnd.shuffle(many)
    many = [x for x in many if len([q for q in x["h"] if q["op"] == "close"]) == 1][:1] + [x for x in many if len([q for q in x["h"] if q["op"] == "close"]) == 2][:ctx.pick(1, 6)]
    ctx.drive("d_stores:zip_crowded", dict(histories=many, each=33000), timeout=ctx.pick(300, 1500))
    ctx.traces += len(many)
    nk = 9
    d = ctx.drive("d_stores:zip_record", dict(histories=ctx.pick(700, 6000), nkeys=nk), timeout=ctx.pick(400, 2500))
    ctx.sample(dict(recorded=[(x["op"], x.get("a"), x.get("res")) for x in d.records[:12]]))
    cfg = "INIT TInit\nNEXT TNext\nCONSTANTS Keys = {%s}\n Vals = {1}\n" % ",".join(map(str, range(1, nk + 1)))
    ctx.judge_traces("ZipStoreTrace", d.records, what="zip store history", cfg=cfg)
    if not ctx.violations:
        ctx.binding_traces("ZipStoreTrace", d.records, _corrupt_zip, cfg=cfg)
    ctx.assumptions += ["keys are non-empty, contain no newline or NUL and do not collide with the key-list entry",
                        "filename functions are injective", "the process is not killed inside a session"]


def _corrupt_zip(r, rnd):
    if r["op"] == "new":
        return None
    if r["seen"] and r["exists"] and r["get"]:
        z = rnd.randint(0, 2)
        if z == 0:
            j = rnd.randrange(len(r["get"]))
            r["get"][j] = 1 if r["get"][j] != 1 else 2
            return r
        if z == 1 and r["haslist"]:
            r["keys"] = r["keys"][:-1] if r["keys"] else [1]
            return r
        if z == 2 and r["haslist"]:
            r["items"] = r["items"][:-2] if r["items"] else [1, 1]
            return r
    if r["op"] in ("put", "fail"):
        r["res"] = "ok" if r["res"] == "err" else "err"
        return r
    return None


def k02(ctx):
    ctx.tlc("DirStore", "SPECIFICATION Spec\nCONSTANTS Keys = {1,2,3}\n Vals = {1,2}\nINVARIANTS TypeOK SessionKeepsFiles\n"
            "PROPERTIES Isolation FailedOpenIsNoop ListedAfterClose\n", workers=2)
    r = ctx.tlc("DirStoreMC", "INIT HInit\nNEXT HNext\nCONSTANTS Keys = {1,2}\n Vals = {1,2,3,4,5,6,7,8,9}\n"
                " Depth = %d\nINVARIANT Visit\n" % ctx.pick(6, 7))
    hs = [p for p in r.prints if "h" in p]
    if len(hs) < 100:
        from core import CheckError
        raise CheckError("too few histories exported")
    ctx.sample(dict(exported_history=[[s["op"], s["a"], s["v"], s["o"]["res"]] for s in hs[len(hs) // 3]["h"]]))
    ctx.drive("d_dirs:dir_replay", dict(histories=hs, nkeys=2), timeout=ctx.pick(400, 2500))
    ctx.traces += len(hs)
    nk = 7
    d = ctx.drive("d_dirs:dir_record", dict(histories=ctx.pick(500, 4000), nkeys=nk), timeout=ctx.pick(400, 2500))
    ctx.sample(dict(recorded=[(x["op"], x.get("a"), x.get("res")) for x in d.records[:12]]))
    cfg = "INIT TInit\nNEXT TNext\nCONSTANTS Keys = {%s}\n Vals = {1}\n" % ",".join(map(str, range(1, nk + 1)))
    ctx.judge_traces("DirStoreTrace", d.records, what="directory store history", cfg=cfg)
    if not ctx.violations:
        ctx.binding_traces("DirStoreTrace", d.records, _corrupt_dir, cfg=cfg)
    ctx.assumptions += ["keys are relative paths without '..', tabs, line breaks or surrounding whitespace, none a prefix "
                        "directory of another", "character values contain no carriage return",
                        "the directory's own path has no tabs, line breaks or trailing whitespace"]


def _corrupt_dir(r, rnd):
    if r["op"] == "new":
        return None
    if r["seen"] and r["has"] and r["keys"]:
        z = rnd.randint(0, 2)
        if z == 0:
            j = rnd.choice(r["keys"]) - 1
            if r["get"][j] > 0 and "fail" != r["op"]:
                r["get"][j] = 0
                return r
        if z == 1:
            r["keys"] = r["keys"][:-1]
            return r
        if z == 2:
            r["disk"] = r["disk"] + [99]
            return r
    if r["op"] in ("put", "fail", "open"):
        r["res"] = "ok" if r["res"] == "err" else "err"
        return r
    return None


def k03(ctx):
    ctx.tlc("LinearSourceMC", "INIT Init\nNEXT Next\nCONSTANT Len3 = %d\nINVARIANT Inv\n" % ctx.pick(3, 5), workers=2)
    ctx.tlc("InterpSourceMC", "SPECIFICATION Spec\nCONSTANT Keys = {1,2,3}\nINVARIANTS Compose PresentIsNotAbsent OncePerItem\nPROPERTY SourceUntouched\n",
            workers=2)
    d = ctx.drive("d_linear:lin_record", {}, timeout=ctx.pick(400, 2500))
    ctx.sample(dict(linear=d.records[len(d.records) // 2]))
    ctx.judge("LinearSourceJudge", d.records, what="tar-backed source")
    if not ctx.violations:
        def corrupt(r, rnd):
            if not r["out"]:
                return None
            z = rnd.randint(0, 2)
            if z == 0:
                r["out"] = r["out"][1:]
                r["calls"] = [c[1:] for c in r["calls"]]
            elif z == 1:
                r["out"][0][1] += 1
            else:
                r["out"] = r["out"] + r["out"][:1]
            return r
        ctx.binding_test("LinearSourceJudge", [r for r in d.records if r["out"] and not r["fail"][0]], corrupt)
    nk = 5
    d = ctx.drive("d_linear:interp_record", dict(histories=ctx.pick(900, 8000), nkeys=nk), timeout=ctx.pick(400, 2500))
    cfg = "INIT TInit\nNEXT TNext\nCONSTANT Keys = {%s}\n" % ",".join(map(str, range(1, nk + 1)))
    ctx.judge_traces("InterpSourceTrace", d.records, what="interpreted source", cfg=cfg)
    # crowded ones
    d2 = ctx.drive("d_linear:interp_record", dict(histories=ctx.pick(12, 100), nkeys=100), timeout=ctx.pick(400, 2500))
    ctx.judge_traces("InterpSourceTrace", d2.records, what="crowded interpreted source", cfg="INIT TInit\nNEXT TNext\nCONSTANT Keys = {%s}\n" % ",".join(map(str, range(1, 101))))
    if not ctx.violations:
        def corrupt2(r, rnd):
            if r["op"] == "change":
                return None
            if r["calls"] and rnd.random() < 0.5:
                r["calls"] = r["calls"] + r["calls"][-1:]
                return r
            if r["op"] in ("get", "getfail"):
                r["ans"] = -99
                return r
            r["ans"] = r["ans"] + [1]
            return r
        ctx.binding_traces("InterpSourceTrace", d.records, corrupt2, cfg=cfg)
    ctx.assumptions += ["key functions give None or non-empty keys"]


def k04(ctx):
    ctx.tlc("StoreScriptsMC", "INIT Init\nNEXT Next\nCONSTANTS KS = {1,2,3,4,5}\n N = %d\nINVARIANT Inv\n" % ctx.pick(3, 4))
    d = ctx.drive("d_scripts:scripts_record", dict(rounds=ctx.pick(160, 2500)), timeout=ctx.pick(400, 2500))
    for op in ("even", "explicit", "join"):
        ctx.sample([r for r in d.records if r["op"] == op][3])
    ctx.judge("StoreScriptsJudge", d.records, what="store script")
    if not ctx.violations:
        def corrupt(r, rnd):
            if r["res"] == "err":
                r["res"] = "ok"
                return r
            z = rnd.randint(0, 3)
            full = [o for o in r["outs"] if o]
            if z == 0 or not full:
                r["res"] = "err"
            elif z == 1:
                full[0].pop()
                if r["op"] == "sample" and r["n"] > len(r["input"]):
                    pass
            elif z == 2:
                full[0].append(full[0][0])
            else:
                full[0][0] = [full[0][0][0], 99]
            return r
        ctx.binding_test("StoreScriptsJudge", d.records, corrupt)
    ctx.assumptions += ["slices and joins are zip-backed stores with key lists; directory inputs have distinct file names"]


def k05(ctx):
    cfg = "INIT Init\nNEXT Next\nCONSTANTS Depth = %d\n Wide = %s\n Log = %s\nINVARIANT %s\n"
    ctx.tlc("StoreParamsMC", cfg % (2, "TRUE", "FALSE", "Laws"), workers=6, label="StoreParamsMC, all descriptions")
    ctx.tlc("StoreParamsMC", cfg % (ctx.pick(3, 4), "FALSE", "FALSE", "Laws"), workers=6, label="StoreParamsMC, histories")
    r = ctx.tlc("StoreParamsMC", cfg % (2, "FALSE", "TRUE", "Visit"), label="StoreParamsMC export")
    cases = [p for p in r.prints if "steps" in p]
    if len(cases) < 4000:
        from core import CheckError
        raise CheckError("too few histories exported: %d" % len(cases))
    ctx.rnd.shuffle(cases)
    # (most descriptions of one place do not fit what is there)
    cases.sort(key=lambda c: c["steps"][-1]["want"] == "err")
    ctx.sample(dict(exported_history=cases[0]))
    d = ctx.drive("d_storeparams:store_replay", dict(cases=cases[:ctx.pick(3000, 10000)]), timeout=ctx.pick(400, 2500))
    ctx.traces += min(len(cases), ctx.pick(3000, 10000))
    ctx.judge("StoreParamsJudge", d.records, what="described stores", chunk=1000)
    d = ctx.drive("d_storeparams:store_record", dict(histories=ctx.pick(1500, 15000)), timeout=ctx.pick(400, 2500))
    ctx.sample(dict(recorded=[(s["role"], s["tree"], s["out"]) for s in d.records[-1]["steps"][:2]]))
    ctx.judge("StoreParamsJudge", d.records, what="described stores", chunk=200)
    if not ctx.violations:
        def corrupt(r, rnd):
            ss = [s for s in r["steps"] if s["out"]["k"] in ("made", "reads", "wrote") and not any(e["p"][-1] == "value" for e in s["tree"])]
            if not ss:
                return None
            s = rnd.choice(ss)
            o = s["out"]
            z = rnd.random()
            if z < 0.2:
                s["after"] = s["after"] + [dict(p=["qq"], t="str", v="q", n=0)]
            elif z < 0.3:
                s["ctxsame"] = False
            elif o["k"] == "made":
                if z < 0.6 or not s["calls"]:
                    o["by"] += "!"
                else:
                    s["calls"] = []
            elif o["k"] == "wrote":
                o["k"] = "err"
            elif o["through"]:
                if z < 0.6:
                    o["through"] = o["through"][:-1]
                else:
                    o["flavour"] = "str" if o["flavour"] == "bytes" else "bytes"
            else:
                o["k"] = "err"
            return r
        ctx.binding_test("StoreParamsJudge", d.records, corrupt)
    ctx.assumptions += ["nobody else changes the places meanwhile", "nothing is promised of a description which is no namespace, which has a value, or of a type in a module it does not import"]
