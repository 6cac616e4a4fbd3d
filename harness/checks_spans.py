"""S01, S02, A01: spans, span indexes, annotated text."""
from core import CheckError


def s01(ctx):
    lo, hi = -2, ctx.pick(3, 5)
    cfg = "INIT Init\nNEXT NextC\nCONSTANTS NegLo = 2\n Hi = %d\n MaxColl = %d\nINVARIANT %s\n"
    ctx.tlc("SpansMC", cfg % (hi, 2, "Inv"), workers=2)
    r = ctx.tlc("SpansMC", cfg % (hi, 2, "Visit"), label="SpansMC export")
    pairs = [p for p in r.prints if "meet" in p]
    colls = [p for p in r.prints if "coll" in p]
    r = ctx.tlc("SpansMC", cfg % (ctx.pick(0, 1), ctx.pick(4, 5), "Visit"), label="SpansMC export, longer collections")
    colls += [p for p in r.prints if "coll" in p]
    if len(pairs) < 100 or len(colls) < 100:
        raise CheckError("too little exported")
    ctx.sample(dict(exported_pair=pairs[37]))
    ctx.drive("d_spans:spans_replay", dict(pairs=pairs * ctx.pick(3, 8), colls=colls, lo=lo), timeout=ctx.pick(300, 2500))
    ctx.traces += len(pairs) + len(colls)
    d = ctx.drive("d_spans:spans_record", dict(rounds=ctx.pick(8000, 80000)), timeout=ctx.pick(300, 2500))
    ctx.sample(dict(recorded=d.records[5]))
    ctx.judge("SpansJudge", d.records, what="spans")
    if not ctx.violations:
        def corrupt(r, rnd):
            if r["res"] != "ok":
                r["res"], r["out"] = "ok", [0, 0]
            elif r["op"] in ("make", "meet", "shift", "enclose", "copy") and r["out"]:
                r["out"][rnd.randint(0, 1)] += rnd.choice([-1, 1])
            elif r["op"] == "sort":
                r["out"] = r["out"][1:] if r["out"] else [[1, 2]]
            elif r["out"]:
                r["out"][0] = 1 - r["out"][0]
                if r["op"] == "len":
                    r["out"] = [r["out"][0] - 5]
            else:
                r["out"] = [0, 1]
            return r
        ctx.binding_test("SpansJudge", d.records, corrupt)


def s02(ctx):
    ctx.tlc("SpanIndexMC", "INIT Init\nNEXT Next\nCONSTANTS Hi = %d\n MaxItems = %d\n Export = FALSE\nINVARIANT Laws\n" % ctx.pick((3, 3), (4, 3)),
            workers=ctx.pick(2, 6))
    r = ctx.tlc("SpanIndexMC", "INIT Init\nNEXT Next\nCONSTANTS Hi = %d\n MaxItems = %d\n Export = TRUE\nINVARIANT Visit\n" % ctx.pick((3, 3), (4, 3)),
                label="SpanIndexMC export")
    cases = [p for p in r.prints if "items" in p]
    if len(cases) < 100:
        raise CheckError("too few cases exported")
    ctx.sample(dict(exported_case=dict(cases[60], answers=cases[60]["answers"][:2])))
    d = ctx.drive("d_spans:index_record", dict(cases=cases, random=ctx.pick(1500, 15000)), timeout=ctx.pick(300, 2500))
    ctx.sample(dict(recorded=d.records[-3]))
    ctx.judge("SpanIndexJudge", d.records, what="span index", chunk=8000)
    if not ctx.violations:
        def corrupt(r, rnd):
            if r["made"] != "ok":
                return None
            f = rnd.choice("eodg")
            r[f] = r[f][1:] if r[f] and rnd.random() < 0.7 else r[f] + [0]
            return r
        # (of a disjoint index given the same item twice nothing is promised, so it would be no test)
        ctx.binding_test("SpanIndexJudge", [r for r in d.records if len({tuple(i) for i in r["items"]}) == len(r["items"])], corrupt)
    ctx.assumptions += ["items are hashable, with an equality their hashes respect"]


def a01(ctx):
    cfg = "INIT Init\nNEXT %s\nCONSTANTS MaxText = %d\n MaxOff = %d\n MaxWs = %d\n MaxAnns = %d\n Export = %s\nINVARIANT %s\n"
    ctx.tlc("AnnotatedTextMC", cfg % (("Next",) + ctx.pick((3, 3, 0, 3), (3, 4, 1, 3)) + ("FALSE", "Inv")), workers=4)
    ctx.tlc("AnnotatedTextMC", cfg % (("Next",) + ctx.pick((2, 4, 2, 2), (3, 5, 2, 2)) + ("FALSE", "Inv")), workers=4,
            label="AnnotatedTextMC, windows")
    r = ctx.tlc("AnnotatedTextMC", cfg % (("ChooseOnly",) + ctx.pick((2, 3, 1, 3), (3, 4, 1, 3)) + ("TRUE", "Visit")), label="AnnotatedTextMC export")
    cases = [p for p in r.prints if "anns" in p]
    if len(cases) < 100:
        raise CheckError("too few cases exported")
    ctx.sample(dict(exported_case=cases[-1]))
    d = ctx.drive("d_spans:annotate_record", dict(cases=cases, random=ctx.pick(2500, 25000)), timeout=ctx.pick(300, 2500))
    ctx.sample(dict(recorded=d.records[-1]))
    ctx.judge("AnnotatedTextJudge", d.records, what="annotated text", chunk=4000)
    if not ctx.violations:
        def corrupt(r, rnd):
            o = r["out"]
            ends = [i for i, t in enumerate(o) if t[0]]
            if ends and rnd.random() < 0.7:
                i = rnd.choice(ends)
                t = o.pop(i)
                j = rnd.randrange(len(o) + 1)
                if sum(1 for x in o[:j] if x[0] == 0) == sum(1 for x in o[:i] if x[0] == 0):
                    return None
                o.insert(j, t)
                return r
            r["out"] = o + [[0, 1, 0]]
            return r
        ctx.binding_test("AnnotatedTextJudge", d.records, corrupt)
    ctx.assumptions += ["windows begin at offset 0 or later", "attributes are immutable dictionaries (immutablecollections 0.9.0 does not "
                        "convert other mappings on this Python)"]
