"""V01, V02, M01, M02, L01, T01: argument checks, attribute declarations, memory amounts, small helpers, logging, text at offsets."""
import random

from core import CheckError


def some(ctx, cases, n):
    if len(cases) <= n:
        return cases
    return random.Random(ctx.seed).sample(cases, n)


def v01(ctx):
    ctx.tlc("PreconditionsMC", "INIT Init\nNEXT Next\nCONSTANT N = %d\nINVARIANT Laws\n" % ctx.pick(3, 4), workers=2)
    r = ctx.tlc("PreconditionsMC", "INIT Init\nNEXT Next\nCONSTANT N = 3\nINVARIANT Visit\n", label="PreconditionsMC export")
    cases = [p for p in r.prints if "inst" in p]
    if len(cases) < 2000:
        raise CheckError("too few cases exported")
    ctx.sample(dict(exported_case=cases[100]))
    ctx.drive("d_misc:checks_replay", dict(cases=cases))
    ctx.traces += len(cases)
    # the checks are no assert statements: they stay when Python is told to leave those out
    without = ctx.drive("d_misc:checks_record", dict(rounds=ctx.pick(2000, 20000)), flags=["-O"])
    ctx.judge("PreconditionsJudge", without.records, what="argument checks under -O")
    d = ctx.drive("d_misc:checks_record", dict(rounds=ctx.pick(8000, 80000)))
    ctx.sample(dict(recorded=d.records[3]))
    ctx.judge("PreconditionsJudge", d.records, what="argument checks")
    if not ctx.violations:
        def corrupt(r, rnd):
            if r["res"] == "ok" and r["same"] and rnd.random() < 0.5:
                r["same"] = False
            elif r["res"] != "ok" and r["msg"] and r["op"] in ("not_none", "arg", "state", "args_none", "args_not_none") and rnd.random() < 0.5:
                r["text"] += "!"
            else:
                r["res"] = "KeyError" if r["res"] == "ok" else "ok"
                r["same"] = True
            return r
        ctx.binding_test("PreconditionsJudge", d.records, corrupt)
    ctx.assumptions += ["messages have as many places for arguments as there are arguments, and no other percent signs"]


def v02(ctx):
    ctx.tlc("AttrHelpers", "SPECIFICATION Spec\nCONSTRAINT Bound\nCONSTANT Elems = {%s}\nPROPERTIES Apart Kept Frozen\n" % ctx.pick("1,2", "1,2,3"), workers=2)
    r = ctx.tlc("AttrHelpersMC", "INIT HInit\nNEXT HNext\nCONSTANTS Elems = {1}\n Depth = %d\nINVARIANT Visit\n" % 3)
    hs = [p for p in r.prints if "h" in p]
    if len(hs) < 10000:
        raise CheckError("too few histories exported")
    hs = some(ctx, hs, ctx.pick(8000, 60000))
    ctx.sample(dict(exported_history=hs[5]))
    ctx.drive("d_misc:attrs_replay", dict(histories=hs))
    ctx.traces += len(hs)
    d = ctx.drive("d_misc:attrs_record", dict(histories=ctx.pick(400, 4000)))
    ctx.sample(dict(recorded=d.records[1:5]))
    cfg = "INIT TInit\nNEXT TNext\nCONSTANT Elems = {1,2}\n"
    ctx.judge_traces("AttrHelpersTrace", d.records, what="attribute declarations", cfg=cfg)
    if not ctx.violations:
        def corrupt(r, rnd):
            if r["has"] and rnd.random() < 0.5:
                i = rnd.randrange(len(r["has"]))
                r["has"][i] = r["has"][i][1:] if r["has"][i] else [1]
            elif r["op"] == "make":
                r["res"] = "err" if r["res"] == "ok" else "ok"
            else:
                return None
            return r
        ctx.binding_traces("AttrHelpersTrace", d.records, corrupt, cfg=cfg)
    ctx.assumptions += ["the helpers warn that they are deprecated, which is not looked at"]


def m01(ctx):
    chars = '{"0","7"," ","K","g","b","B","x"}'
    ctx.tlc("MemoryAmountMC", "INIT Init\nNEXT Next\nCONSTANTS MaxLen = %d\n Chars = %s\nINVARIANT Laws\n" % (ctx.pick(4, 6), chars), workers=4)
    r = ctx.tlc("MemoryAmountMC", "INIT Init\nNEXT Next\nCONSTANTS MaxLen = %d\n Chars = %s\nINVARIANT Visit\n" % (ctx.pick(4, 5), chars), label="MemoryAmountMC export")
    cases = [p for p in r.prints if "text" in p]
    if len(cases) < 3000:
        raise CheckError("too few cases exported")
    ctx.sample(dict(exported_case=cases[100]))
    ctx.drive("d_misc:memory_replay", dict(cases=cases))
    ctx.traces += len(cases)
    d = ctx.drive("d_misc:memory_record", dict(rounds=ctx.pick(8000, 80000)))
    ctx.sample(dict(recorded=d.records[3]))
    ctx.judge("MemoryAmountJudge", d.records, what="memory amounts")
    if not ctx.violations:
        def corrupt(r, rnd):
            if r["op"] == "same":
                r["eq"] = not r["eq"]
                r["hasheq"] = True
            elif r["res"] == "ok":
                r["unit"] = "BYTES"
            else:
                if r["op"] == "parse" and len(r["text"]) > 1 and r["text"][0] in "0123456789":
                    return None   # may be vague
                r.update(res="ok", amount=["1"], unit="BYTES")
            return r
        ctx.binding_test("MemoryAmountJudge", d.records, corrupt)
    ctx.assumptions += ["digits are ASCII; nothing is promised about texts with something behind an amount"]


def m02(ctx):
    ctx.tlc("MiscUtilsMC", "INIT Init\nNEXT Next\nCONSTANT MaxTerms = 2\nINVARIANT Laws\n", workers=2)
    ctx.tlc("MiscTextMC", "INIT Init\nNEXT Next\nCONSTANTS MaxLen = %d\n Chars = {\".\",\"a\",\" \"}\nINVARIANT Laws\n" % ctx.pick(5, 7), workers=2)
    r = ctx.tlc("MiscTextMC", "INIT Init\nNEXT Next\nCONSTANTS MaxLen = %d\n Chars = {\".\",\"a\",\" \"}\nINVARIANT Visit\n" % ctx.pick(5, 6), label="MiscTextMC export")
    cases = [p for p in r.prints if "limited" in p]
    ctx.sample(dict(exported_case=cases[-1]))
    ctx.drive("d_misc:texts_replay", dict(cases=cases))
    ctx.traces += len(cases)
    r = ctx.tlc("MiscUtilsMC", "INIT Init\nNEXT Next\nCONSTANT MaxTerms = %d\nINVARIANT Visit\n" % ctx.pick(1, 2), label="MiscUtilsMC export")
    cases = [p for p in r.prints if "want" in p]
    if len(cases) < 1000:
        raise CheckError("too few cases exported")
    cases = some(ctx, cases, ctx.pick(1500, 8000))
    ctx.sample(dict(exported_case=cases[-1]))
    ctx.drive("d_misc:eval_replay", dict(cases=cases), timeout=ctx.pick(300, 2500))
    ctx.traces += len(cases)
    d = ctx.drive("d_misc:misc_record", dict(rounds=ctx.pick(6000, 40000)), timeout=ctx.pick(300, 2500))
    ctx.judge("MiscUtilsJudge", d.records, what="small helpers")
    ctx.sample(dict(recorded=d.records[3]))
    if not ctx.violations:
        def corrupt(r, rnd):
            if r["op"] == "eval":
                if r["res"] == "ok" and rnd.random() < 0.5:
                    r["val"] += 1
                elif rnd.random() < 0.5:
                    r["ctxsame"] = False
                else:
                    r["res"] = "?"
            elif r["op"] in ("path", "withid", "scored"):
                if r["res"] == "ok":
                    r["good"] = False
                else:
                    r.update(res="ok", good=True)
            elif r["res"] == "ok":
                r["out"] = r["out"] + ("x" if isinstance(r["out"], str) else ["x"])
            else:
                r["res"] = "KeyError"
            return r
        ctx.binding_test("MiscUtilsJudge", d.records, corrupt)
    ctx.assumptions += ["names whose only dots are in front have no promised extension; contexts do not use the names of modules asked for"]


def l01(ctx):
    ctx.tlc("Logging", "SPECIFICATION Spec\nCONSTRAINT Bound\nINVARIANT Told\nPROPERTY Last\n", workers=2)
    r = ctx.tlc("LoggingMC", "INIT HInit\nNEXT HNext\nCONSTANT Depth = %d\nINVARIANT Visit\n" % ctx.pick(2, 3))
    hs = [p for p in r.prints if "h" in p]
    if len(hs) < 500:
        raise CheckError("too few histories exported")
    ctx.sample(dict(exported_history=hs[50]))
    ctx.drive("d_misc:logging_replay", dict(histories=hs), timeout=ctx.pick(300, 2500))
    ctx.traces += len(hs)
    d = ctx.drive("d_misc:logging_record", dict(histories=ctx.pick(500, 5000)), timeout=ctx.pick(300, 2500))
    ctx.sample(dict(recorded=d.records[1:4]))
    ctx.judge_traces("LoggingTrace", d.records, what="logging")
    if not ctx.violations:
        def corrupt(r, rnd):
            if rnd.random() < 0.3:
                r["root"] += 10
            elif r["op"] == "configure":
                r["res"] = "err" if r["res"] == "ok" else "ok"
            else:
                r["root"] = r["root"] - 10
            return r
        ctx.binding_traces("LoggingTrace", d.records, corrupt)
        def corrupt_seen(r, rnd):
            if r["op"] == "configure" and r["q"]["file"] == "no":
                r["seen"] = not r["seen"]
                return r
            return None
        ctx.binding_traces("LoggingTrace", d.records, corrupt_seen, label="LoggingTrace, what is shown")
    ctx.assumptions += ["messages are logged to loggers with no level of their own, made after a configuration file was read"]


def t01(ctx):
    ctx.tlc("TextAtOffsetsMC", "INIT Init\nNEXT Next\nCONSTANTS MaxLen = %d\n Chars = {\"a\",\"b\",\"c\"}\nINVARIANT Laws\n" % ctx.pick(4, 5), workers=2)
    r = ctx.tlc("TextAtOffsetsMC", "INIT Init\nNEXT Next\nCONSTANTS MaxLen = 4\n Chars = {\"a\",\"b\",\"c\"}\nINVARIANT Visit\n", label="TextAtOffsetsMC export")
    cases = [p for p in r.prints if "cut" in p]
    if len(cases) < 2000:
        raise CheckError("too few cases exported")
    ctx.sample(dict(exported_case=cases[-1]))
    ctx.drive("d_misc:offsets_replay", dict(cases=cases))
    ctx.traces += len(cases)
    d = ctx.drive("d_misc:offsets_record", dict(rounds=ctx.pick(600, 6000), child=ctx.pick(0.03, 0.03)), timeout=ctx.pick(300, 2500))
    ctx.sample(dict(recorded={k: v for k, v in d.records[3].items() if k not in ("t", "out")}))
    ctx.judge("TextAtOffsetsJudge", d.records, what="text at offsets", chunk=500)
    if not ctx.violations:
        def corrupt(r, rnd):
            if not r["utf8"]:
                r.update(res="ok", printed=True)
            elif 0 <= r["s"] < r["e"] <= len(r["t"]):
                r["out"] = r["out"][1:]
            else:
                r.update(res="ok", said=False)
            return r
        ctx.binding_test("TextAtOffsetsJudge", d.records, corrupt)
