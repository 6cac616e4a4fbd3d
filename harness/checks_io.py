"""I01, I02: sources, sinks and file formats."""


def i01(ctx):
    ctx.tlc("TextMC", "INIT Init\nNEXT Next\nCONSTANTS Alphabet = {1,2,10}\n MaxLen = %d\n Export = FALSE\nINVARIANT Inv\n" % ctx.pick(7, 9),
            workers=2)
    r = ctx.tlc("TextMC", "INIT Init\nNEXT Next\nCONSTANTS Alphabet = {1,2,3,10}\n MaxLen = %d\n Export = TRUE\nINVARIANT Visit\n"
                % ctx.pick(4, 5), label="TextMC export")
    texts = [p for p in r.prints if "s" in p]
    ctx.sample(dict(exported_text=texts[-1]))
    ctx.drive("d_io:text_replay", dict(texts=texts), timeout=ctx.pick(400, 2500))
    ctx.traces += len(texts)
    n = 4
    d = ctx.drive("d_io:media_record", dict(histories=ctx.pick(1200, 12000), slots=n), timeout=ctx.pick(400, 2500))
    ctx.sample(dict(recorded=[(x["op"], x.get("kind"), x.get("how")) for x in d.records[:10]]))
    for rec in d.records:
        if rec["op"] == "new":
            rec["preset"] = [p if p != [-1] else None for p in rec["preset"]]
    recs = [_none_free(r) for r in d.records]
    cfg = "INIT TInit\nNEXT TNext\nCONSTANT Slots = {1,2,3,4}\n"
    ctx.judge_traces("MediaTrace", recs, what="sources and sinks", cfg=cfg)
    if not ctx.violations:
        def corrupt(r, rnd):
            if r["op"] == "read" and r["res"] == "ok" and r["how"] in ("all", "stream", "lines"):
                r["ans"] = r["ans"] + ([[1]] if r["how"] == "lines" else [1])
                return r
            return None
        ctx.binding_traces("MediaTrace", _sure(recs), corrupt, cfg=cfg)
    ctx.assumptions += ["text through translating media (files, gzip, wrapped bytes) has no carriage returns"]


def _none_free(r):
    if r["op"] != "new":
        return r
    return dict(r, has=[0 if p is None else 2 if p == [-2] else 1 for p in r["preset"]], preset=[[] if p in (None, [-2]) else p for p in r["preset"]])


def _sure(recs):
    """Histories up to their first abandoned stream (afterwards some answers are not promised)."""
    out, skip = [], False
    for r in recs:
        if r["op"] == "new":
            skip = False
        elif r["op"] in ("fail", "unfit"):
            skip = True
        if not skip:
            out.append(r)
    return out


def i02(ctx):
    ctx.tlc("FileFormatsMC", "INIT Init\nNEXT Next\nCONSTANT MaxLines = %d\nINVARIANT Inv\n" % ctx.pick(3, 4), workers=ctx.pick(2, 6))
    d = ctx.drive("d_io:formats_record", dict(rounds=ctx.pick(900, 9000)), timeout=ctx.pick(400, 2500))
    for op in ("parse", "lineset", "pathlist", "pathitems"):
        ctx.sample([r for r in d.records if r["op"] == op][5])
    ctx.judge("FileFormatsJudge", d.records, what="file formats")
    if not ctx.violations:
        def corrupt(r, rnd):
            if r["op"] == "parse":
                if r["res"] == "ok" and r["out"]:
                    r["out"].pop()
                else:
                    r["res"] = "err" if r["res"] == "ok" else "ok"
            elif r["op"] == "emptydir":
                r["out"] = [1 - r["out"][0]]
            else:
                r["out"] = r["out"] + [[3, 3, 3]]
            return r
        ctx.binding_test("FileFormatsJudge", d.records, corrupt)
    ctx.assumptions += ["fields have no tabs, line breaks or surrounding white space"]
