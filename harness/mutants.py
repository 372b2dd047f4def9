#!/usr/bin/env python3
"""Are the invariants of Props.tla worth something? Each entry changes the specification in one place; TLC has to find
a violated invariant in the families given. Not part of any check: run by hand after changes of the specification.

    mutants.py [number ...]
"""
import os, re, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bxlib

M = [
    # (invariants that may notice, families, module, old text, new text)
    ('C01', 'pad align', 'Draw', 'IF t >= 1 /\\ t <= Len(blk.lines) THEN t ELSE 0', 'IF t >= 1 /\\ t < Len(blk.lines) THEN t ELSE 0'),
    ('C01', 'pad align', 'Draw', 'tx == CutIndent(Str(line.s), IF sh < 0 THEN -sh ELSE 0)', 'tx == CutIndent(Str(line.s), IF sh < 0 THEN 1 - sh ELSE 0)'),
    ('C02', 'sides', 'Draw', 'LET order == IF side = RIGHT THEN <<1,2,3>> ELSE <<3,2,1>>', 'LET order == <<1,2,3>>'),
    ('C02', 'sides', 'Draw', 'LET order == IF side = TOP THEN <<1,2,3>> ELSE <<3,2,1>>', 'LET order == <<1,2,3>>'),
    ('C02', 'sides size', 'Draw', 'd.sh[n][((k - 1) % d.h[n]) + 1]', 'd.sh[n][(k % d.h[n]) + 1]'),
    ('C02', 'size', 'Draw', 'bot   == IF side = RIGHT THEN "SE" ELSE "SW"', 'bot   == IF side = RIGHT THEN "NE" ELSE "SW"'),
    ('C02', 'sides', 'Draw', 'THEN v2 ELSE AddNonElastic', 'THEN v ELSE AddNonElastic'),
    ('C03', 'size', 'Draw', 'TargetWidth(d, blk) == Max2(blk.maxline,', 'TargetWidth(d, blk) == Max2(blk.maxline + 1,'),
    ('C03', 'size', 'Draw', '+ (IF o.reqw > 0 /\\ d.empty[RIGHT] THEN d.w["SE"] ELSE 0)', ''),
    ('C03', 'size', 'Draw', '!.minh = Max2(d.minh, o.reqh)', '!.minh = Max2(d.minh, o.reqh - 1)'),
    ('C03', 'sides size', 'Draw', 'PcDone(p, target) == Total(p.a) = Total(p.b) /\\ Total(p.a) >= target', 'PcDone(p, target) == Total(p.a) = Total(p.b) /\\ Total(p.a) > target'),
    ('C04', 'pad', 'Draw', 'vr   == IF vover /\\ o.reqh > 0', 'vr   == IF o.reqh > 0'),
    ('C04', 'pad', 'Draw', 'LET pref == IF i % 2 = 0 THEN 1 ELSE 2', 'LET pref == 1'),
    ('C04', 'pad', 'Draw', 'IF o.pad[i] > -1 THEN o.pad[i] ELSE d.pad[i]]', 'IF o.pad[i] > 0 THEN o.pad[i] ELSE d.pad[i]]'),
    ('C04', 'pad', 'CmdLine', '[] c = ch("h") -> {2, 4}', '[] c = ch("h") -> {2, 3}'),
    ('C05', 'align', 'Draw', '[] o.halign = "r" -> free [] OTHER', '[] o.halign = "r" -> free - 1 [] OTHER'),
    ('C05', 'align', 'Draw', 'up   == CASE o.valign = "c" -> free \\div 2', 'up   == CASE o.valign = "c" -> free \\div 3'),
    ('C05', 'align', 'Draw', '[] o.justify = "r" -> blk.maxline - len - b.ind', '[] o.justify = "r" -> blk.maxline - len'),
    ('C06', 'indent', 'Draw', '!.indent = IF o.indentmode = "" THEN d.indent ELSE o.indentmode', '!.indent = d.indent'),
    ('C06', 'indent', 'Input', 'cut == ~removing /\\ indentmode # "t"', 'cut == ~removing /\\ indentmode = "b"'),
    ('C06', 'indent', 'Input', 'IF S = {} THEN 0 ELSE MinOf(S)', 'IF S = {} THEN 0 ELSE MaxOf(S)'),
    ('C07', 'tabs', 'Input', '[] tabexp = "u" -> Rep(TAB, n \\div ts)', '[] tabexp = "u" -> Rep(TAB, n \\div (ts + 1))'),
    ('C07', 'tabs', 'Input', 'IF stop > n THEN Spaces(n - col)', 'IF stop >= n THEN Spaces(n - col)'),
    ('C07', 'tabs', 'Input', 'LET n == ts - (col % ts) IN Expand', 'LET n == ts IN Expand'),
    ('C08', 'round', 'Remove', 'Max2(0, d.pad[LEFT])', '0'),
    ('C08', 'round', 'Boxes', 'IF e.west.q > 0 /\\ KeepIndent THEN', 'IF FALSE THEN'),
    ('C09', 'round damage', 'CmdLine', '!.mend = TRUE, !.remove = TRUE, !.killblank = 0]', '!.mend = TRUE, !.remove = TRUE]'),
    ('C10', 'remove damage', 'Remove', 'IN SubSeq(b.m, s + 1, Max2(s, t))', 'IN SubSeq(b.m, s + 2, Max2(s, t))'),
    ('C10', 'remove damage', 'Remove', 'e |-> p + Len(u), q |-> Len(u)]', 'e |-> p + Len(t), q |-> Len(u)]'),
    ('C10', 'remove damage', 'Boxes', 'i >= a + job.d.h["NE"]', 'i > a + job.d.h["NE"]'),
    ('C11', 'detect', 'Detect', 'IF h > b[1] THEN', 'IF h >= b[1] THEN'),
    ('C11', 'detect', 'Detect', 'LET h == Hits(ds[i], bs, way) IN', 'LET h == Hits(ds[i], bs, way) + i IN'),
    ('C13', 'elastic', 'Config', 'd1.sechecks > 1 /\\ ~ElasticOK', 'd1.sechecks > 2 /\\ ~ElasticOK'),
    ('C13', 'sections', 'Config', '\\/ d.has # {"sample", "shapes", "elastic"} \\/', '\\/ Cardinality(d.has) < 2 \\/'),
    ('C14', 'names parents', 'Boxes', 'EqNoCase(acc[i].name, d.name) THEN acc', 'acc[i].name = d.name THEN acc'),
    ('C14', 'names', 'Config', '\\/ NameTaken(ds, name)', ''),
    ('C14', 'parents', 'Boxes', 'IF Contains(acc, p) THEN acc ELSE Append(acc, p), plist', 'Append(acc, p), plist'),
    ('C15', 'locate', 'Discover', 'ELSE IF env.boxes.set THEN', 'ELSE IF env.boxes.set /\\ env.home.set THEN'),
    ('C16', 'query', 'Listing', '/\\ I("+") # {} \\/', '/\\ FALSE \\/'),
    ('C16', 'query', 'Listing', '/\\ \\A i \\in I("-") : ~tag(i)', ''),
    ('C16', 'query', 'Listing', 'LET d == ByName(ds)[i]', 'LET d == ds[i]'),
    ('C18', 'eol', 'Boxes', 'IF job.row < job.last \\/ job.blk.final THEN O.eol', 'IF job.row <= job.last THEN O.eol'),
    ('C18', 'eol', 'Boxes', '.blk = Analyze(lines, FinalBreak(t),', '.blk = Analyze(lines, TRUE,'),
    ('C10', 'remove damage', 'Boxes', 'SubSeq(lines, 1, job.top[1] - 1) \\o', '<<>> \\o'),
    ('C12', 'blank remove damage', 'Boxes', 'IF KillBlank_ THEN lead ELSE Min2(lead, job.d.pad[TOP])', 'lead'),
    ('C09', 'round damage', 'Boxes', 'THEN Spaces(job.blk.indent) \\o s ELSE s', 'THEN s ELSE s'),
    ('C25', 'sides', 'Boxes', 'ELSE IF job.steps > PcLimit(sides[1], sides[2], target) THEN Fail', 'ELSE IF job.steps > target + 1 THEN Fail'),
    ('C18', 'eol', 'CmdLine', '[] LowerS(s) = S("cr") -> Ok([o EXCEPT !.eol = <<CR>>])', '[] LowerS(s) = S("cr") -> Ok([o EXCEPT !.eol = <<LF>>])'),
    ('C19', 'color', 'Draw', 'Emit(s, color) == IF color THEN s ELSE Vis(s)', 'Emit(s, color) == s'),
    ('C20', 'wide', 'Chars', 'Cols(s) == FoldLeft(LAMBDA a, c : a + Width(c), 0, s)', 'Cols(s) == Len(s)'),
    ('C23', 'create', 'Config', '!.pad = <<0, 0, 0, 1>>', '!.pad = <<0, 0, 0, 0>>'),
    ('C24', 'files', 'Boxes', 'IN IF \\/ InFile # <<>> /\\ ~IsFile(FS, InFile)', 'IN IF \\/ FALSE'),
]


def main():
    todo = [int(a) for a in sys.argv[1:]] or range(1, len(M) + 1)
    scratch = tempfile.mkdtemp(prefix='bxm-')
    real, killed, lived = bxlib.SPEC, 0, 0
    try:
        for n in todo:
            prop, fams, module, old, new = M[n - 1]
            if new is None:
                continue
            d = os.path.join(scratch, 'spec')
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(real, d)
            p = os.path.join(d, module + '.tla')
            with open(p) as f:
                s = f.read()
            if s.count(old) < 1:
                print(n, prop, module, 'TEXT NOT FOUND', old)
                continue
            with open(p, 'w') as f:
                f.write(s.replace(old, new, 1))
            bxlib.SPEC = d
            found = []
            for fam in fams.split():
                t = bxlib.tlc('MC.tla', 'MC.cfg', scratch, {'FAMILY': fam, 'SCOPE': 'quick', 'OUT': os.path.join(scratch, 'o.json')}, timeout=300, heap='8g')
                m = re.findall(r'Invariant (\S+) is violated', t.out) or (re.findall(r'Error: (.{0,80})', t.out)[:1] if t.rc else [])
                if m:
                    found.append('%s: %s' % (fam, m[0]))
                    break
            killed, lived = killed + bool(found), lived + (not found)
            print(n, prop, module, '; '.join(found) or 'NOT NOTICED  ' + old[:60], flush=True)
    finally:
        shutil.rmtree(scratch)
    print('%d noticed, %d not' % (killed, lived))


main()
