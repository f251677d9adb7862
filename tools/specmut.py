"""Changes spec/Raii.tla in places, one at a time, and asks TLC whether the
invariants of spec/RaiiMC.tla notice: none of them holds for want of cases.
Not part of any check."""
import os, re, shutil, subprocess, tempfile
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
M=[ # (name, old, new, groups)
("fifo drain answer: take first", "LET ent == m.sc[t.s].ent  x == ent[Len(ent)] IN\n  IF x.i # i", "LET ent == m.sc[t.s].ent  x == ent[1] IN\n  IF x.i # i", ['scope']),
("cancel keeps", 'm1 == [m EXCEPT !.sc[e.s].ent = SubSeq(@, 1, p - 1) \\o SubSeq(@, p + 1, Len(@))]', 'm1 == m', ['scope']),
("clause order", 'LET j == CHOOSE j \\in C : \\A k \\in C : j <= k IN', 'LET j == CHOOSE j \\in C : \\A k \\in C : j >= k IN', ['try','prot']),
("match any", 'Matches(c, ex) == c \\in {"*", "?"} \\/ c = ex.n', 'Matches(c, ex) == TRUE', ['try']),
("no fin after exc", 'IF f.fin THEN Push', 'IF f.fin /\\ f.st # 3 THEN Push', ['try']),
("fin drops exception", 'THEN EndTry(Pop(m), t.id, t.st, t.ex)', 'THEN EndTry(Pop(m), t.id, 0, t.ex)', ['try','end']),
("rethrow replaced", 'THEN Throw(m, t.ex) ELSE Bad(m, "script")', 'THEN Throw(m, [t.ex EXCEPT !.line = 0]) ELSE Bad(m, "script")', ['try','prot']),
("handler not left", '!.st = IF f.k = "guard" THEN 1 ELSE IF f.st \\in {0, 1} THEN 1 ELSE 3]', '!.st = 1]', ['try','prot']),
("guard scope not run on exc", 'ELSE Drain(SetTop(m, [f EXCEPT !.ph = "catch"]), f.s, "gcatch")', 'ELSE GuardFin(m)', ['guard']),
("recover without match", 'r == f.ex # NoEx /\\ (e.n = cur', 'r == f.ex # NoEx /\\ (TRUE \\/ e.n = cur', ['guard']),
("recovered goes on", 'IN IF Odd(g.st) THEN Throw(m1, g.ex)', 'IN IF g.st = 3 THEN Throw(m1, g.ex)', ['guard']),
("protected order", 'Push(m2, [k |-> "unw", left |-> NonNull(f.prot)])','Push(m2, [k |-> "unw", left |-> NonNull([j \\in DOMAIN f.prot |-> f.prot[Len(f.prot) + 1 - j]])])',['prot']),
("protected lost", 'Push(m2, [k |-> "unw", left |-> NonNull(f.prot)])','Push(m2, [k |-> "unw", left |-> <<>>])',['prot']),
("protected kept", 'IF Unwinding(m) THEN Terminate(m)\n  ELSE LET f2 == [f EXCEPT !.ex = ex, !.prot = <<>>','IF Unwinding(m) THEN Terminate(m)\n  ELSE LET f2 == [f EXCEPT !.ex = ex',['prot']),
("exit 0 when uncaught", '!.xhow = "code", !.xv = 1]', '!.xhow = "code", !.xv = 0]', ['end','try']),
("no defers at term", 'IF HasT(m) THEN Drain(m1, "T", "term") ELSE m1', 'm1', ['scope','end']),
("no defers at exit", 'ELSE IF HasT(m) THEN Drain(Push(m, [k |-> "exit"]), "T", "exit")', 'ELSE IF FALSE THEN Drain(Push(m, [k |-> "exit"]), "T", "exit")', ['scope']),
("guard end keeps", 'THEN Drain(SetTop(m, [t EXCEPT !.ph = "end"]), t.s, "gend")', 'THEN GuardFin(SetTop(m, [t EXCEPT !.ph = "end"]))', ['guard']),
("unprot only one", 'IN IF C = {} THEN Bad(m, "script")\n            ELSE [m EXCEPT !.cs[i].prot = SubSeq(q, 1, (CHOOSE j \\in C : TRUE) - 1)]','IN m',['prot']),
("sig named ignored", 'n |-> IF e.num \\in DOMAIN m.own THEN m.own[e.num] ELSE e.n', 'n |-> e.n', ['sig']),
("afail silent", 'ELSE LibPanic(m)', 'ELSE m', ['fail']),
("fin run twice", 'THEN EndTry(Pop(m), t.id, t.st, t.ex)', 'THEN (IF t.st = 3 THEN SetTop(m, [t EXCEPT !.ph = "aw", !.st = 1]) ELSE EndTry(Pop(m), t.id, t.st, t.ex))', ['try']),
]
src = open(SPEC + '/Raii.tla').read()
d = tempfile.mkdtemp()
for name,a,b,gs in M:
    if src.count(a)!=1: print('BAD PATTERN',name,src.count(a)); continue
    open(d+'/Raii.tla','w').write(src.replace(a,b)); shutil.copy(SPEC + '/RaiiMC.tla',d)
    res=[]
    for g in gs:
        shutil.copy(SPEC + '/RaiiMC_%s_quick.cfg'%g,d)
        r=subprocess.run(['timeout','200','java','-Xss64m','-XX:+UseParallelGC','-cp','/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar','tlc2.TLC','-noGenerateSpecTE','-workers','8','-config','RaiiMC_%s_quick.cfg'%g,'-metadir',d+'/md','RaiiMC.tla'],cwd=d,capture_output=True,text=True)
        m=re.findall(r'Invariant (\w+) is violated',r.stdout)
        res.append((g,m or r.returncode))
    print(name,res,flush=True)
shutil.rmtree(d)
