---------------------------- MODULE DocumentTrace ----------------------------
EXTENDS Document, TraceLib
VARIABLES p, n, ready
tvars == <<avars, p, n, ready, tid, l>>
T == Traces[tid]
Sys == [main |-> T.main, dir |-> T.dir, p |-> p, files |-> T.files, tfiles |-> T.tfiles]
TInit == StartTrace /\ p = NoProc /\ n = NoNode /\ ready = FALSE /\ defs = <<>> /\ cons = <<>> /\ attrs = <<>>
RECURSIVE Pre(_, _)
Pre(I, i) == <<i>> \o Concat([k \in 1..Len(I[i + 1].c) |-> Pre(I, I[i + 1].c[k])])
Described(d) == [name |-> d.name, vars |-> d.vars, instr |-> d.instr]
\* the description that a value is
InstrOf(v) == LET N == Nodes(v) IN
  [i \in 1..Len(N) |-> LET x == N[CHOOSE k \in 1..Len(N) : Mem(N[k], "index").x = 4 * (i - 1)] IN
     [t |-> Mem(x, "type").s, cat |-> CASE Mem(x, "category").x = 0 -> "none" [] Mem(x, "category").x = 4 -> "one" [] Mem(x, "category").x = 8 -> "many" [] OTHER -> "other",
      a |-> [k \in 1..Len(Mem(x, "attributes").n) |-> [n |-> Mem(x, "attributes").n[k], s |-> Mem(x, "attributes").m[k].s]],
      c |-> [k \in 1..Len(KidsV(x)) |-> Mem(KidsV(x)[k], "index").x \div 4]]]
InfoOf(v) == LET w == Mem(v, "ws_info") IN
  [name |-> Mem(v, "full_name").s,
   vars |-> [k \in 1..Len(w.n) |-> [n |-> w.n[k], t |-> Mem(w.m[k], "type").s,
              a |-> [j \in 1..Len(Mem(w.m[k], "attributes").n) |-> [n |-> Mem(w.m[k], "attributes").n[j], s |-> Mem(w.m[k], "attributes").m[j].s]]]],
   instr |-> InstrOf(Mem(v, "instr_tree_info"))]
\* the root indices are only right when the root has index 0
RootFirst(v) == Mem(Mem(v, "instr_tree_info"), "index").x = 0
InsertAt(s, k, e) == SubSeq(s, 1, k) \o <<e>> \o SubSeq(s, k + 1, Len(s))
Without(s, k) == SubSeq(s, 1, k) \o SubSeq(s, k + 2, Len(s))
Same == UNCHANGED <<p, n, ready>>
TNext ==
  /\ \/ /\ Is("parse") /\ E.ok = (T.wf /\ ReadOK(T.x))
        /\ E.ok => E.p = Read(T.x)
        /\ p' = E.p /\ UNCHANGED <<n, ready>>
     \/ Is("root") /\ E.at = RootOf(p.tops) /\ E.n = Len(p.tops) /\ Same
     \/ /\ Is("insert") /\ E.ok = (E.at >= 0 /\ E.at <= Len(p.tops))
        /\ p' = IF E.ok THEN [p EXCEPT !.tops = InsertAt(@, E.at, Node(E.e))] ELSE p
        /\ UNCHANGED <<n, ready>>
     \/ /\ Is("take") /\ E.ok = (E.at >= 0 /\ E.at < Len(p.tops)) /\ E.n = (IF E.ok THEN p.tops[E.at + 1] ELSE NoNode)
        /\ p' = IF E.ok THEN [p EXCEPT !.tops = Without(@, E.at)] ELSE p
        /\ UNCHANGED <<n, ready>>
     \/ /\ Is("addvar") /\ E.ok = ~\E k \in 1..Len(p.vars) : p.vars[k].n = E.n
        /\ p' = IF E.ok THEN [p EXCEPT !.vars = Append(@, [n |-> E.n, t |-> E.t, a |-> E.a])] ELSE p
        /\ UNCHANGED <<n, ready>>
     \/ /\ Is("write")
        /\ LET q == IF ready THEN [p EXCEPT !.tops[RootOf(p.tops)] = n] ELSE p IN
           E.x = Write(q) /\ E.ok /\ E.p = Read(E.x) /\ E.p = [q EXCEPT !.vars = [k \in 1..Len(@) |-> [@[k] EXCEPT !.a = Named(q.vars[k])]]]
        /\ Same
     \/ /\ Is("setup")
        /\ LET r == Setup(Sys) IN E.ok = r.ok /\ (E.ok => E.n = r.n) /\ n' = r.n
        /\ ready' = E.ok /\ UNCHANGED p
     \/ Is("info") /\ E.d.order /\ Described(E.d) = Describe(p, T.main, n) /\ Same
     \/ Is("map") /\ E.ok /\ E.idx = Pre(Instructions(n), 0) /\ E.vidx = [k \in 1..Len(p.vars) |-> k - 1] /\ Same
     \/ Is("wire") /\ E.v = InfoV(Describe(p, T.main, n)) /\ Same
     \/ /\ Is("unwire") /\ E.ok = InfoVOK(E.v) /\ E.tree = (HasM(E.v, "instr_tree_info") /\ TreeVOK(Mem(E.v, "instr_tree_info")))
        /\ E.ok => Described(E.d) = InfoOf(E.v) /\ E.d.order = RootFirst(E.v)
        /\ Same
     \/ Is("end") /\ Same
  /\ UNCHANGED avars
  /\ Consume
TSpec == TInit /\ [][TNext]_tvars
==============================================================================
