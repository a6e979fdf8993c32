--------------------------- MODULE AttributesTrace ---------------------------
EXTENDS Attributes, TraceLib
VARIABLES host, type, kids
tvars == <<avars, host, type, kids, tid, l>>
BaseDefs(h, t) == CASE h = "handler" -> <<>>
                    [] h = "instr" -> <<NameDef, Def("isRoot", "bool", FALSE, "lit")>>
                    [] h = "var" -> <<NameDef>>
                    [] h = "real" -> AllDefs(t)
                    [] OTHER -> AllVarDefs(t)
BaseCons(h, t) == CASE h = "real" -> Catalog[t].c [] h = "realvar" -> VarCatalog[t].c [] OTHER -> <<>>
TInit == /\ StartTrace /\ host = Traces[tid].host /\ type = Traces[tid].type
         /\ defs = BaseDefs(host, type) /\ cons = BaseCons(host, type) /\ attrs = <<>> /\ kids = 0
KidRule == IF host = "real" THEN Catalog[type].kids ELSE "none"
Enough == CASE KidRule = "many" -> kids >= 1 [] KidRule = "one" -> kids = 1 [] OTHER -> TRUE
\* what else has to be right, which is not known here: files, types and values
More2 == type \in {"Include", "IncludeProcedure", "CopyFromProcedure", "CopyToProcedure"} \/ (type = "Local" /\ HasA(attrs, "type"))
AsSet(s) == {s[k] : k \in 1..Len(s)}
TNext ==
  /\ \/ Is("def") /\ Define(E.n, E.t, E.m, E.c, E.ok)
     \/ Is("con") /\ Constrain(E.c)
     \/ Is("add") /\ Add(E.n, E.s, E.ok)
     \/ Is("addall") /\ AddMany(E.l, E.ok)
     \/ Is("set") /\ Set(E.n, E.s, host = "handler", E.ok)
     \/ Is("has") /\ E.ok = HasA(attrs, E.n) /\ E.s = TextOf(attrs, E.n) /\ UNCHANGED avars
     \/ Is("list") /\ E.l = attrs /\ UNCHANGED avars
     \/ Is("defs") /\ (IF host \in {"real", "realvar"} THEN AsSet(E.l) = AsSet(defs) /\ Len(E.l) = Len(defs) ELSE E.l = defs) /\ UNCHANGED avars
     \/ Is("validate") /\ Validate(E.ok, E.failed)
     \/ Is("accept") /\ (IF E.ok THEN Valid(defs, cons, attrs) /\ Enough ELSE ~Valid(defs, cons, attrs) \/ ~Enough \/ More2) /\ UNCHANGED avars
     \/ Is("value") /\ Literal(E.n, E.ok, E.v)
     \/ Is("get") /\ Resolved(Traces[tid].mem, E.n, E.ok, E.v)
     \/ Is("fill") /\ Placeholders(E.l, E.ok)
     \/ Is("types") /\ DOMAIN Catalog \subseteq AsSet(E.l) /\ DOMAIN VarCatalog \subseteq AsSet(E.vars) /\ UNCHANGED avars
     \/ Is("kid") /\ E.ok = (KidRule = "many" \/ (KidRule = "one" /\ kids = 0)) /\ UNCHANGED avars
     \/ Is("end") /\ UNCHANGED avars
  /\ kids' = IF Is("kid") /\ E.ok THEN kids + 1 ELSE kids
  /\ UNCHANGED <<host, type>>
  /\ Consume
TSpec == TInit /\ [][TNext]_tvars
==============================================================================
