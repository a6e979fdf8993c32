---------------------------- MODULE RegistryTrace -----------------------------
(* Registries 1, 2: of instructions; 3, 4: of variables; 5, 6: the global      *)
(* ones, with the built-in kinds and one of a plugin each.                     *)
EXTENDS Attributes, Registry, TraceLib
Same(names) == [k \in names |-> k]
TInit == StartTrace /\ defs = <<>> /\ cons = <<>> /\ attrs = <<>> /\ reg = <<Empty, Empty, Empty, Empty, Same(DOMAIN Catalog \union {"Plug"}), Same(DOMAIN VarCatalog \union {"Plug"})>>
TNext ==
  /\ Consume /\ UNCHANGED <<defs, cons, attrs>>
  /\ \/ Is("register") /\ Register(E.r, E.n, E.w, E.ok)
     \/ Is("create") /\ Create(E.r, E.n, E.ok, E.w)
     \/ Is("known") /\ Known(E.r, E.n, E.ok)
     \/ Is("names") /\ Names(E.r, E.names)
     \/ Is("copy") /\ Copied(E.r, E.s)
     \/ Is("end") /\ UNCHANGED reg
TSpec == TInit /\ [][TNext]_<<reg, defs, cons, attrs, tid, l>>
================================================================================
