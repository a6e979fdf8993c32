------------------------------- MODULE Memory --------------------------------
(***************************************************************************)
(* The variables of a workspace as instructions see them when nobody else  *)
(* uses them: M is a function from names to [dyn, val]. dyn: the variable  *)
(* takes over the type of what is written to it.                           *)
(***************************************************************************)
EXTENDS Values
MGet(M, name, path, target) ==
  IF name \notin DOMAIN M THEN Fail(target)
  ELSE LET v == M[name].val IN
       IF IsEmpty(v) THEN Fail(target)
       ELSE IF ~HasField(v, path) THEN Fail(target)
       ELSE AssignIfEmptyOrConvert(target, Field(v, path))
MSetWhole(w, v) == IF w.dyn THEN Done(v) ELSE AssignIfEmptyOrConvert(w.val, v)
\* [ok, v]: v is what the whole variable then holds
MSet(M, name, path, v) ==
  IF name \notin DOMAIN M THEN Fail(EmptyV)
  ELSE LET w == M[name] IN
       IF path = <<>> THEN MSetWhole(w, v)
       ELSE IF IsEmpty(w.val) \/ ~HasField(w.val, path) THEN Fail(w.val)
       ELSE LET r == SetField(w.val, path, v, FALSE) IN IF r.ok THEN MSetWhole(w, r.v) ELSE Fail(w.val)
\* the memory after the attempt
MWrite(M, name, path, v) == LET r == MSet(M, name, path, v) IN IF r.ok THEN [M EXCEPT ![name].val = r.v] ELSE M
===============================================================================
