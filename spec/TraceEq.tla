------------------------------- MODULE TraceEq -------------------------------
(***************************************************************************)
(* Comparison and pickling of networks (C08).                              *)
(***************************************************************************)
EXTENDS TraceBase

B(b) == IF b THEN 1 ELSE 0
BadEq(x) ==
  LET s == NetOf(x.a)
      t == NetOf(x.b)
      same == SameStructure(s, t)
      o == x.obs
  IN UNION {
       Is("eq", o.eq = B(same), <<"a == b is", o.eq, "expected", same>>),
       Is("eq-symmetric", o.eqr = B(same), <<"b == a is", o.eqr, "expected", same>>),
       Is("ne", o.ne = B(~same) /\ o.ner = B(~same), <<o.ne, o.ner, same>>),
       Is("eq-reflexive", o.refl = 1, o.refl),
       Is("eq-other-type", o.eqint = 0 /\ o.neint = 1, o.eqint),
       \* equal networks have equal hashes; multiplex networks have none
       Is("hash", (same => o.hash # 0) /\ (s.kind = "ml" /\ t.kind = "ml" => o.hash # 2), o.hash),
       Is("hash-of-copy", o.phash = (IF s.kind = "ml" THEN 1 ELSE o.phash) /\ o.phash # 0, o.phash),
       Is("pickle-equal", o.pick = 1 /\ o.picknot = 0, o.pick),
       BadNet("pickle", s, o.pnet),
       Is("pickle-independent", o.pchanged = 1, o.pchanged),
       BadNet("pickle-original", s, o.anet)
     }
=============================================================================
