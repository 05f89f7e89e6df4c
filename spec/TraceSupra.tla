------------------------------ MODULE TraceSupra -----------------------------
EXTENDS TraceBase, MLMatrix

BadMatrix(st, o, inter) ==
  IF ~RowsOK(st, o.rows) THEN {F("rows", o.rows)}
  ELSE IF MatrixOK(st, o.rows, o.m, inter) THEN {}
  ELSE {F(IF inter THEN "matrix" ELSE "matrix-without-couplings", o)}
BadSupra(x) ==
  LET st == NetOf(x.net) o == x.obs
  IN UNION {BadMatrix(st, o.full, TRUE), BadMatrix(st, o.intra, FALSE), BadMatrix(st, o.fn, TRUE), BadMatrix(st, o.fnintra, FALSE),
            BadNet("input", st, o.after)}
=============================================================================
