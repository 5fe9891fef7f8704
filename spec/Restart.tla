------------------------------- MODULE Restart -------------------------------
(* What a run carries from one time step to the next, what the restart file keeps of it, and how the quantities of a step depend on each other.   *)
(* A run resumed from a file continues as if it had not been stopped exactly when nothing that a later step reads is missing from the file: the   *)
(* model tracks the set of quantities that may differ between the resumed and the uninterrupted run ("tainted").                                   *)
EXTENDS Integers, Sequences, FiniteSets
Switches == {"elastic", "thermal", "surface", "finite", "aniso", "track", "variable", "melt", "reseed", "moving"}
Always == "always"
(* quantities alive between steps, with the switch that makes them matter *)
Carried == {
  <<"dt", Always>>, <<"time", Always>>, <<"box", Always>>, <<"L0", Always>>,
  <<"x", Always>>, <<"phase", Always>>, <<"dual", Always>>, <<"noise", Always>>, <<"P", Always>>, <<"T", Always>>, <<"rho", Always>>, <<"phi", "melt">>, <<"X", Always>>, <<"d", Always>>, <<"divth", Always>>,
  <<"stress", "elastic">>, <<"strain", Always>>, <<"F", "finite">>, <<"n", "aniso">>, <<"tracks", "track">>,
  <<"velocity", Always>>, <<"pressure", Always>>, <<"plith", Always>>, <<"effvisc", "elastic">>, <<"flags", "surface">>, <<"counts", Always>>,
  <<"chain", "surface">>, <<"active", "surface">>, <<"height", "surface">>, <<"series", Always>> }
On(sw, c) == c = Always \/ c \in sw
State(sw) == {p[1] : p \in {q \in Carried : On(sw, q[2])}}
(* what the file holds; the activity of the surface markers is not stored but follows from their positions and the box *)
Stored(sw) == State(sw) \ {"active"}
Derived == <<<<"active", {"chain", "box"}>>>>
(* one time step as a sequence of assignments: target, sources, switch *)
Step == <<
  <<"phase",    {"phase", "T", "P"}, Always>>,                                        \* transmutation
  <<"dt",       {"dt", "velocity", "box"}, "variable">>,
  <<"time",     {"time", "dt"}, Always>>,
  <<"phase",    {"phase", "x", "height"}, "surface">>,                                \* markers above the surface are removed
  <<"flags",    {"height", "box"}, "surface">>,
  <<"props",    {"phase", "dual", "x", "T", "P", "phi", "X", "d", "strain", "noise", "divth", "rho", "box"}, Always>>,
  <<"props",    {"props", "flags", "height"}, "surface">>,
  <<"props",    {"props", "stress", "effvisc", "dt"}, "elastic">>,
  <<"props",    {"props", "n", "x"}, "aniso">>,
  <<"props",    {"props", "F", "x"}, "finite">>,
  <<"plith",    {"props", "box"}, Always>>,
  <<"velocity", {"velocity", "pressure", "props", "plith", "box", "L0", "dt"}, Always>>,  \* the solution, from the old one as first guess
  <<"pressure", {"velocity", "props"}, Always>>,
  <<"effvisc",  {"velocity", "props"}, Always>>,
  <<"height",   {"height", "velocity"}, "surface">>,
  <<"stress",   {"stress", "velocity", "props", "x", "dt"}, "elastic">>,
  <<"P",        {"P", "pressure", "x"}, Always>>,
  <<"d",        {"d", "velocity", "props", "x"}, Always>>,
  <<"phi",      {"phi", "T", "P", "props"}, "melt">>,
  <<"T",        {"T", "props", "velocity", "dt", "x"}, "thermal">>,
  <<"rho",      {"T", "P", "props", "phi"}, Always>>,
  <<"divth",    {"rho", "dt"}, Always>>,
  <<"tracks",   {"tracks", "T", "P"}, "track">>,
  <<"series",   {"series", "time", "velocity", "pressure", "T", "stress"}, Always>>,
  <<"box",      {"box", "velocity", "dt"}, "moving">>,
  <<"x",        {"x", "velocity", "dt", "phase"}, Always>>,
  <<"strain",   {"strain", "velocity", "props", "dt", "x"}, Always>>,
  <<"F",        {"F", "velocity", "dt", "x"}, "finite">>,
  <<"n",        {"n", "velocity", "dt", "x"}, "aniso">>,
  <<"chain",    {"chain", "active", "velocity", "dt"}, "surface">>,
  <<"active",   {"chain", "box"}, "surface">>,
  <<"height",   {"chain", "active", "box"}, "surface">>,
  <<"phase",    {"phase", "x", "box"}, Always>>,                                     \* markers that left
  <<"phase",    {"phase", "x", "counts"}, "reseed">>,
  <<"counts",   {"x", "phase", "box"}, Always>>,
  <<"flags",    {"height", "box"}, "surface">>
>>
Assign(sw, op, tainted) == IF ~On(sw, op[3]) THEN tainted
                           ELSE IF op[2] \cap tainted \cap (State(sw) \cup {"props"}) # {} THEN tainted \cup {op[1]} ELSE tainted \ {op[1]}
RECURSIVE Through(_, _, _)
Through(sw, ops, tainted) == IF ops = <<>> THEN tainted ELSE Through(sw, Tail(ops), Assign(sw, Head(ops), tainted))
(* what may be wrong right after loading, given what the file kept *)
AfterLoad(sw, kept) ==
  LET missing == State(sw) \ kept
      derived == {Derived[k][1] : k \in {j \in DOMAIN Derived : Derived[j][2] \cap missing = {}}}
  IN missing \ derived
(* does quantity q reach the user's files *)
Observable(sw) == State(sw)
(* two recordings of the same quantity agree: lists of numbers in units of the larger one *)
Abs(x) == IF x < 0 THEN -x ELSE x
Agree(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k] \/ (a[k] \in Int /\ b[k] \in Int /\ Abs(a[k] - b[k]) <= tol)
(* the activity of a surface marker is what its position says, which is what lets the file leave it out *)
ActiveByPlace(x, ph, lo, hi) == \A k \in 1..Len(x) : (ph[k] = -1) = (x[k] < lo \/ x[k] > hi)
=============================================================================
