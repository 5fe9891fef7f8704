---------------------------- MODULE Output_Trace ----------------------------
(* One run and the files it left.  Run: sw, sc (log2 of the four characteristic values), n, units.  File: kind, step, ok, names, np, nc.  Data: name, the     *)
(* model's values at the moment of writing (src) and the file's (v).  Params: header.  Axis, Picture: the phase maps.  Series, Mean: the time series.          *)
(* Numbers are <<mantissa, exponent>> of the single-precision value.                                                                                          *)
EXTENDS Output, TraceLib, Util
VARIABLES i, r, f, seen, ser
e == Trace[i]
ToSet(s) == {s[j] : j \in 1..Len(s)}
Null == [kind |-> "none", step |-> -1]
Init == i = 1 /\ r = [sw |-> {}] /\ f = Null /\ seen = {} /\ ser = <<>>
Run == /\ r' = [sw |-> ToSet(e.sw), sc |-> e.sc, n |-> e.n, Nt |-> e.Nt, nit |-> e.nit] /\ f' = Null /\ seen' = {} /\ ser' = <<>>
       /\ (\A k \in 1..Len(Units) : ChkV("a characteristic value follows from the four given ones", e.units[k] = <<8388608, Shift(Units[k], e.sc) - 23>>, <<k, e.units[k]>>)) = TRUE
File == /\ (ChkV("the file can be read", e.ok = 1, <<e.kind, e.step>>)) = TRUE
        /\ (ChkV("the file holds what the switches ask for", ToSet(e.names) = Names(e.kind, r.sw), <<"missing", Names(e.kind, r.sw) \ ToSet(e.names), "unexpected", ToSet(e.names) \ Names(e.kind, r.sw)>>)) = TRUE
        /\ f' = [kind |-> e.kind, step |-> e.step, np |-> e.np, nc |-> e.nc, t |-> e.t] /\ seen' = {} /\ UNCHANGED <<r, ser>>
Data == LET w == Entry(f.kind, e.name) IN
        /\ (ChkV("source of a dataset", w.src = e.from /\ w \in Active(f.kind, r.sw), <<e.name, e.from>>)) = TRUE
        /\ (ChkV("a dataset covers its nodes", Len(e.v) = Size(w.k, r.n, f.np, f.nc), <<e.name, Len(e.v)>>)) = TRUE
        /\ (ChkV("a dataset holds the state in SI units", SameScaled(e.v, IF e.name \in DOMAIN AirValue THEN [k \in 1..Len(e.s) |-> IF f.t[k] = 30 THEN Scaled(AirValue[e.name], -Shift(w.d, r.sc)) ELSE e.s[k]] ELSE e.s, Shift(w.d, r.sc)), <<e.name, f.step>>)) = TRUE
        /\ seen' = seen \cup {e.name} /\ UNCHANGED <<r, f, ser>>
Header == /\ (\A k \in 1..8 : ChkV("the header holds the state in SI units", Len(e.v) = 8 /\ e.v[k] = Scaled(e.s[k], Shift(Params[k], r.sc)), <<k, e.v, e.s>>)) = TRUE
          /\ seen' = seen \cup {"Model/Params"} /\ UNCHANGED <<r, f, ser>>
Axis == /\ (ChkV("picture axis", Len(e.v) = Size(e.k, r.n, 0, 0) /\ \A k \in 1..Len(e.v) : Near(e.v[k] * e.f, (k - 1) * 1000, 3 * e.f), <<e.name, e.v>>)) = TRUE
        /\ seen' = seen \cup {e.name} /\ UNCHANGED <<r, f, ser>>
(* m: markers <<x, z, value>>; t: cell types *)
Near1(v, ff) == LET q == (v * ff) \div 1000 IN {q} \cup (IF (v * ff) % 1000 <= 2 * ff THEN {q - 1} ELSE {}) \cup (IF (v * ff) % 1000 >= 1000 - 2 * ff THEN {q + 1} ELSE {})
Clip(s, n) == {IF x < 0 THEN 0 ELSE IF x > n - 1 THEN n - 1 ELSE x : x \in s}
Bins(m, ff, n) == [k \in 1..Len(m) |-> <<Clip(Near1(m[k][1], ff), n[1]), Clip(Near1(m[k][2], ff), n[2])>>]
Rock(t, p, q, nx) == t[1 + p + q * nx] \notin {30, 31}
Colour(m, t, ff, v) ==
  LET nc == <<r.n[1] - 1, r.n[2] - 1>>  nf == <<ff * nc[1], ff * nc[2]>>
  IN \A b \in {Bins(m, ff, nf)} : \A g \in {Bins(m, 1, nc)} :
     \A live \in {[k \in 1..Len(m) |-> {Rock(t, p, q, nc[1]) : p \in g[k][1], q \in g[k][2]}]} :
     Len(v) = nf[1] * nf[2] /\ \A p \in 0..nf[1]-1, q \in 0..nf[2]-1 :
       LET may == {k \in 1..Len(m) : p \in b[k][1] /\ q \in b[k][2] /\ TRUE \in live[k]}
           must == {k \in may : b[k] = <<{p}, {q}>> /\ live[k] = {TRUE}}
           W(k) == Weight(m[k][1], m[k][2], p, q, ff)
           best == {k \in may : \A h \in must : W(k) >= W(h) - 30000}
           x == v[1 + p + q * nf[1]]
       IN ChkV("the picture shows the phase nearest to the middle of the cell", (x = -1 /\ must = {}) \/ x \in {m[k][3] : k \in best}, <<e.name, p, q, x>>)
Picture == (Colour(e.m, e.t, e.f, e.v)) = TRUE /\ seen' = seen \cup {e.name} /\ UNCHANGED <<r, f, ser>>
(* the time series grow by one entry per step and keep what they had *)
SeriesDim(s) == IF s = "Time_time" THEN Time ELSE IF s = "Short_time" THEN One ELSE IF s = "T_mean_time" THEN Temp ELSE IF s \in {"exxd_mean_time", "ezzd_mean_time", "exz_mean_time", "Eii_mean_time"} THEN Rate ELSE Stress
Get(s) == LET h == {k \in 1..Len(ser) : ser[k][1] = s} IN IF h = {} THEN <<>> ELSE ser[CHOOSE k \in h : TRUE][2]
Set(s, v) == SelectSeq(ser, LAMBDA x : x[1] # s) \o <<<<s, v>>>>
SeriesEv == /\ (ChkV("the series has an entry per step", Len(e.v) = r.Nt + 1, <<e.name, Len(e.v)>>)) = TRUE
            /\ (\A old \in {Get(e.name)} : \A k \in 1..Len(old) : ChkV("the series keeps its history", e.v[k] = old[k], <<e.name, k, f.step>>)) = TRUE
            /\ (\A k \in 1..Len(e.v) : ChkV("nothing is logged for steps to come", k - 1 <= f.step \/ e.v[k][1] = 0, <<e.name, k, f.step>>)) = TRUE
            /\ ser' = Set(e.name, SubSeq(e.v, 1, f.step + 1)) /\ seen' = seen \cup {"TimeSeries/" \o e.name} /\ UNCHANGED <<r, f>>
(* values as whole multiples of 2^u *)
RECURSIVE Pow2(_)
Pow2(k) == IF k <= 0 THEN 1 ELSE 2 * Pow2(k - 1)
Fix(v, k, u) == LET s == u + k - v[2] IN IF v[1] = 0 THEN 0 ELSE IF s >= 31 THEN 0 ELSE IF s >= 0 THEN (IF v[1] >= 0 THEN v[1] \div Pow2(s) ELSE -((-v[1]) \div Pow2(s))) ELSE IF s >= -6 THEN v[1] * Pow2(-s) ELSE 2000000000
RECURSIVE ISqrt(_, _)
ISqrt(x, g) == IF x <= 0 THEN 0 ELSE LET h == (g + x \div g) \div 2 IN IF Abs(h - g) <= 1 THEN h ELSE ISqrt(x, h)
MeanEv == LET q == Get(e.name)  live == {k \in 1..Len(e.t) : e.t[k] \notin {30, 31}}
              RECURSIVE Sum(_, _)
              Sum(v, k) == IF k = 0 THEN 0 ELSE (IF k \in live THEN v[k] ELSE 0) + Sum(v, k - 1)
              nx == r.n[1]
              mid(g, k) == LET p == (k - 1) % (nx - 1)  l == (k - 1) \div (nx - 1) IN (g[1 + p + l*nx] + g[2 + p + l*nx] + g[1 + p + (l+1)*nx] + g[2 + p + (l+1)*nx]) \div 4
              inv(k) == LET a == e.a[k]  b == e.b[k]  m == mid(e.g, k) IN ISqrt((a * a + b * b) \div 2 + m * m, 8192)
              vals == IF e.op = "cell" THEN e.a ELSE IF e.op = "mid" THEN [k \in 1..Len(e.t) |-> mid(e.g, k)] ELSE [k \in 1..Len(e.t) |-> IF k \in live THEN inv(k) ELSE 0]
          IN /\ (\A vv \in {vals} : ChkV("the series logs the mean over the rock cells", Near(Fix(q[e.step + 1], Shift(SeriesDim(e.name), r.sc), e.u) * Cardinality(live), Sum(vv, Len(vv)), 6 * Cardinality(live)), <<e.name, e.step, q[e.step + 1], Sum(vv, Len(vv)), Cardinality(live)>>)) = TRUE
             /\ UNCHANGED <<r, f, seen, ser>>
Clock == /\ (ChkV("the series logs the time", Get("Time_time")[e.step + 1] = Scaled(e.time, Shift(Time, r.sc)), e.step)) = TRUE
         /\ (ChkV("the series logs the shortening in percent", Near(e.short * e.w0, 100000 * (e.w0 - e.w), 300000), <<e.step, e.short, e.w0, e.w>>)) = TRUE
         /\ UNCHANGED <<r, f, seen, ser>>
End == (ChkV("every dataset was compared", Names(f.kind, r.sw) \ seen \subseteq {"Model/Description", "Iterations/rx_abs", "Iterations/rz_abs", "Iterations/rp_abs", "Iterations/LogIsNewtonStep", "Iterations/NumberSteps"}, Names(f.kind, r.sw) \ seen)) = TRUE /\ UNCHANGED <<r, f, seen, ser>>
Done == (ChkV("every due file was written", e.have = e.due, <<e.have, e.due>>)) = TRUE /\ UNCHANGED <<r, f, seen, ser>>
Next == i <= Len(Trace) /\ i' = i + 1 /\ (CASE e.e = "Run" -> Run [] e.e = "File" -> File [] e.e = "Data" -> Data [] e.e = "Params" -> Header [] e.e = "Axis" -> Axis [] e.e = "Picture" -> Picture [] e.e = "Series" -> SeriesEv [] e.e = "Mean" -> MeanEv [] e.e = "Clock" -> Clock [] e.e = "End" -> End [] OTHER -> Done)
Spec == Init /\ [][Next]_<<i, r, f, seen, ser>>
=============================================================================
