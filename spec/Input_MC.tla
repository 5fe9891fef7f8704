---- MODULE Input_MC ----
(* A reader that works through the file line by line with one file position, answering requests one after the other
   (for a run parameter or for a constant of a phase), compared with the meaning of the file for every small file and every sequence of requests. *)
EXTENDS Input, TLC
CONSTANTS MaxLines, Rewinds, Exact, WholeFile, StopsAtId
VARIABLES f, req, pos, inblock, res, done
vars == <<f, req, pos, inblock, res, done>>
Lines == {[k |-> "set", n |-> n, v |-> v] : n \in {"a", "ab"}, v \in {1, 2}} \cup {[k |-> "id", n |-> "", v |-> p] : p \in {0, 1}} \cup {[k |-> "text", n |-> "", v |-> 0]}
None == [t |-> "none", n |-> "", p |-> 0]
Requests == {[t |-> "run", n |-> n, p |-> 0] : n \in {"a", "ab"}} \cup {[t |-> "phase", n |-> "a", p |-> p] : p \in {0, 1}}
Default == 9
Matches(want, have) == want = have \/ (~Exact /\ want = "a" /\ have = "ab")
Init == f = <<>> /\ req = None /\ pos = 0 /\ inblock = FALSE /\ res = Default /\ done = 0
Grow == req = None /\ done = 0 /\ Len(f) < MaxLines /\ \E l \in Lines : f' = Append(f, l) /\ UNCHANGED <<req, pos, inblock, res, done>>
Ask == /\ req = None /\ done < 2
       /\ \E q \in Requests : (q.t = "phase" => HasPhase(f, q.p)) /\ req' = q
       /\ pos' = IF Rewinds THEN 0 ELSE pos
       /\ inblock' = FALSE /\ res' = Default /\ UNCHANGED <<f, done>>
AtEnd == pos >= (IF WholeFile THEN Len(f) ELSE Len(f) - 1)
Answer(v, at) == res' = v /\ req' = [req EXCEPT !.t = "answered-" \o req.t] /\ pos' = at /\ UNCHANGED <<f, inblock, done>>
Read == /\ req.t \in {"run", "phase"}
        /\ IF AtEnd THEN Answer(Default, 0)
           ELSE LET l == f[pos + 1] IN
             IF l.k = "set" /\ Matches(req.n, l.n) /\ (req.t = "run" \/ inblock) THEN Answer(l.v, pos + 1)
             ELSE IF l.k = "id" /\ req.t = "phase" /\ inblock /\ StopsAtId THEN Answer(Default, pos + 1)
             ELSE /\ pos' = pos + 1 /\ inblock' = (inblock \/ (l.k = "id" /\ req.t = "phase" /\ l.v = req.p))
                  /\ UNCHANGED <<f, req, res, done>>
Next1 == req.t \in {"answered-run", "answered-phase"} /\ req' = None /\ done' = done + 1 /\ res' = Default /\ UNCHANGED <<f, pos, inblock>>
Next == Grow \/ Ask \/ Read \/ Next1
Spec == Init /\ [][Next]_vars /\ WF_vars(Read)
ReadsWhatIsWritten == /\ req.t = "answered-run" => res = RunValue(f, req.n, Default)
                      /\ req.t = "answered-phase" => res = PhaseValue(f, req.p, req.n, Default)
(* meaning itself: comments and the order of the run parameters do not matter *)
NoText(g) == SelectSeq(g, LAMBDA l : l.k # "text")
CommentsDoNotMatter == req = None => \A n \in {"a", "ab"} : RunValue(f, n, Default) = RunValue(NoText(f), n, Default)
Swap(g, i) == [j \in 1..Len(g) |-> IF j = i THEN g[i + 1] ELSE IF j = i + 1 THEN g[i] ELSE g[j]]
OrderDoesNotMatter == req = None => \A i \in 1..Len(f) - 1 : ~(f[i].k = "set" /\ f[i + 1].k = "set" /\ f[i].n = f[i + 1].n) =>
   \A n \in {"a", "ab"} : RunValue(f, n, Default) = RunValue(Swap(f, i), n, Default)
BlocksAreSeparate == req = None => \A p \in {0, 1} : HasPhase(f, p) => \A n \in {"a", "ab"} :
   LET s == First(Starts(f, p)) IN PhaseValue(f, p, n, Default) = ValueIn(SubSeq(f, s, BlockEnd(f, s)), n, 1, BlockEnd(f, s) - s + 1, Default)
Answers == (req.t \in {"run", "phase"}) ~> (req.t \notin {"run", "phase"})
(* units are consistent: the derived scales multiply as the dimensions they carry *)
Scales == {<<1, 2, 3, 4>>, <<-3, 5, 7, 2>>}
ASSUME \A sc \in Scales : /\ Unit(<<1, -1, -1, 0>>, sc) = sc[1] /\ Unit(DL, sc) = sc[2] /\ Unit(<<0, 1, -1, 0>>, sc) = sc[3] /\ Unit(<<0, 0, 0, 1>>, sc) = sc[4]
                          /\ Unit(DPa, sc) + Unit(DT, sc) = sc[1] /\ Unit(<<1, -3, 0, 0>>, sc) + Unit(<<0, 1, -2, 0>>, sc) + Unit(DL, sc) = Unit(DPa, sc)
ASSUME CloseN(Times(<<536870912, 1>>, 5), Norm(5, 30), 4) /\ IntOf(Norm(37, 30)) = 37 /\ CloseN(Span(Norm(-3, 30), Norm(5, 30)), Norm(8, 30), 4) /\ Less(Norm(3, 30), Norm(4, 30)) /\ ~Less(Norm(4, 30), Norm(4, 30))
====
