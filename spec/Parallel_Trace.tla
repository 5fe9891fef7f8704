---- MODULE Parallel_Trace ----
(* Region: the access records of every word that several threads touched in one region of the code and some thread changed (cls: the distinct ones).
   Field: a quantity of the model computed with T threads under some schedule, against the same quantity computed by one thread.
   Rows: the rows of an assembled matrix (row starts, columns) with T threads, against one thread. *)
EXTENDS Parallel, TraceLib
VARIABLE i
e == Trace[i]
Region == \A k \in 1..Len(e.cls) : ChkV("no schedule of a parallel region can change a value", Harmless(e.cls[k]), <<e.site, e.cls[k]>>)
Field == /\ ChkV("same number of values", Len(e.a) = Len(e.b), <<e.name, Len(e.a), Len(e.b)>>)
         /\ \A k \in 1..Len(e.a) : ChkV("values do not depend on threads", IF e.exact = 1 THEN e.a[k] = e.b[k] ELSE Near(e.a[k], e.b[k], e.tol), <<e.name, e.step, k, e.a[k], e.b[k]>>)
Done == ChkV("the run ends as with one thread", e.rc = e.rc1 /\ e.n = e.n1, <<e.rc, e.rc1, e.n, e.n1>>)
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ (CASE e.e = "Region" -> Region [] e.e = "Field" -> Field [] e.e = "Done" -> Done) = TRUE
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
====
