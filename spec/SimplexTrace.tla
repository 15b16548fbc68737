---------------------------- MODULE SimplexTrace ----------------------------
(* Evaluations recorded from the real minimiser (points in a fine integer     *)
(* grid, function values as integers) against the Nelder-Mead moves.          *)
EXTENDS TraceLib, Simplex
VARIABLES l, bad, c, cand, phase, rest, n, it, minv, told
vars == <<l, bad, c, cand, phase, rest, n, it, minv, told>>
\* cand: the simplices consistent with the record so far (ties leave a choice);
\* each is [V vertices, w vertex being replaced, r reflected point, b best
\* vertex of a shrink, todo vertices still to shrink]
Ev == Trace[l]
None == [x |-> <<>>, f |-> 0]
Empty == [V |-> <<>>, w |-> 0, r |-> None, b |-> 0, todo |-> {}]
Init == /\ l = 1 /\ bad = <<>> /\ c = <<>> /\ cand = {Empty} /\ phase = "none"
        /\ rest = {} /\ n = 0 /\ it = 1 /\ minv = 0 /\ told = <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
N == c.n
Fv(V) == [i \in 1..Len(V) |-> V[i].f]
One == CHOOSE s \in cand : TRUE
F == Fv(One.V)
RECURSIVE SumX(_, _, _, _)
SumX(V, S, k, acc) == IF S = {} THEN acc ELSE LET i == CHOOSE j \in S : TRUE IN
                      SumX(V, S \ {i}, k, acc + V[i].x[k])
S(V, w, k) == SumX(V, (1..Len(V)) \ {w}, k, 0)
Tol == 4 * N + 4
IsReflect(x, V, w) == \A k \in 1..N : Abs(N * x[k] - (2 * S(V, w, k) - N * V[w].x[k])) <= Tol
IsExpand(x, V, w) == \A k \in 1..N : Abs(N * x[k] - (3 * S(V, w, k) - 2 * N * V[w].x[k])) <= Tol
IsOutside(x, V, w) == \A k \in 1..N : Abs(2 * N * x[k] - (3 * S(V, w, k) - N * V[w].x[k])) <= Tol
IsInside(x, V, w) == \A k \in 1..N : Abs(2 * N * x[k] - (S(V, w, k) + N * V[w].x[k])) <= Tol
IsShrunk(x, V, b, j) == \A k \in 1..N : Abs(2 * x[k] - (V[b].x[k] + V[j].x[k])) <= 4
IsStart(x, j) == \A k \in 1..N :
  IF k # j THEN Abs(x[k] - c.x0[k]) <= 1
  ELSE IF c.x0[k] = 0 THEN Abs(x[k] - c.zd) <= 2
  ELSE Abs(20 * x[k] - 21 * c.x0[k]) <= 40
\* convergence: relative spread of vertices and values at most xtol, ftol
\* (in units of 1/1000) relative to a best vertex; sl > 0 relaxes, < 0 tightens
Frac(y) == (y \div 100) * c.xt + (((y % 100) * c.xt) \div 100)
Conv(V, sl) == \E b \in Argmin(Fv(V)) :
  /\ \A i \in 1..Len(V) : \A k \in 1..N :
       Abs(V[i].x[k] - V[b].x[k]) * 10 <= Frac(Abs(V[b].x[k])) + sl
  /\ \A i \in 1..Len(V) : Abs(V[i].f - V[b].f) * 1000 <= Abs(V[b].f) * c.ft
\* surely converged, whichever best vertex it is relative to
SureConv(V, sl) == \A b \in Argmin(Fv(V)) :
  /\ V[b].f # 0 /\ \A k \in 1..N : V[b].x[k] # 0
  /\ \A i \in 1..Len(V) : \A k \in 1..N :
       Abs(V[i].x[k] - V[b].x[k]) * 10 <= Frac(Abs(V[b].x[k])) - sl
  /\ \A i \in 1..Len(V) : Abs(V[i].f - V[b].f) * 1000 <= Abs(V[b].f) * c.ft

Start == /\ Ev.ev = "start" /\ c' = Ev /\ cand' = {Empty} /\ phase' = "init"
         /\ rest' = 0..Ev.n /\ n' = 0 /\ it' = 1 /\ minv' = 0 /\ told' = <<>> /\ UNCHANGED bad
P == [x |-> Ev.x, f |-> Ev.f]
Count == n' = n + 1 /\ minv' = IF n = 0 \/ Ev.f < minv THEN Ev.f ELSE minv
Judge(S2) == bad' = AddBadD(bad, l, Fails(S2), phase)
Next1 == phase' = "reflect" /\ it' = it + 1
EInit == /\ phase = "init"
         /\ LET m == {j \in rest : IsStart(P.x, j)} IN
            /\ Judge({<<"initial_simplex", m # {}>>})
            /\ LET j == IF m # {} THEN CHOOSE j \in m : \A q \in m : j <= q
                        ELSE CHOOSE j \in rest : TRUE IN
               rest' = rest \ {j}
         /\ cand' = {[s EXCEPT !.V = Append(@, P)] : s \in cand}
         /\ phase' = IF Len(F) = N THEN "reflect" ELSE "init"
         /\ UNCHANGED it
EReflect ==
  /\ phase = "reflect"
  /\ LET all == UNION {{[s EXCEPT !.w = w] : w \in Argmax(Fv(s.V))} : s \in cand}
         m == {s \in all : IsReflect(P.x, s.V, s.w)}
         u == IF m # {} THEN m ELSE {CHOOSE s \in all : TRUE}
         a == AfterReflect(F, P.f) IN
     /\ Judge({<<"reflects_a_worst_vertex", m # {}>>,
               <<"starts_no_step_beyond_budget", n < c.maxfev /\ it < c.maxiter>>,
               <<"stops_when_converged",
                 ~(c.crit /\ \A s \in cand : SureConv(s.V, 20 * (N + 2)))>>})
     /\ IF a = "accept" THEN cand' = {[s EXCEPT !.V[s.w] = P] : s \in u} /\ Next1
        ELSE cand' = {[s EXCEPT !.r = P] : s \in u} /\ phase' = a /\ UNCHANGED it
  /\ UNCHANGED rest
Keep(m) == IF m # {} THEN m ELSE cand
EExpand ==
  /\ phase = "expand"
  /\ LET m == {s \in cand : IsExpand(P.x, s.V, s.w)} IN
     /\ Judge({<<"expands", m # {}>>})
     /\ cand' = {[s EXCEPT !.V[s.w] = IF P.f < s.r.f THEN P ELSE s.r] : s \in Keep(m)}
  /\ Next1 /\ UNCHANGED rest
EContract ==
  /\ phase \in {"outside", "inside"}
  /\ LET m == {s \in cand : IF phase = "outside" THEN IsOutside(P.x, s.V, s.w)
                            ELSE IsInside(P.x, s.V, s.w)} IN
     /\ Judge({<<"contracts", m # {}>>})
     /\ IF Contracted(phase, F, One.r.f, P.f)
        THEN cand' = {[s EXCEPT !.V[s.w] = P] : s \in Keep(m)} /\ Next1
        ELSE /\ phase' = "shrink" /\ UNCHANGED it
             /\ cand' = UNION {{[s EXCEPT !.b = b, !.todo = (1..Len(s.V)) \ {b}] :
                                b \in Argmin(Fv(s.V))} : s \in Keep(m)}
  /\ UNCHANGED rest
\* the value of the best vertex must not change during a shrink: new vertices
\* are built from V of the start of the shrink
EShrink ==
  /\ phase = "shrink"
  /\ LET all == UNION {{<<s, j>> : j \in s.todo} : s \in cand}
         m == {q \in all : IsShrunk(P.x, q[1].V, q[1].b, q[2])}
         u == IF m # {} THEN m ELSE {CHOOSE q \in all : TRUE} IN
     /\ Judge({<<"shrinks_towards_the_best", m # {}>>})
     /\ cand' = {[q[1] EXCEPT !.V[q[2]] = P, !.todo = @ \ {q[2]}] : q \in u}
     /\ IF Cardinality(One.todo) = 1 THEN Next1 ELSE UNCHANGED <<phase, it>>
  /\ UNCHANGED rest
\* a simplex that has collapsed: too many moves fit, only count from here on
Lost == phase = "lost"
Many == Lost \/ Cardinality(cand) > 48
ELost == phase' = "lost" /\ UNCHANGED <<bad, cand, rest, it>>
Eval == /\ Ev.ev = "eval" /\ Count /\ UNCHANGED <<c, told>>
        /\ IF Many THEN ELost
           ELSE EInit \/ EReflect \/ EExpand \/ EContract \/ EShrink
Near(x, y) == \A k \in 1..N : Abs(x[k] - y[k]) <= 1
\* the callback is told the best vertex after every step
Told == /\ Ev.ev = "told" /\ told' = Append(told, Ev.x)
        /\ Judge({<<"callback_after_a_step", Lost \/ (phase = "reflect" /\ Len(told) + 2 = it)>>,
                  <<"callback_gets_the_best", Lost \/ \E s \in cand : \E b \in Argmin(Fv(s.V)) :
                       Near(s.V[b].x, Ev.x)>>})
        /\ UNCHANGED <<c, cand, phase, rest, n, it, minv>>
End == /\ Ev.ev = "end"
       /\ Judge({
          <<"no_step_left_unfinished", Lost \/ phase = "reflect">>,
          <<"best_value_of_all_evaluated", Ev.f = minv>>,
          <<"point_with_that_value", Lost \/ \E s \in cand : \E i \in 1..Len(s.V) :
               s.V[i].f = Ev.f /\ Near(s.V[i].x, Ev.x)>>,
          <<"exact_evaluation_count", Ev.nfev = n>>,
          <<"within_budget", n <= Bound(N, c.maxfev)>>,
          <<"truthful_status",
              \/ Ev.status = 1 /\ n >= c.maxfev
              \/ Ev.status = 2 /\ (Lost \/ it >= c.maxiter)
              \/ Ev.status = 0 /\ ((c.crit /\ ~Lost) => \E s \in cand : Conv(s.V, 20 * (N + 2)))>>,
          <<"iterations_counted", Lost \/ Ev.nit \in {it - 1, it}>>,
          <<"callback_after_every_step", (c.cb /\ ~Lost) => Len(told) = it - 1>>,
          \* all best points: that of the start, one for each step
          <<"all_best_points", (c.all /\ ~Lost) => /\ Len(Ev.all) = it
               /\ (it > 1 => Near(Ev.all[it], Ev.x))
               /\ Near(Ev.all[1], c.x0)
               /\ (c.cb => \A k \in 2..it : Near(Ev.all[k], told[k - 1]))>>,
          <<"message_printed_iff_asked", Ev.said = c.disp>>,
          <<"message_of_status", Ev.msg = <<"success", "evaluations", "iterations">>[Ev.status + 1]>>,
          <<"success_iff_converged", Ev.success = (Ev.status = 0)>>})
       /\ UNCHANGED <<c, cand, phase, rest, n, it, minv, told>>
\* the call raised, or never ended
Fail == /\ Ev.ev = "fail" /\ Judge({<<"returns", FALSE>>})
        /\ UNCHANGED <<c, cand, phase, rest, n, it, minv, told>>
Next == l <= NTrace /\ l' = l + 1 /\ (Start \/ Eval \/ Told \/ End \/ Fail)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
