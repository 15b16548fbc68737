--------------------------------- MODULE Diag ---------------------------------
(* What save_diagnostic_plots leaves behind for a stored run: a page for every  *)
(* parameter, a corner page, a page for every output asked for.                 *)
EXTENDS Chain, TLC
\* a distribution with a density and a relative error
Drawable(row) == row[1] # 0 /\ row[2] > 0 /\ row[3] > 0
Par(r, last, p) == LET q == Flat(r, last) IN [i \in 1..Len(q) |-> q[i][p]]
Out(r, last, k) == LET q == Flat(r, last) IN [i \in 1..Len(q) |-> Scalar(k, q[i])]
Inner(r, last, p) == LET q == Par(r, last, p) IN
  CASE r.lab[p] = "log10" -> [i \in 1..Len(q) |-> Pow10(q[i])]
    [] r.lab[p] = "log" -> [i \in 1..Len(q) |-> Pow2(q[i])]
    [] OTHER -> q
Varies(q) == \E i, j \in 1..Len(q) : q[i] # q[j]
\* the corner page can be drawn: every parameter varies, more samples than parameters
Cornered(r) == /\ \A p \in Pars(r) : Varies(Par(r, FALSE, p))
               /\ NUsed(r, FALSE) > Len(r.lab)
\* outputs that are asked for, in order: all if nothing is said
Asked(r, o) == IF o.all THEN [i \in 1..Len(r.lay) |-> i - 1] ELSE o.idx
Label(o, k, i) == IF k <= Len(o.labels) THEN o.labels[k] ELSE "Model output " \o ToString(i)
\* pages: must they be there, may they, or not
Pages(r, o) ==
  [p \in 1..Len(r.lab) |->
     [kind |-> "chain", p |-> p, row |-> Row(Par(r, o.last, p)),
      st |-> IF Drawable(Row(Par(r, o.last, p))) /\ Drawable(Row(Inner(r, o.last, p)))
             THEN "must" ELSE "may"]]
  \o <<[kind |-> "corner", p |-> 0, row |-> <<0, 0, 0>>, st |-> "must"]>>
  \o [k \in 1..Len(Asked(r, o)) |->
       LET i == Asked(r, o)[k] kind == r.lay[i + 1]
           row == IF kind \in Scalars THEN Row(Out(r, o.last, kind)) ELSE <<0, 0, 0>> IN
       [kind |-> CASE kind \in Arrays -> "fit" [] kind \in Scalars -> "dist" [] OTHER -> "none",
        p |-> k, row |-> row,
        st |-> CASE kind \in {"text", "tri"} -> "never"
                 [] kind = "qpair" -> "may"
                 [] kind \in Scalars -> (IF Drawable(row) THEN "must" ELSE "may")
                 [] OTHER -> "must"]]
\* does a page that was drawn show what is wanted
IsChain(r, w, g) == /\ g.kind = "chain" /\ g.med = w.row[1]
  /\ g.lo = w.row[1] - w.row[2] /\ g.hi = w.row[1] + w.row[3]
  /\ Len(g.cols) = Len(r.ch[1])
  /\ \A k \in Walkers(r) : \E c \in 1..Len(g.cols) : g.cols[c] = [s \in Steps(r) |-> r.ch[s][k][w.p]]
IsDist(r, o, w, g) == /\ g.kind = "dist" /\ g.med = w.row[1]
  /\ g.lo = w.row[1] - w.row[2] /\ g.hi = w.row[1] + w.row[3]
  /\ g.num = (IF o.pdf THEN -1 ELSE Asked(r, o)[w.p])
  /\ g.label = "Posterior distribution of " \o Label(o, w.p, Asked(r, o)[w.p])
\* marked: the value of every parameter of one best sample, and three quantiles
IsCorner(r, w, g) == /\ g.kind = "corner" /\ Len(g.cols) = Len(r.lab)
  /\ g.count = NUsed(r, FALSE)
  /\ \E s \in Best(r) : \A p \in Pars(r) :
       LET row == Row(Par(r, FALSE, p)) m == {row[1], row[1] - row[2], row[1] + row[3], 100 * At(r, s)[p]} IN
       \* (labels whose unit is not one are compared like all others: the lattice)
       {g.cols[p][i] : i \in 1..Len(g.cols[p])} = m
IsFit(r, o, w, g) ==
  LET i == Asked(r, o)[w.p] kind == r.lay[i + 1] IN
  /\ g.kind = "fit"
  /\ g.label = Label(o, w.p, i)
  /\ g.num = (IF o.pdf THEN -1 ELSE i)
  /\ g.count = 100
  /\ \E k \in 1..Len(g.reads) : LET e == g.reads[k] IN
       /\ e.i = i
       /\ \E s \in Best(r) : e.cols[1] = Values(kind, At(r, s))
       /\ \A c \in 2..Len(e.cols) : \E s \in Used(r, o.last) : e.cols[c] = Values(kind, At(r, s))
Shows(r, o, w, g) ==
  CASE w.kind = "chain" -> IsChain(r, w, g) [] w.kind = "dist" -> IsDist(r, o, w, g)
    [] w.kind = "corner" -> IsCorner(r, w, g) [] w.kind = "fit" -> IsFit(r, o, w, g)
    [] OTHER -> TRUE
===============================================================================
