------------------------------ MODULE HistModel ------------------------------
(* The laws of histograms (P18), checked on all small tables of events and all
   edges, with the operators that judge the real code: the histogram of binned
   events is the histogram of the events; a histogram with coarser edges is the
   rebinned histogram with finer ones, and rebinning in two steps through finer
   edges is rebinning in one; contents are preserved when the range is; and
   looking up in a histogram finds the bin that counts the event.            *)
EXTENDS Histograms
CONSTANTS MaxEvents, Coord, MaxEdges
VARIABLES tab, e1, e2, stage
vars == <<tab, e1, e2, stage>>
SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}
EdgeSeqs == {s \in SeqsUpTo(Coord, MaxEdges) : Len(s) >= 2 /\ Rising(s)}
Dimless == <<0, 0, 0>>
Vec(x, s) == [d |-> <<<<x, Len(s)>>>>, t |-> "f8", u |-> Dimless, hv |-> FALSE, v |-> s, w |-> <<>>, al |-> TRUE]
None1 == [n \in {} |-> 0]
\* event i has coordinate tab[i][1] and weight tab[i][2]
Table == [data |-> Vec("row", [i \in DOMAIN tab |-> tab[i][2]]), coords |-> [n \in {"x"} |-> Vec("row", [i \in DOMAIN tab |-> tab[i][1]])],
          masks |-> None1, name |-> ""]
Counts(e) == [f \in 1..(Len(e) - 1) |-> LET h == SelectSeq(tab, LAMBDA t : InEdges(e, t[1]) = f) IN FoldSum([j \in DOMAIN h |-> h[j][2]])]
Hist(e, c) == [data |-> Vec("x", c), coords |-> [n \in {"x"} |-> Vec("x", e)], masks |-> None1, name |-> ""]
\* events binned in the bins of e
Bins(e) == [data |-> [d |-> <<<<"x", Len(e) - 1>>>>, t |-> "bin", bt |-> "f8", u |-> Dimless, hv |-> FALSE, bd |-> "row", cn |-> <<"x">>, mn |-> <<>>,
                      cu |-> <<Dimless>>,
                      ev |-> [f \in 1..(Len(e) - 1) |-> LET h == SelectSeq(tab, LAMBDA t : InEdges(e, t[1]) = f) IN [j \in DOMAIN h |-> <<h[j][2], 0, h[j][1]>>]]],
            coords |-> [n \in {"x"} |-> Vec("x", e)], masks |-> None1, name |-> ""]
Rebin(e, c, new) == [j \in 1..(Len(new) - 1) |-> Share(e, c, new, j)]
K(e) == [g |-> FALSE, x |-> "x", v |-> Vec("x", e)]
Init == tab = <<>> /\ e1 = <<>> /\ e2 = <<>> /\ stage = 0
Next == \/ stage = 0 /\ \E v \in Coord, wt \in {6, 12} : Len(tab) < MaxEvents /\ tab' = Append(tab, <<v, wt>>) /\ UNCHANGED <<e1, e2, stage>>
        \/ stage = 0 /\ e1' \in EdgeSeqs /\ stage' = 1 /\ UNCHANGED <<tab, e2>>
        \/ stage = 1 /\ e2' \in EdgeSeqs /\ stage' = 2 /\ UNCHANGED <<tab, e1>>
Spec == Init /\ [][Next]_vars
Bump(h, p) == [h EXCEPT !.data.v[p] = @ + 1]
\* right histograms are accepted, wrong ones are not
Judged == stage = 1 =>
    LET h == Hist(e1, Counts(e1)) IN
    /\ HistOk(Table, K(e1), FALSE, TRUE, h) /\ HistOk(Bins(e1), K(e1), FALSE, TRUE, h)
    /\ \A p \in DOMAIN h.data.v : ~HistOk(Table, K(e1), FALSE, TRUE, Bump(h, p)) /\ ~HistOk(Bins(e1), K(e1), FALSE, TRUE, Bump(h, p))
    /\ \A v \in Coord : LET at == [d |-> <<>>, t |-> "f8", u |-> Dimless, hv |-> FALSE, v |-> <<v>>, w |-> <<>>]
                            i == InEdges(e1, v)
                            ans == IF i = 0 THEN NaNTok ELSE h.data.v[i]
                            r == [at EXCEPT !.v = <<ans>>]
                        IN /\ LookupOk(h, "x", at, FALSE, at, FALSE, FALSE, TRUE, r)
                           /\ ~LookupOk(h, "x", at, FALSE, at, FALSE, FALSE, TRUE, [r EXCEPT !.v = <<5>>])
Coarser == stage = 2 /\ {e2[i] : i \in DOMAIN e2} \subseteq {e1[i] : i \in DOMAIN e1} /\ Len(e1) = Cardinality({e1[i] : i \in DOMAIN e1})
                     /\ Len(e2) = Cardinality({e2[i] : i \in DOMAIN e2})
Inside == stage = 2 /\ e2[1] >= e1[1] /\ e2[Len(e2)] <= e1[Len(e1)]
\* bins of no width hold no events: the law needs proper bins
Same == Coarser => Rebin(e1, Counts(e1), e2) = Counts(e2)
\* binned before: only events outside the bins are missing
OfBins == stage = 2 =>
    LET live == SelectSeq(tab, LAMBDA t : InEdges(e1, t[1]) # 0)
        h == [f \in 1..(Len(e2) - 1) |-> LET g == SelectSeq(live, LAMBDA t : InEdges(e2, t[1]) = f) IN FoldSum([j \in DOMAIN g |-> g[j][2]])]
    IN HistOk(Bins(e1), K(e2), FALSE, TRUE, Hist(e2, h))
Total(s) == FoldSum(s)
Kept == stage = 2 /\ e2[1] <= e1[1] /\ e2[Len(e2)] >= e1[Len(e1)] =>
    /\ Total(Rebin(e1, [f \in 1..(Len(e1) - 1) |-> 6 * Wid(e1, f)], e2)) = 6 * (e1[Len(e1)] - e1[1])
    /\ RebinOk(Hist(e1, [f \in 1..(Len(e1) - 1) |-> 6 * Wid(e1, f)]), "x", Vec("x", e2), FALSE, TRUE,
               Hist(e2, Rebin(e1, [f \in 1..(Len(e1) - 1) |-> 6 * Wid(e1, f)], e2)))
\* through finer edges
TwoSteps == Coarser => \A c \in [1..(Len(e2) - 1) -> {12, 24}] :
    LET old == [f \in 1..(Len(e2) - 1) |-> c[f] * Wid(e2, f)] IN
    e1[1] = e2[1] /\ e1[Len(e1)] = e2[Len(e2)] => Rebin(e1, Rebin(e2, old, e1), e2) = old
=============================================================================
