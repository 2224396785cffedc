-------------------------------- MODULE Bins --------------------------------
(* Binned variables.  A binned variable is a grid of bins; every bin is a
   range of rows of a table of events (the buffer).  The table is a set of
   columns: the data of a variable ("V"), data with coords and masks of a data
   array ("A"), or the items and coords of a dataset ("S"), and coords that do
   not depend on the event dimension.

   S = [A |-> columns by id, H |-> objects by handle, n |-> next id]
   column: [u |-> unit, t |-> element type, c |-> cells]
   object: [k, ed |-> event dim, cols |-> name -> id of column, fix |-> name -> value,
            d |-> << <<label, length>>, ... >>, b |-> << <<from, to>>, ... >>
            (0-based half-open, in row-major order of d), n0 |-> number of bins in
            the object it is a view of, ro |-> read-only,
            part |-> whether the columns may be parts of longer arrays]
   Views share the columns with the object they were made from.               *)
EXTENDS Integers, Sequences, FiniteSets, Functions, SequencesExt, FiniteSetsExt, TLC
Empty == [A |-> <<>>, H |-> [h \in {} |-> 0]]
Refuse(S) == [ok |-> FALSE, S |-> S]
Ok(S) == [ok |-> TRUE, S |-> S]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
SetH(S, h, o) == [S EXCEPT !.H = Put(S.H, h, o)]
(* ---- labelled grids ---- *)
Labels(d) == {d[i][1] : i \in DOMAIN d}
LenOf(d, x) == LET i == CHOOSE j \in DOMAIN d : d[j][1] = x IN d[i][2]
RECURSIVE Vol(_)
Vol(d) == IF d = <<>> THEN 1 ELSE Head(d)[2] * Vol(Tail(d))
\* position (0-based) along each label of element p (0-based) of grid d
RECURSIVE Coordinates(_, _)
Coordinates(d, p) == IF d = <<>> THEN [x \in {} |-> 0]
                     ELSE LET l == d[Len(d)] IN Put(Coordinates(SubSeq(d, 1, Len(d) - 1), p \div l[2]), l[1], p % l[2])
RECURSIVE Place(_, _)
Place(d, f) == IF d = <<>> THEN 0 ELSE LET l == d[Len(d)] IN Place(SubSeq(d, 1, Len(d) - 1), f) * l[2] + f[l[1]]
\* the elements of grid d, taken from the element of grid g that F(position) names
Regrid(d, F(_)) == [i \in 1 .. Vol(d) |-> F(Coordinates(d, i - 1))]
At(o, f) == o.b[Place(o.d, f) + 1]
NoLabel(d, x) == SelectSeq(d, LAMBDA l : l[1] # x)
Subset(d, e) == \A l \in Range(d) : l[1] \in Labels(e) /\ LenOf(e, l[1]) = l[2]
(* ---- contents ---- *)
Rows(S, o) == LET id == o.cols[CHOOSE c \in DOMAIN o.cols : TRUE] IN Len(S.A[id].c)
Cells(S, id, r) == SubSeq(S.A[id].c, r[1] + 1, r[2])
SizeOf(r) == r[2] - r[1]
Event(S, o, r) == [c \in DOMAIN o.cols |-> Cells(S, o.cols[c], r)]
Meta(S, o) == [c \in DOMAIN o.cols |-> [u |-> S.A[o.cols[c]].u, t |-> S.A[o.cols[c]].t]]
Content(S, o) == [k |-> o.k, ed |-> o.ed, d |-> o.d, fix |-> o.fix, meta |-> Meta(S, o), ev |-> [i \in DOMAIN o.b |-> Event(S, o, o.b[i])]]
\* a new object with bins of the given events: ev is << [column -> cells], ... >>
RECURSIVE Starts(_, _)
Starts(sizes, at) == IF sizes = <<>> THEN <<>> ELSE << <<at, at + Head(sizes)>> >> \o Starts(Tail(sizes), at + Head(sizes))
Fresh(S, h, o, meta, d, ev) ==
    LET names == SetToSeq(DOMAIN meta)
        some == names[1]
        ids == [c \in DOMAIN meta |-> Len(S.A) + (CHOOSE i \in DOMAIN names : names[i] = c)]
        col(c) == [u |-> meta[c].u, t |-> meta[c].t, c |-> FlattenSeq([i \in DOMAIN ev |-> ev[i][c]])]
    IN  SetH([S EXCEPT !.A = @ \o [i \in DOMAIN names |-> col(names[i])]], h,
             [k |-> o.k, ed |-> o.ed, cols |-> ids, fix |-> o.fix, d |-> d,
              b |-> Starts([i \in DOMAIN ev |-> Len(ev[i][some])], 0), n0 |-> Vol(d), ro |-> FALSE, part |-> FALSE])
Events(S, o) == [i \in DOMAIN o.b |-> Event(S, o, o.b[i])]
Join(a, b) == [c \in DOMAIN a |-> a[c] \o b[c]]
RECURSIVE JoinAll(_, _)
JoinAll(evs, none) == IF evs = <<>> THEN none ELSE Join(Head(evs), JoinAll(Tail(evs), none))
NoEvents(o) == [c \in DOMAIN o.cols |-> <<>>]
(* ---- validity of bins ---- *)
InRange(b, n) == \A i \in DOMAIN b : 0 <= b[i][1] /\ b[i][1] <= b[i][2] /\ b[i][2] <= n
Apart(p, q) == p[1] = p[2] \/ q[1] = q[2] \/ p[2] <= q[1] \/ q[2] <= p[1]
Disjoint(b) == \A i, j \in DOMAIN b : i < j => Apart(b[i], b[j])
ValidBins(b, n) == InRange(b, n) /\ Disjoint(b)
\* an empty bin in the middle of another bin shares no event with it
Nested(b) == \E i, j \in DOMAIN b : i # j /\ b[i][1] = b[i][2] /\ b[j][1] < b[i][1] /\ b[i][1] < b[j][2]
MakeFrom(S, e, cols, o) ==
    LET new == [o EXCEPT !.cols = cols, !.d = e.d, !.b = e.idx, !.n0 = Vol(e.d), !.ro = FALSE]
        done == Ok(SetH(S, e.h, new))
    IN  IF e.dim # o.ed \/ ~e.unitless \/ ~ValidBins(e.idx, Rows(S, [cols |-> cols])) THEN {Refuse(S)}
        ELSE IF Nested(e.idx) THEN {done, Refuse(S)} ELSE {done}
Make(S, e) ==
    LET names == SetToSeq(DOMAIN e.buf.cols)
        T == [S EXCEPT !.A = @ \o [i \in DOMAIN names |-> e.buf.cols[names[i]]]]
        cols == [c \in DOMAIN e.buf.cols |-> Len(S.A) + (CHOOSE i \in DOMAIN names : names[i] = c)]
    IN  {IF r.ok THEN r ELSE Refuse(S) :
         r \in MakeFrom(T, e, cols, [k |-> e.buf.k, ed |-> e.buf.ed, cols |-> cols, fix |-> e.buf.fix, d |-> <<>>, b |-> <<>>, n0 |-> 0, ro |-> FALSE, part |-> e.relaid])}
Remake(S, e) == LET o == S.H[e.from] IN MakeFrom(S, e, o.cols, o)
(* ---- views ---- *)
SliceOf(o, x, b, e) ==
    IF e = -1 THEN [o EXCEPT !.d = NoLabel(o.d, x), !.b = LET d == NoLabel(o.d, x) IN Regrid(d, LAMBDA f : At(o, Put(f, x, b)))]
    ELSE LET d == [i \in DOMAIN o.d |-> IF o.d[i][1] = x THEN <<x, e - b>> ELSE o.d[i]]
         IN  [o EXCEPT !.d = d, !.b = Regrid(d, LAMBDA f : At(o, [f EXCEPT ![x] = @ + b]))]
Slice(S, e) == {Ok(SetH(S, e.h, SliceOf(S.H[e.from], e.x, e.b, e.e)))}
Share(S, e) == {Ok(SetH(S, e.h, S.H[e.from]))}
Transpose(S, e) == LET o == S.H[e.from]
                       d == [i \in DOMAIN e.order |-> <<e.order[i], LenOf(o.d, e.order[i])>>]
                   IN  {Ok(SetH(S, e.h, [o EXCEPT !.d = d, !.b = Regrid(d, LAMBDA f : At(o, f))]))}
Rename(S, e) == LET o == S.H[e.from] IN {Ok(SetH(S, e.h, [o EXCEPT !.d = [i \in DOMAIN o.d |-> IF o.d[i][1] = e.x THEN <<e.y, o.d[i][2]>> ELSE o.d[i]]]))}
Broadcast(S, e) == LET o == S.H[e.from] IN {Ok(SetH(S, e.h, [o EXCEPT !.d = e.d, !.b = Regrid(e.d, LAMBDA f : At(o, [x \in Labels(o.d) |-> f[x]])), !.ro = o.ro \/ Vol(e.d) > Vol(o.d)]))}
Column(S, e) == LET o == S.H[e.from] IN {Ok(SetH(S, e.h, [o EXCEPT !.k = "V", !.cols = [c \in {"d"} |-> o.cols[e.c]], !.fix = [x \in {} |-> 0]]))}
Copy(S, e) == LET o == S.H[e.from] IN {Ok(Fresh(S, e.h, o, Meta(S, o), o.d, Events(S, o)))}
(* ---- writing ---- *)
Write(S, e) == LET o == S.H[e.h]
                   at == o.b[e.i][1] + e.j
               IN  {Ok([S EXCEPT !.A[o.cols[e.c]].c[at] = e.val])}
\* adds a number for each bin to the data of all its events; v belongs to grid e.d
Add(S, e) ==
    LET o == S.H[e.h]
        id == o.cols["d"]
        val(p) == e.v[Place(e.d, [x \in Labels(e.d) |-> Coordinates(o.d, p - 1)[x]]) + 1]
        owner(r) == {p \in DOMAIN o.b : o.b[p][1] < r /\ r <= o.b[p][2]}
        new == [r \in DOMAIN S.A[id].c |-> LET w == owner(r) IN IF w = {} THEN S.A[id].c[r] ELSE S.A[id].c[r] + val(CHOOSE p \in w : TRUE)]
    IN  IF Subset(e.d, o.d) /\ o.b = <<>> THEN {Refuse(S), Ok(S)} ELSE IF ~Subset(e.d, o.d) \/ o.ro THEN {Refuse(S)} ELSE {Ok([S EXCEPT !.A[id].c = new])}
SameColumns(S, o, p) == o.k = p.k /\ DOMAIN o.cols = DOMAIN p.cols /\ o.fix = p.fix
SameUnits(S, o, p) == \A c \in DOMAIN o.cols : S.A[o.cols[c]].u = S.A[p.cols[c]].u
SameTypes(S, o, p) == o.ed = p.ed /\ \A c \in DOMAIN o.cols : S.A[o.cols[c]].t = S.A[p.cols[c]].t
Covers(S, o) == \A r \in 1 .. Rows(S, o) : \E p \in DOMAIN o.b : o.b[p][1] < r /\ r <= o.b[p][2]
\* the target becomes what the source was before
Assigned(S, src, dst) ==
    LET from(p) == At(src, [x \in Labels(src.d) |-> Coordinates(dst.d, p - 1)[x]])
        owner(r) == {p \in DOMAIN dst.b : dst.b[p][1] < r /\ r <= dst.b[p][2]}
        new(c) == [r \in 1 .. Rows(S, dst) |->
                     LET w == owner(r)
                         p == CHOOSE q \in w : TRUE
                     IN  IF w = {} THEN S.A[dst.cols[c]].c[r] ELSE S.A[src.cols[c]].c[from(p)[1] + r - dst.b[p][1]]]
        hit(id) == {c \in DOMAIN dst.cols : dst.cols[c] = id}
    IN  [S EXCEPT !.A = [id \in DOMAIN S.A |-> LET w == hit(id) IN IF w = {} THEN S.A[id] ELSE
                           LET c == CHOOSE x \in w : TRUE IN [S.A[id] EXCEPT !.c = new(c), !.u = S.A[src.cols[c]].u]]]
Assign(S, e) ==
    LET src == S.H[e.from]
        o == S.H[e.h]
        dst == IF e.x = "" THEN o ELSE SliceOf(o, e.x, e.b, e.e)
        fits == /\ Subset(src.d, dst.d)
                /\ \A p \in DOMAIN dst.b : SizeOf(dst.b[p]) = SizeOf(At(src, [x \in Labels(src.d) |-> Coordinates(dst.d, p - 1)[x]]))
        with == IF Len(dst.b) = dst.n0 THEN Ok([S EXCEPT !.A = [id \in DOMAIN S.A |->
                     LET w == {c \in DOMAIN dst.cols \cap DOMAIN src.cols : dst.cols[c] = id}
                     IN  IF w = {} THEN S.A[id] ELSE [S.A[id] EXCEPT !.u = S.A[src.cols[CHOOSE c \in w : TRUE]].u]]]) ELSE Ok(S)
    IN  IF Subset(src.d, dst.d) /\ (\A i \in DOMAIN dst.b : SizeOf(dst.b[i]) = 0) /\ (dst.b # <<>> => fits) /\ (o.ro \/ dst.b = <<>>) THEN {Refuse(S), Ok(S), with}
        ELSE IF o.ro \/ ~Subset(src.d, dst.d) \/ ~SameColumns(S, src, dst) THEN {Refuse(S)}
        ELSE IF ~fits THEN {Refuse(S)}
        ELSE IF ~SameTypes(S, src, dst) THEN {Refuse(S)} \cup (IF SameUnits(S, src, dst) THEN {Ok(Assigned(S, src, dst))} ELSE {})
        ELSE IF SameUnits(S, src, dst) THEN {Ok(Assigned(S, src, dst))} \cup (IF src.k = "S" /\ e.x # "" THEN {Refuse(S)} ELSE {})
        ELSE IF Len(dst.b) = dst.n0 THEN {Ok(Assigned(S, src, dst)), Refuse(S)}
        ELSE {Refuse(S)}
\* a unit can only be given to all of the events
Unit(S, e) == LET o == S.H[e.h]
                  done == Ok([S EXCEPT !.A[o.cols["d"]].u = e.u])
              IN  IF S.A[o.cols["d"]].u = e.u THEN {done, Refuse(S)}
                  ELSE IF Len(o.b) < o.n0 \/ o.ro THEN {Refuse(S)} ELSE IF Covers(S, o) /\ ~o.part THEN {done} ELSE {done, Refuse(S)}
(* ---- joining ---- *)
Union(d, e) == d \o SelectSeq(e, LAMBDA l : l[1] \notin Labels(d))
Mergeable(d, e) == \A x \in Labels(d) \cap Labels(e) : LenOf(d, x) = LenOf(e, x)
OnLabels(f, d) == [x \in Labels(d) |-> IF x \in DOMAIN f THEN f[x] ELSE 0]
Joined(S, h, a, b, d) == Fresh(S, h, a, Meta(S, a), d, Regrid(d, LAMBDA f : Join(Event(S, a, At(a, OnLabels(f, a.d))), Event(S, b, At(b, OnLabels(f, b.d))))))
\* the labels of the result may be in any order
Orders(d) == {q \in [DOMAIN d -> Range(d)] : Range(q) = Range(d)}
Concatenate(S, e) ==
    LET a == S.H[e.from]
        b == S.H[e.with]
        done(d) == Ok(Joined(S, e.h, a, b, d))
    IN  IF ~Mergeable(a.d, b.d) \/ ~SameColumns(S, a, b) \/ ~SameUnits(S, a, b) THEN {Refuse(S)}
        ELSE {done(d) : d \in Orders(Union(a.d, b.d))} \cup (IF SameTypes(S, a, b) THEN {} ELSE {Refuse(S)})
AppendTo(S, e) ==
    LET a == S.H[e.h]
        b == S.H[e.with]
        done == Ok(Joined(S, e.h, a, b, a.d))
        long == SelectSeq(b.d, LAMBDA x : x[1] \in Labels(a.d) \/ x[2] # 1)
    IN  IF ~Subset(long, a.d) \/ ~SameColumns(S, a, b) \/ ~SameUnits(S, a, b) THEN {Refuse(S)}
        ELSE IF ~Subset(b.d, a.d) \/ a.ro \/ Len(a.b) < a.n0 \/ ~SameTypes(S, a, b) THEN {done, Refuse(S)} ELSE {done}
JoinDim(S, e) ==
    LET o == S.H[e.from]
        d == NoLabel(o.d, e.x)
        all(f) == JoinAll([i \in 1 .. LenOf(o.d, e.x) |-> Event(S, o, At(o, Put(f, e.x, i - 1)))], NoEvents(o))
    IN  IF e.x \notin Labels(o.d) THEN {Refuse(S), Ok(Fresh(S, e.h, o, Meta(S, o), o.d, Events(S, o)))}
        ELSE {Ok(Fresh(S, e.h, o, Meta(S, o), d, Regrid(d, all)))} \cup (IF o.k = "S" \/ \E c \in DOMAIN o.cols : S.A[o.cols[c]].t \in {"f82", "f8t"} THEN {Refuse(S)} ELSE {})
\* concat: pieces behind each other along e.x
Concat(S, e) ==
    LET P == [i \in DOMAIN e.of |-> S.H[e.of[i]]]
        a == P[1]
        has(o) == e.x \in Labels(o.d)
        ext(o) == IF has(o) THEN LenOf(o.d, e.x) ELSE 1
        other(o) == NoLabel(o.d, e.x)
        rest == FoldSeq(LAMBDA o, d : Union(d, other(o)), <<>>, P)
        merge == \A i \in DOMAIN P : Mergeable(rest, other(P[i]))
        like == \A i \in DOMAIN P : SameColumns(S, a, P[i])
        units(K) == \A i, j \in K : SameUnits(S, P[i], P[j])
        \* empty pieces may have any unit
        full == IF Vol(rest) = 0 THEN {} ELSE {i \in DOMAIN P : P[i].b # <<>>}
        metas == IF full # {} THEN {Meta(S, P[i]) : i \in full} ELSE IF e.ok THEN {(IF e.h \in DOMAIN e.obs THEN e.obs[e.h] ELSE Content(S, S.H[e.h])).meta} ELSE {}
        total == FoldSeq(LAMBDA o, n : n + ext(o), 0, P)
        upto(i) == FoldSeq(LAMBDA o, n : n + ext(o), 0, SubSeq(P, 1, i))
        piece(p) == CHOOSE i \in DOMAIN P : upto(i - 1) <= p /\ p < upto(i)
        D == Orders(rest \o << <<e.x, total>> >>)
        done(d, m) == Ok(Fresh(S, e.h, a, m, d,
                            Regrid(d, LAMBDA f : LET i == piece(f[e.x])
                                                     o == P[i]
                                                     g == IF has(o) THEN [f EXCEPT ![e.x] = @ - upto(i - 1)] ELSE f
                                                 IN  Event(S, o, At(o, OnLabels(g, o.d))))))
        \* pieces without some of the labels may be refused, or are repeated
        alike == \A i \in DOMAIN P : SameTypes(S, a, P[i]) /\ other(P[i]) = other(a)
    IN  IF ~merge \/ ~like \/ ~units(full) THEN {Refuse(S)}
        ELSE {done(d, m) : d \in D, m \in metas} \cup (IF alike /\ units(DOMAIN P) THEN {} ELSE {Refuse(S)})
\* bins of the given sizes, with whatever content is observed
Resize(S, e) == LET o == S.H[e.from]
                    q == IF e.h \in DOMAIN e.obs THEN e.obs[e.h] ELSE Content(S, S.H[e.h])
                    ok == Ok(Fresh(S, e.h, o, Meta(S, o), e.d, q.ev))
                IN  IF \E i \in DOMAIN e.sizes : e.sizes[i] < 0 THEN {Refuse(S)}
                    ELSE IF ~e.ok THEN (IF o.k = "S" THEN {Refuse(S)} ELSE {})
                    ELSE IF Len(q.ev) = Len(e.sizes) /\ \A i \in DOMAIN q.ev : \A c \in DOMAIN q.ev[i] : Len(q.ev[i][c]) = e.sizes[i] THEN {ok} ELSE {}
(* ---- questions ---- *)
Sizes(S, e) == IF e.r = [i \in DOMAIN S.H[e.h].b |-> SizeOf(S.H[e.h].b[i])] /\ e.rd = S.H[e.h].d THEN {Ok(S)} ELSE {}
Equal(S, e) == IF S.H[e.a].b = <<>> THEN {Ok(S)} ELSE IF e.r = (Content(S, S.H[e.a]) = Content(S, S.H[e.b])) THEN {Ok(S)} ELSE {}
Outcomes(S, e) ==
    CASE e.op = "make" -> Make(S, e)
      [] e.op = "remake" -> Remake(S, e)
      [] e.op = "slice" -> Slice(S, e)
      [] e.op = "share" -> Share(S, e)
      [] e.op = "transpose" -> Transpose(S, e)
      [] e.op = "rename" -> Rename(S, e)
      [] e.op = "broadcast" -> Broadcast(S, e)
      [] e.op = "column" -> Column(S, e)
      [] e.op = "copy" -> Copy(S, e)
      [] e.op = "write" -> Write(S, e)
      [] e.op = "add" -> Add(S, e)
      [] e.op = "assign" -> Assign(S, e)
      [] e.op = "unit" -> Unit(S, e)
      [] e.op = "concatenate" -> Concatenate(S, e)
      [] e.op = "append" -> AppendTo(S, e)
      [] e.op = "joindim" -> JoinDim(S, e)
      [] e.op = "concat" -> Concat(S, e)
      [] e.op = "resize" -> Resize(S, e)
      [] e.op = "sizes" -> Sizes(S, e)
      [] e.op = "eq" -> Equal(S, e)
(* ---- every bin is a range of the table and bins do not overlap ---- *)
Sound(S) == \A h \in DOMAIN S.H : LET o == S.H[h] IN
              /\ Len(o.b) = Vol(o.d) /\ InRange(o.b, Rows(S, o))
              /\ ~o.ro => Disjoint(o.b)
              /\ \A c \in DOMAIN o.cols : Len(S.A[o.cols[c]].c) = Rows(S, o)
=============================================================================
