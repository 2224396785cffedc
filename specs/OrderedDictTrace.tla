-------------------------- MODULE OrderedDictTrace --------------------------
(* Checks recorded histories of scipp::core::Dict. After every call the
   complete observable content is part of the event (E.obs).               *)
EXTENDS OrderedDict
VARIABLES l, others      \* others: contents of copies made along the way
tvars == <<d, it, l, others>>
E == Trace[l]
ObsOk(s, o) == /\ o.size = Len(s) /\ o.empty = (Len(s) = 0)
               /\ o.keys = [i \in DOMAIN s |-> s[i].k]
               /\ o.values = [i \in DOMAIN s |-> s[i].v]
               /\ o.cvalues = o.values
               /\ o.items = [i \in DOMAIN s |-> <<s[i].k, s[i].v>>]
               /\ o.citems = o.items
               /\ o.twice = [i \in DOMAIN s |-> s[i].v * 2 + 1]     \* chained transform()
               /\ \A i \in DOMAIN o.lookup : LET q == o.lookup[i] IN
                     IF q.k \in KeysOf(s)
                     THEN q.has /\ q.found /\ q.at = s[Pos(s, q.k)].v
                     ELSE ~q.has /\ ~q.found /\ q.at = -1 /\ q.refused
\* result of using iterator kind kd: r.res, r.val
EntryOk(kd, r) ==
    LET p == it.pos[kd] IN
    CASE r.res = "refused" -> it.dirty
      [] r.res = "ok" -> /\ ~Stale
                         /\ p <= Len(d)
                         /\ (kd \in {"key", "item", "citem"} => r.key = d[p].k)
                         /\ (kd \in {"value", "cvalue", "item", "citem"} => r.val = d[p].v)
      [] OTHER -> FALSE
TInsert == E.op = "insert" /\ Insert(E.k, E.v)
TErase == /\ E.op = "erase"
          /\ \/ E.res = "ok" /\ EraseOk(E.k)
             \/ E.res = "notfound" /\ EraseMissing(E.k)
TExtract == /\ E.op = "extract"
            /\ \/ E.res = "ok" /\ E.k \in KeysOf(d) /\ E.val = d[Pos(d, E.k)].v /\ EraseOk(E.k)
               \/ E.res = "notfound" /\ EraseMissing(E.k)
TClear == E.op = "clear" /\ Clear
TReserve == E.op = "reserve" /\ Reserve
TBegin == E.op = "begin" /\ Begin
TFind == E.op = "find" /\ Find(E.k)
TDeref == /\ E.op = "deref" /\ it.on
          /\ \A kd \in DOMAIN E.r : EntryOk(kd, E.r[kd])
          /\ UNCHANGED <<d, it>>
TInc == /\ E.op = "inc" /\ it.on
        /\ \A kd \in DOMAIN E.r :
             CASE E.r[kd].res = "refused" -> it.dirty
               [] E.r[kd].res = "ok" -> ~Stale /\ it.pos[kd] <= Len(d)
        /\ Advance({kd \in DOMAIN E.r : E.r[kd].res = "ok"})
TAtEnd == /\ E.op = "atend" /\ it.on
          /\ \A kd \in DOMAIN E.r :
             CASE E.r[kd].res = "refused" -> it.dirty
               [] E.r[kd].res = "ok" -> ~Stale /\ E.r[kd].end = (it.pos[kd] = Len(d) + 1)
          /\ UNCHANGED <<d, it>>
\* write through a value reference obtained from the iterator
TWriteVia == /\ E.op = "write" /\ it.on /\ UNCHANGED it
             /\ \/ E.res = "ok" /\ ~Stale /\ d' = [d EXCEPT ![it.pos["value"]].v = E.v]
                \/ E.res = "refused" /\ it.dirty /\ UNCHANGED d
TSet == /\ E.op = "set" /\ UNCHANGED it     \* d[k] = v through operator[]
        /\ \/ E.res = "ok" /\ E.k \in KeysOf(d) /\ d' = Put(d, E.k, E.v)
           \/ E.res = "notfound" /\ E.k \notin KeysOf(d) /\ UNCHANGED d
\* the dictionary is replaced: by a list of pairs, refused if a key repeats
TInitList == /\ E.op = "initlist"
             /\ LET dup == \E i, j \in DOMAIN E.items : i # j /\ E.items[i][1] = E.items[j][1] IN
                \/ E.res = "refused" /\ dup /\ UNCHANGED <<d, it>>
                \/ /\ E.res = "ok" /\ ~dup /\ it' = NoIter
                   /\ d' = [i \in DOMAIN E.items |-> [k |-> E.items[i][1], v |-> E.items[i][2]]]
\* slot := copy of d; d := copy of slot; both stay independent
TSave == E.op = "save" /\ UNCHANGED <<d, it>>
TRestore == E.op = "restore" /\ d' = others[E.slot] /\ it' = NoIter
TReset == E.op = "reset" /\ d' = <<>> /\ it' = NoIter
TInit == Init /\ l = 1 /\ others = [s \in {"p", "q"} |-> <<>>]
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ (TInsert \/ TErase \/ TExtract \/ TClear \/ TReserve \/ TBegin \/ TFind \/ TDeref
             \/ TInc \/ TAtEnd \/ TWriteVia \/ TSet \/ TInitList \/ TSave \/ TRestore \/ TReset)
         /\ others' = IF E.op = "save" THEN [others EXCEPT ![E.slot] = d]
                      ELSE IF E.op = "reset" THEN [s \in {"p", "q"} |-> <<>>] ELSE others
         /\ (Has(E, "obs") => ObsOk(d', E.obs))
         /\ (Has(E, "p") => ObsOk(others'["p"], E.p) /\ ObsOk(others'["q"], E.q))
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
