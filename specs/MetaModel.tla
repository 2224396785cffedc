----------------------------- MODULE MetaModel -----------------------------
(* All histories of up to Depth operations on a data array and a dataset with
   small shapes: metadata always fits, refused operations change nothing,
   slices and items cannot be given other metadata, and changing the metadata
   of one object is seen only through views of it.                           *)
EXTENDS Meta
CONSTANTS Depth
VARIABLES S, n, last
vars == <<S, n, last>>
Nv(s, v) == [k |-> "new", s |-> s, v |-> v, const |-> FALSE]
Sx == << <<"x", 2>> >>
Sx3 == << <<"x", 3>> >>
Sy == << <<"y", 2>> >>
Sy3 == << <<"y", 3>> >>
NoArgs == [x \in {} |-> 0]
Step(T, e) == (CHOOSE r \in Outcomes(T, e) : TRUE).S
StartDA == Step(Empty, [op |-> "da", h |-> "p", nm |-> "a", data |-> Nv(Sx, <<1, 2>>), coords |-> [c \in {"x"} |-> Nv(Sx3, <<5, 6, 7>>)], masks |-> [m \in {"m"} |-> Nv(Sx, <<0, 1>>)]])
StartDS == Step(Step(StartDA, [op |-> "ds", h |-> "q", s |-> Sx, coords |-> [c \in {"c"} |-> Nv(Sx, <<3, 4>>)]]),
                [op |-> "dssetda", h |-> "q", n |-> "a", g |-> "p"])
Hs == {"p", "q"}
Args == {Nv(Sx, <<1, 0>>), Nv(Sx3, <<1, 2, 3>>), Nv(Sy, <<1, 2>>), Nv(Sy3, <<1, 2, 3>>), Nv(Sx3 \o Sy, <<1, 2, 3, 4, 5, 6>>), Nv(<<>>, <<9>>)}
Das(T) == {h \in DOMAIN T.H : T.H[h].k = "da"}
Dss(T) == {h \in DOMAIN T.H : T.H[h].k = "ds"}
Events(T) ==
    {[op |-> o, h |-> h, from |-> g] : o \in {"copy", "deep"}, h \in {"r"}, g \in DOMAIN T.H}
    \cup {[op |-> o, h |-> "r", from |-> g] : o \in {"view", "const"}, g \in Das(T)}
    \cup {[op |-> "item", h |-> "r", from |-> g, n |-> "a"] : g \in Dss(T)}
    \cup {[op |-> "slice", h |-> h, from |-> g, x |-> "x", b |-> b[1], e |-> b[2]] : h \in {"r"}, g \in DOMAIN T.H, b \in {<<0, -1>>, <<1, 2>>, <<2, 2>>}}
    \cup {[op |-> "rename", h |-> "r", from |-> g, p |-> << <<"x", y>> >>] : g \in DOMAIN T.H, y \in {"y", "x"}}
    \cup {[op |-> "drop", h |-> "r", from |-> g, kind |-> "coord", ns |-> <<"x">>] : g \in DOMAIN T.H}
    \cup {[op |-> "setcoord", h |-> h, n |-> c, via |-> "dict", var |-> a] : h \in DOMAIN T.H, c \in {"x"}, a \in Args}
    \cup {[op |-> "setmask", h |-> h, n |-> "m", var |-> a] : h \in Das(T), a \in {Nv(Sx, <<1, 0>>), Nv(Sy3, <<0, 0, 0>>)}}
    \cup {[op |-> "delcoord", h |-> h, n |-> "x"] : h \in DOMAIN T.H}
    \cup {[op |-> "delmask", h |-> h, n |-> "m"] : h \in Das(T)}
    \cup {[op |-> "align", h |-> h, n |-> "x", al |-> FALSE] : h \in DOMAIN T.H}
    \cup {[op |-> "setdata", h |-> h, var |-> a] : h \in Das(T), a \in {Nv(Sx, <<8, 9>>), Nv(Sx3, <<1, 2, 3>>)}}
    \cup {[op |-> "dsset", h |-> h, n |-> m, var |-> a] : h \in Dss(T), m \in {"a", "b"}, a \in {Nv(Sx, <<8, 9>>), Nv(Sy, <<8, 9>>)}}
    \cup {[op |-> "dssetda", h |-> h, n |-> "a", g |-> g] : h \in Dss(T), g \in Das(T)}
    \cup {[op |-> "erase", h |-> h, n |-> "a"] : h \in Dss(T)}
    \cup {[op |-> "write", h |-> h, kind |-> "coord", n |-> c, i |-> 1, val |-> 77] : h \in DOMAIN T.H, c \in {"x"}}
WriteOk(T, e) == e.op = "write" => e.n \in DOMAIN CoordsOf(T, T.H[e.h])
Init == S = StartDS /\ n = 0 /\ last = [ok |-> TRUE, op |-> "start"]
Next == /\ n < Depth
        /\ \E e \in Events(S) : WriteOk(S, e) /\ \E r \in Outcomes(S, e) :
             /\ S' = r.S /\ n' = n + 1
             /\ last' = [ok |-> r.ok, op |-> e.op, h |-> e.h]
Spec == Init /\ [][Next]_vars
Inv == AllFit(S)
(* ---- what an operation may change ---- *)
Changes == {"setcoord", "setmask", "delcoord", "delmask", "align", "setdata", "dsset", "dssetda", "erase", "write"}
Content(T, h) == ObsObj(T, T.H[h])
Reaches(T, h) == LET o == T.H[h] IN IF IsDA(o) THEN {<<"C", o.co>>, <<"M", o.ma>>, <<"D", o.dat>>}
                 ELSE {<<"C", o.co>>} \cup UNION {{<<"M", o.it[i].ma>>, <<"D", o.it[i].dat>>} : i \in DOMAIN o.it}
Refusals == [][~last'.ok => S' = S]_vars
\* read-only dicts stay as they are
Slices == [][\A c \in DOMAIN S.C : S.C[c].ro => S'.C[c].it = S.C[c].it]_vars
\* changing metadata of one object is seen only through objects that share the dict
Isolated == [][last'.ok /\ last'.op \in (Changes \ {"write"}) =>
                 \A h \in DOMAIN S.H : (h # last'.h /\ Reaches(S, h) \cap Reaches(S, last'.h) = {}) => Content(S', h) = Content(S, h)]_vars
\* a new object does not change others
Fresh1 == [][last'.op \notin Changes => \A h \in DOMAIN S.H : h = last'.h \/ Content(S', h) = Content(S, h)]_vars
\* an item never offers a way to change the coords of its dataset
Items == \A h \in DOMAIN S.H : LET o == S.H[h] IN ~IsDA(o) => \A g \in DOMAIN S.H :
            (IsDA(S.H[g]) /\ \E i \in DOMAIN o.it : o.it[i].dat = S.H[g].dat) => S.H[g].co # o.co
=============================================================================
