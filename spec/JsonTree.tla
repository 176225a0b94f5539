------------------------------ MODULE JsonTree ------------------------------
(* Two JSON values, j and o, and the operations on them.  An operation which *)
(* does not apply to the type or position it is given raises an exception,   *)
(* and changes nothing (except that a null value may have become an empty    *)
(* container meanwhile, where the operation makes one of it).                *)
EXTENDS JsonValue
VARIABLES j, o
jvars == <<j, o>>
JInit == j = Null /\ o = Null

Arr(s) == <<"a", s>>
Obj(ms) == <<"o", ms>>
Size(v) == CASE IsA(v, "n") -> 0 [] v[1] \in {"s", "a", "o"} -> Len(v[2]) [] OTHER -> 1
Elements(v) == IF IsA(v, "o") THEN [k \in 1..Len(v[2]) |-> v[2][k][2]] ELSE v[2]
\* null can become an array or an object when something is put into it
Promoted(v, tag) == IF IsA(v, "n") THEN <<tag, <<>>>> ELSE v
Refused(threw, tag) == threw /\ j' \in {j, Promoted(j, tag)} /\ UNCHANGED o
Throws(threw) == threw /\ UNCHANGED jvars
Done(threw, v) == ~threw /\ j' = v /\ UNCHANGED o
Keep(threw) == ~threw /\ UNCHANGED jvars

Set(v, w) == j' = v /\ o' = w
Copy == j' = o /\ UNCHANGED o
Move == j' = o /\ o' = Null
Swap == j' = o /\ o' = j
\* with a container of numbers, whose value is v before and w afterwards
Little(x) == x[1] \in {"i", "u"} /\ Len(x[3]) <= 4
SameNumber(x, y) == x[2] = y[2] /\ x[3] = y[3]
SwapNumbers(tag, v, threw, w) ==
    LET es == IF IsA(j, tag) THEN Elements(j) ELSE <<>>
        fits == IsA(j, tag) /\ \A k \in 1..Len(es) : Little(es[k])
        never == ~IsA(j, tag) \/ \E k \in 1..Len(es) : es[k][1] \in {"n", "a", "o"}
    IN /\ (fits => ~threw) /\ (never => threw) /\ UNCHANGED o
       /\ IF threw THEN j' = j /\ w = v
          ELSE /\ j' = v /\ IsA(w, tag) /\ Size(w) = Size(j)
               /\ tag = "o" => \A k \in 1..Size(j) : w[2][k][1] = j[2][k][1]
               /\ fits => \A k \in 1..Size(j) : SameNumber(Elements(w)[k], es[k])
\* the value replaced by one of its own elements
TakeElement(threw, i) ==
    IF IsContainer(j) /\ i < Size(j) THEN Done(threw, Elements(j)[i + 1]) ELSE Throws(threw)

\* ---- access
AtKey(key, threw, v) ==
    IF IsA(j, "o") /\ HasKey(j[2], key) THEN Keep(threw) /\ v = j[2][KeyIndex(j[2], key)][2] ELSE Throws(threw)
AtIndex(i, threw, v) == IF IsA(j, "a") /\ i < Len(j[2]) THEN Keep(threw) /\ v = j[2][i + 1] ELSE Throws(threw)
FirstOf(threw, v) == IF IsContainer(j) /\ Size(j) > 0 THEN Keep(threw) /\ v = Elements(j)[1] ELSE Throws(threw)
LastOf(threw, v) == IF IsContainer(j) /\ Size(j) > 0 THEN Keep(threw) /\ v = Elements(j)[Size(j)] ELSE Throws(threw)
\* old: what was there before the new value was assigned
PutKey(key, v, threw, old) ==
    LET p == Promoted(j, "o") IN
    IF IsA(p, "o")
    THEN /\ Done(threw, Obj(Assign(p[2], key, v)))
         /\ old = (IF HasKey(p[2], key) THEN p[2][KeyIndex(p[2], key)][2] ELSE Null)
    ELSE Throws(threw)
PutIndex(i, v, threw, old) ==
    LET p == Promoted(j, "a") IN
    IF IsA(p, "a")
    THEN LET grown == IF i < Len(p[2]) THEN p[2] ELSE p[2] \o [k \in 1..(i + 1 - Len(p[2])) |-> Null]
         IN Done(threw, Arr([grown EXCEPT ![i + 1] = v])) /\ old = grown[i + 1]
    ELSE Throws(threw)
\* a key which is not a string of JSON
BadKey(threw) == Refused(threw, "o")

\* ---- size
Measure(size, empty, capacity) ==
    /\ UNCHANGED jvars
    /\ size = Size(j)
    /\ empty = (Size(j) = 0)
    /\ IF j[1] \in {"s", "a"} THEN capacity >= Size(j) ELSE capacity = Size(j)
Resize(n, threw) ==
    IF j[1] \in {"s", "a"}
    THEN Done(threw, <<j[1], IF n <= Len(j[2]) THEN SubSeq(j[2], 1, n)
                             ELSE j[2] \o [k \in 1..(n - Len(j[2])) |-> IF IsA(j, "s") THEN 0 ELSE Null]>>)
    ELSE Throws(threw)
Reserve(n, threw, capacity) == IF j[1] \in {"s", "a"} THEN Keep(threw) /\ capacity >= n ELSE Throws(threw)
Clear ==
    /\ UNCHANGED o
    /\ j' = (CASE j[1] \in {"s", "a", "o"} -> <<j[1], <<>>>>
               [] IsA(j, "b") -> <<"b", FALSE>>
               [] IsA(j, "f") -> <<"f", FALSE, <<>>, 0>>
               [] j[1] \in {"i", "u"} -> <<j[1], FALSE, <<0>>>>
               [] OTHER -> Null)

\* ---- arrays
Push(v, threw) == LET p == Promoted(j, "a") IN IF IsA(p, "a") THEN Done(threw, Arr(Append(p[2], v))) ELSE Throws(threw)
Pop(threw) == IF IsA(j, "a") /\ j[2] # <<>> THEN Done(threw, Arr(SubSeq(j[2], 1, Len(j[2]) - 1))) ELSE Throws(threw)
\* before position i of the array (own: whether that position belongs to j)
InsertAt0(i, vs, own, threw, at) ==
    IF IsA(j, "a") /\ own
    THEN Done(threw, Arr(SubSeq(j[2], 1, i) \o vs \o SubSeq(j[2], i + 1, Len(j[2])))) /\ at = i
    ELSE Throws(threw)
InsertRange(i, from, to, own, threw, at) == \* elements from..to-1 of o
    IF IsA(o, "a") THEN InsertAt0(i, SubSeq(o[2], from + 1, to), own, threw, at) ELSE Throws(threw)
EraseIndex(i, threw) ==
    IF IsA(j, "a") /\ i < Len(j[2]) THEN Done(threw, Arr(SubSeq(j[2], 1, i) \o SubSeq(j[2], i + 2, Len(j[2])))) ELSE Throws(threw)
\* by position, in arrays and objects
EraseRange(from, to, own, threw, at) ==
    IF IsContainer(j) /\ own
    THEN Done(threw, <<j[1], SubSeq(j[2], 1, from) \o SubSeq(j[2], to + 1, Len(j[2]))>>) /\ at = from
    ELSE Throws(threw)
EraseAt(i, own, threw, at) == IF IsContainer(j) /\ i >= Size(j) THEN Throws(threw) ELSE EraseRange(i, i + 1, own, threw, at)

\* ---- objects
InsertKey(key, v, threw, at, fresh) ==
    IF IsA(j, "o")
    THEN /\ Done(threw, Obj(Insert(j[2], key, v)))
         /\ fresh = ~HasKey(j[2], key) /\ at = Before(j[2], key)
    ELSE Throws(threw)
AssignKey(key, v, threw, at, fresh) ==
    IF IsA(j, "o")
    THEN /\ Done(threw, Obj(Assign(j[2], key, v)))
         /\ fresh = ~HasKey(j[2], key) /\ at = Before(j[2], key)
    ELSE Throws(threw)
EmplaceKey(key, v, threw, at, fresh) ==
    LET p == Promoted(j, "o") IN
    IF IsA(p, "o")
    THEN /\ Done(threw, Obj(Insert(p[2], key, v)))
         /\ fresh = ~HasKey(p[2], key) /\ at = Before(p[2], key)
    ELSE Throws(threw)
RECURSIVE Union(_, _)
Union(ms, more) == IF more = <<>> THEN ms ELSE Union(Insert(ms, Head(more)[1], Head(more)[2]), Tail(more))
InsertMembers(from, to, own, threw) == \* members from..to-1 of o
    IF own /\ IsA(o, "o") /\ IsA(j, "o") THEN Done(threw, Obj(Union(j[2], SubSeq(o[2], from + 1, to)))) ELSE Throws(threw)
EraseKey(key, threw, n) ==
    IF IsA(j, "o") THEN Done(threw, Obj(Without(j[2], key))) /\ n = (IF HasKey(j[2], key) THEN 1 ELSE 0) ELSE Throws(threw)
Lookup(key, threw, n, has, at) ==
    IF IsA(j, "o")
    THEN /\ Keep(threw)
         /\ has = HasKey(j[2], key) /\ n = (IF has THEN 1 ELSE 0)
         /\ at = (IF has THEN KeyIndex(j[2], key) - 1 ELSE Len(j[2]))
    ELSE Throws(threw)
\* A list of values is an object if each is an array of a string and something else.
Pair(v) == IsA(v, "a") /\ Len(v[2]) = 2 /\ IsA(v[2][1], "s")
Listed(vs) ==
    IF \A k \in 1..Len(vs) : Pair(vs[k])
    THEN Obj(Union(<<>>, [k \in 1..Len(vs) |-> <<vs[k][2][1][2], vs[k][2][2]>>]))
    ELSE Arr(vs)
FromList(vs) == j' = Listed(vs) /\ UNCHANGED o
\* Members of o whose key j has already stay in o; the others move.
Merge(threw, kept) ==
    LET p == Promoted(j, "o") IN
    IF IsA(p, "o") /\ IsA(o, "o")
    THEN /\ ~threw
         /\ j' = Obj(Union(p[2], o[2]))
         /\ kept => o' = Obj(SelectSeq(o[2], LAMBDA m : HasKey(p[2], m[1])))
         /\ ~kept => o' = Null
    ELSE Refused(threw, "o")
=============================================================================
