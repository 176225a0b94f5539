----------------------------- MODULE JsonTreeMC -----------------------------
(* Every sequence of operations on two small values.                         *)
EXTENDS JsonTree, TLC
CONSTANTS MaxSize
Keys == {<<97>>, <<98>>}
VARIABLES last
Leaf == {Null, <<"s", <<97>>>>}
Vals == Leaf \cup {Arr(<<Null>>), Obj(<<>>), Arr(<<<<"s", <<98>>>>, Null>>)}
MCInit == JInit /\ last = [threw |-> FALSE]
Start == Vals \cup {Arr(<<>>), <<"b", TRUE>>}
Whole == \/ \E v \in Start : Set(v, o)
         \/ Copy \/ Move \/ Swap \/ Clear
Positions == 0..MaxSize
Access(threw) ==
    \/ \E i \in Positions : TakeElement(threw, i) \/ EraseIndex(i, threw) \/ Resize(i, threw) \/ EraseAt(i, TRUE, threw, i)
    \/ \E i \in Positions, v \in Vals : AtIndex(i, threw, v)
    \/ \E i \in Positions, v \in Vals, old \in Vals : PutIndex(i, v, threw, old)
    \/ \E key \in Keys, v \in Vals : AtKey(key, threw, v)
    \/ \E key \in Keys, v \in Vals, old \in Vals : PutKey(key, v, threw, old)
    \/ \E v \in Vals : FirstOf(threw, v) \/ LastOf(threw, v) \/ Push(v, threw)
Ranges(v) == {r \in Positions \X Positions : r[1] <= r[2] /\ (IsContainer(v) => r[2] <= Size(v))}
Change(threw) ==
    \/ Pop(threw) \/ BadKey(threw) \/ Merge(threw, TRUE)
    \/ \E i \in Positions, own \in BOOLEAN, v \in Vals : InsertAt0(i, <<v>>, own /\ i <= Size(j), threw, i)
    \/ \E r \in Ranges(j) : EraseRange(r[1], r[2], IsContainer(j), threw, r[1])
    \/ \E r \in Ranges(o) : \E own \in BOOLEAN : InsertMembers(r[1], r[2], own, threw)
    \/ \E r \in Ranges(o), i \in 0..Size(j) : InsertRange(i, r[1], r[2], IsA(j, "a"), threw, i)
    \/ \E key \in Keys, v \in Vals, at \in Positions, fresh \in BOOLEAN :
         InsertKey(key, v, threw, at, fresh) \/ AssignKey(key, v, threw, at, fresh) \/ EmplaceKey(key, v, threw, at, fresh)
    \/ \E key \in Keys, n \in 0..1 : EraseKey(key, threw, n)
    \/ (~threw /\ \E v \in Vals, w \in Vals : FromList(<<v, w>>))
MCOp(threw) == (~threw /\ Whole) \/ Access(threw) \/ Change(threw)
MCNext == \E threw \in BOOLEAN : MCOp(threw) /\ last' = [threw |-> threw]
RECURSIVE Bounded(_, _)
Bounded(v, d) ==
    IF ~IsContainer(v) THEN Size(v) <= MaxSize
    ELSE d > 0 /\ Size(v) <= MaxSize /\ \A k \in 1..Size(v) : Bounded(Elements(v)[k], d - 1)
Small == Bounded(j, 2) /\ Bounded(o, 2)
Spec == MCInit /\ [][MCNext]_<<jvars, last>>
RECURSIVE WellFormed(_)
WellFormed(v) ==
    CASE IsA(v, "a") -> \A k \in 1..Len(v[2]) : WellFormed(v[2][k])
      [] IsA(v, "o") -> /\ \A k \in 1..Len(v[2]) : WellFormed(v[2][k][2])
                        /\ \A k \in 1..(Len(v[2]) - 1) : LexLess(v[2][k][1], v[2][k + 1][1])
      [] OTHER -> TRUE
Sorted == WellFormed(j) /\ WellFormed(o)
\* a refused operation leaves both values alone, but for the promotion of null
Unharmed == [][last'.threw => /\ o' = o
                              /\ \/ j' = j
                                 \/ j = Null /\ j' \in {Arr(<<>>), Obj(<<>>)}]_<<jvars, last>>
\* no member is lost by merging: what o had is in j or still in o
Members(v) == IF IsA(v, "o") THEN {v[2][k] : k \in 1..Len(v[2])} ELSE {}
MergeLosesNothing ==
    [][Merge(FALSE, TRUE) => /\ Members(j') \cup Members(o') = Members(j) \cup Members(o)
                             /\ Members(j) \subseteq Members(j')]_<<jvars, last>>
=============================================================================
