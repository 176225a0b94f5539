---------------------------- MODULE OwnershipMC ----------------------------
(* Every sequence of operations on three slots.                               *)
EXTENDS Ownership
CONSTANT MaxHandle
Next ==
    \/ \E k \in Slots, h \in 1..MaxHandle, a \in BOOLEAN : Create(k, h, a)
    \/ \E j, k \in Slots : Move(k, j) \/ Assign(k, j)
    \/ \E k \in Slots : Is(k) /\ (\/ Close(k) \/ Destroy(k)
                                  \/ \E x, y \in BOOLEAN : Mode(k, x, y)
                                  \/ \E y \in BOOLEAN : Listen(k, y) \/ AcceptOne(k, y)
                                  \/ \E r \in BOOLEAN, n \in 0..2 : Connect(k, r, n))
Spec == OwnInit /\ [][Next]_ovars
\* a handle stays with its object, goes to another one together with mode and state, or is closed
Travels == [][\A k \in Slots : obj[k].h > 0 /\ obj'[k] # obj[k] =>
                \/ obj'[k].h = obj[k].h
                \/ \E j \in Slots : obj'[j] = obj[k]
                \/ obj[k].h \notin {obj'[j].h : j \in Slots}]_ovars
\* at most one handle is opened or closed by each operation
Single == [][Cardinality({obj'[k].h : k \in Slots} \ {0, -1}) \in {Cardinality(Handles) - 1, Cardinality(Handles), Cardinality(Handles) + 1}]_ovars
=============================================================================
