-------------------------- MODULE JsonIteratorMC ----------------------------
EXTENDS JsonIterator
CONSTANTS MaxLen
Kinds == {"a", "o", "x"}
Errs == {Fine, "null", "range", "iterator", "compare"}
MCInit ==
    /\ rev \in BOOLEAN
    /\ doc \in [Docs -> {[kind |-> k, el |-> [i \in 1..n |-> i]] : k \in Kinds, n \in 0..MaxLen}]
    /\ its = [s \in Slots |-> Empty]
Far == -(MaxLen + 1)..(MaxLen + 1)
MCNext == \E s \in Slots, t \in Slots, e \in Errs :
    \/ Clear(s) \/ CopyIt(s, t)
    \/ \E d \in Docs, f \in BOOLEAN : Make(s, d, f, e)
    \/ \E n \in {-1, 1} : Walk(s, n, e) \/ WalkAfter(s, n, t, e)
    \/ \E n \in Far : Jump(s, n, t, e)
Spec == MCInit /\ [][MCNext]_ivars
\* no operation is without an answer
Answered == \A s \in Slots, t \in Slots :
    /\ \E e \in Errs : Raises(e, JumpErrors(s, 1))
    /\ PairErrors(s, t, FALSE) \subseteq PairErrors(s, t, TRUE)
    /\ PairErrors(s, t, TRUE) = PairErrors(t, s, TRUE)
\* from begin to end there are as many steps as elements, and each element is met once
Complete == \A s \in Slots :
    its[s].on # 0 => /\ Ahead(s) + Behind(s) = Len0(s)
                     /\ \A n \in Far : Inside(s, n) => Step0(s, n) \in 0..Len0(s)
                     /\ Ahead(s) > 0 => Element(s, its[s].at) = (IF rev THEN Len0(s) - Behind(s) ELSE Behind(s) + 1)
=============================================================================
