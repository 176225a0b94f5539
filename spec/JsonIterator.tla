---------------------------- MODULE JsonIterator ----------------------------
(* Iterators over JSON arrays and objects, forward and in reverse.  An       *)
(* iterator is empty, or stands at a position of one of the documents.  What *)
(* cannot be done raises the exception which says why, and moves nothing:    *)
(*   null      the iterator is empty, or there is nothing to refer to        *)
(*   range     the position would be outside of the document                 *)
(*   iterator  the document's type does not have the operation               *)
(*   compare   the iterators are of different documents                      *)
EXTENDS Naturals, Integers, Sequences
CONSTANTS Slots, Docs
VARIABLES rev, doc, its
ivars == <<rev, doc, its>>
Empty == [on |-> 0, at |-> 0]
NoDoc == [kind |-> "x", el |-> <<>>]
ItInit == rev = FALSE /\ doc = [d \in Docs |-> NoDoc] /\ its = [s \in Slots |-> Empty]
Fine == "fine"

On(s) == doc[its[s].on]
Len0(s) == Len(On(s).el)
\* how many steps of the iterator lead to the end, and to the beginning
Ahead(s) == IF rev THEN its[s].at ELSE Len0(s) - its[s].at
Behind(s) == IF rev THEN Len0(s) - its[s].at ELSE its[s].at
\* the position n steps further, and the element an iterator there refers to
Step0(s, n) == IF rev THEN its[s].at - n ELSE its[s].at + n
Element(s, p) == On(s).el[IF rev THEN p ELSE p + 1]
KeyAt(s, p) == IF rev THEN p ELSE p + 1
Inside(s, n) == -Behind(s) <= n /\ n <= Ahead(s)

Load(d, kind, el) ==
    /\ doc' = [doc EXCEPT ![d] = [kind |-> kind, el |-> el]]
    /\ UNCHANGED <<rev, its>>
Direction(r) == rev' = r /\ UNCHANGED <<doc, its>>
Clear(s) == its' = [its EXCEPT ![s] = Empty] /\ UNCHANGED <<rev, doc>>
CopyIt(s, t) == its' = [its EXCEPT ![s] = its[t]] /\ UNCHANGED <<rev, doc>>
\* first: at the first element in the iterator's direction; or past the last
Make(s, d, first, err) ==
    IF doc[d].kind = "x" THEN err = "iterator" /\ UNCHANGED ivars
    ELSE /\ err = Fine
         /\ its' = [its EXCEPT ![s] = [on |-> d, at |-> IF first = rev THEN Len(doc[d].el) ELSE 0]]
         /\ UNCHANGED <<rev, doc>>
Errors(s, wrongType, outside, nothing) ==
    IF its[s].on = 0 THEN {"null"}
    ELSE (IF wrongType THEN {"iterator"} ELSE {}) \cup (IF outside THEN {"range"} ELSE {}) \cup (IF nothing THEN {"null"} ELSE {})
Raises(err, errs) == IF errs = {} THEN err = Fine ELSE err \in errs
\* ---- what it refers to
Deref(s, err, v) ==
    /\ UNCHANGED ivars
    /\ Raises(err, Errors(s, FALSE, FALSE, IF its[s].on = 0 THEN TRUE ELSE Ahead(s) = 0))
    /\ err = Fine => v = Element(s, its[s].at)
Key(s, err, k) ==
    /\ UNCHANGED ivars
    /\ Raises(err, IF its[s].on = 0 THEN {"null"} ELSE Errors(s, On(s).kind = "a", FALSE, Ahead(s) = 0))
    /\ err = Fine => k = KeyAt(s, its[s].at)
Index(s, n, err, v) ==
    /\ UNCHANGED ivars
    /\ Raises(err, IF its[s].on = 0 THEN {"null"} ELSE
                   IF On(s).kind = "o" THEN {"iterator"} ELSE Errors(s, FALSE, ~Inside(s, n), Inside(s, n) /\ n = Ahead(s)))
    /\ err = Fine => v = Element(s, Step0(s, n))
Write(s, err, v) ==
    IF its[s].on # 0 /\ (IF its[s].on = 0 THEN FALSE ELSE Ahead(s) > 0)
    THEN /\ err = Fine
         /\ doc' = [doc EXCEPT ![its[s].on].el[IF rev THEN its[s].at ELSE its[s].at + 1] = v]
         /\ UNCHANGED <<rev, its>>
    ELSE err = "null" /\ UNCHANGED ivars
\* ---- moving
Moved(s, n) == [its[s] EXCEPT !.at = Step0(s, n)]
Walk(s, n, err) == \* one step forward or back, in arrays and objects
    IF its[s].on = 0 THEN err = "null" /\ UNCHANGED ivars
    ELSE IF ~Inside(s, n) THEN err = "range" /\ UNCHANGED ivars
    ELSE err = Fine /\ its' = [its EXCEPT ![s] = Moved(s, n)] /\ UNCHANGED <<rev, doc>>
\* as well, and leaves in t where it was
WalkAfter(s, n, t, err) ==
    IF its[s].on = 0 THEN err = "null" /\ UNCHANGED ivars
    ELSE IF ~Inside(s, n) THEN err = "range" /\ UNCHANGED ivars
    ELSE err = Fine /\ its' = [its EXCEPT ![s] = Moved(s, n), ![t] = its[s]] /\ UNCHANGED <<rev, doc>>
JumpErrors(s, n) == IF its[s].on = 0 THEN {"null"} ELSE IF On(s).kind = "o" THEN {"iterator"} ELSE IF Inside(s, n) THEN {} ELSE {"range"}
Jump(s, n, t, err) == \* t becomes s and n steps
    /\ Raises(err, JumpErrors(s, n))
    /\ IF err = Fine THEN its' = [its EXCEPT ![t] = Moved(s, n)] /\ UNCHANGED <<rev, doc>> ELSE UNCHANGED ivars
\* ---- two iterators
PairErrors(s, t, ordered) ==
    IF its[s].on = 0 \/ its[t].on = 0 THEN {"null"}
    ELSE IF its[s].on # its[t].on THEN {"compare"}
    ELSE IF ordered /\ On(s).kind = "o" THEN {"iterator"} ELSE {}
Dist(s, t) == IF rev THEN its[t].at - its[s].at ELSE its[s].at - its[t].at
Same(s, t, err, eq, ne) ==
    /\ UNCHANGED ivars
    /\ Raises(err, PairErrors(s, t, FALSE))
    /\ err = Fine => eq = (Dist(s, t) = 0) /\ ne = ~eq
Order(s, t, err, lt, le, gt, ge) ==
    /\ UNCHANGED ivars
    /\ Raises(err, PairErrors(s, t, TRUE))
    /\ err = Fine => /\ lt = (Dist(s, t) < 0) /\ le = (Dist(s, t) <= 0)
                     /\ gt = (Dist(s, t) > 0) /\ ge = (Dist(s, t) >= 0)
Difference(s, t, err, n) ==
    /\ UNCHANGED ivars
    /\ Raises(err, PairErrors(s, t, TRUE))
    /\ err = Fine => n = Dist(s, t)

Standing == \A s \in Slots : its[s].on # 0 => its[s].at \in 0..Len(doc[its[s].on].el)
=============================================================================
