----------------------------- MODULE JsonTextMC -----------------------------
(* Laws of reading and writing JSON, over all short texts of an alphabet and *)
(* over all small values.                                                    *)
EXTENDS JsonText
CONSTANTS Alphabet, MaxLen, Words
VARIABLES t
vars == <<t>>
Init == t = <<>>
Next == /\ Len(t) < MaxLen
        /\ t' \in {t \o w : w \in {<<c>> : c \in Alphabet} \cup Words}
Spec == Init /\ [][Next]_vars
QuickWords == {<<47, 42, 42, 47>>, <<34, 97, 34>>, <<34, 97, 34, 58>>, TrueWord}
All == [comments : BOOLEAN, trailing : BOOLEAN, any : BOOLEAN]
Strict == [comments |-> FALSE, trailing |-> FALSE, any |-> FALSE]
Loose == [comments |-> TRUE, trailing |-> TRUE, any |-> TRUE]
\* a feature only ever makes more texts acceptable, and does not change what they denote
Monotone == \A f \in All : \A g \in All :
    ((f.comments => g.comments) /\ (f.trailing => g.trailing) /\ (f.any => g.any) /\ Parse(t, f).ok) => Parse(t, g) = Parse(t, f)
\* what is written is strict JSON which denotes the same
RECURSIVE Shorter(_)
Shorter(v) == CASE IsA(v, "a") -> \A k \in 1..Len(v[2]) : Shorter(v[2][k])
                [] IsA(v, "o") -> \A k \in 1..Len(v[2]) : Shorter(v[2][k][2])
                [] IsA(v, "f") -> FALSE
                [] IsA(v, "i") -> v[2]
                [] OTHER -> TRUE
Written == LET r == Parse(t, Loose) IN
    r.ok => \A w \in Texts(r.v) :
        LET back == Parse(w, [Strict EXCEPT !.any = TRUE]) IN back.ok /\ (Shorter(r.v) => back.v = r.v)
\* white space around a text, and a comment where those are allowed, does not matter
Blanks == \A f \in All : LET r == Parse(t, f) IN
    r.ok => /\ Parse(<<32, 10>> \o t \o <<9, 13>>, f).v = r.v
            /\ f.comments => Parse(t \o <<47, 42, 42, 47>>, f).v = r.v
\* no text is acceptable both as it is and with something else after it, unless it is a number or blank follows
Complete == \A f \in All : (Parse(t, f).ok /\ IsContainer(Parse(t, f).v)) => ~Parse(t \o <<93>>, f).ok
=============================================================================
