-------------------------------- MODULE Ini ---------------------------------
(* INI files: sections in brackets, each with lines  name=value.  What names *)
(* and values denote is what JSON strings written like them denote.          *)
(* A value in quotes which begins or ends with another quote is left open.   *)
EXTENDS JsonText

Blank(c) == c = 32 \/ (c >= 9 /\ c <= 13)
Trimmed(s) ==
    LET solid == {k \in 1..Len(s) : ~Blank(s[k])}
    IN IF solid = {} THEN <<>>
       ELSE SubSeq(s, CHOOSE k \in solid : \A i \in solid : k <= i, CHOOSE k \in solid : \A i \in solid : i <= k)
Single == 39
Double == 34
Quotes == {Single, Double}
Ends(s, cs) == s # <<>> /\ (s[1] \in cs \/ s[Len(s)] \in cs)
Enclosed(s, a, b) == Len(s) > 1 /\ s[1] = a /\ s[Len(s)] = b
Inside(s) == SubSeq(s, 2, Len(s) - 1)

\* the state of reading: ok, open (nothing is promised any more), the sections, and the name of the last one
Begun == [ok |-> TRUE, open |-> FALSE, secs |-> <<>>, cur |-> <<None>>]
Failed(st) == [st EXCEPT !.ok = FALSE]
SectionLine(st, line) ==
    IF ~Enclosed(line, 91, 93) THEN Failed(st)
    ELSE LET raw == Trimmed(Inside(line)) name == Unquote(raw) IN
         IF Ends(raw, Quotes) \/ name = <<None>> THEN Failed(st)
         ELSE [st EXCEPT !.secs = Assign(@, name, <<"o", <<>>>>), !.cur = name]
Value1(v) == \* [ok, open, v]
    IF Enclosed(v, Single, Single) THEN [ok |-> TRUE, open |-> Ends(Inside(v), {Double}), v |-> Inside(v)]
    ELSE IF Enclosed(v, Double, Double) THEN [ok |-> TRUE, open |-> Ends(Inside(v), {Single}), v |-> Inside(v)]
    ELSE [ok |-> ~Ends(v, Quotes), open |-> FALSE, v |-> v]
PairLine(st, line) ==
    LET eqs == {k \in 1..Len(line) : line[k] = 61}
        p == CHOOSE k \in eqs : \A i \in eqs : k <= i
        raw == Trimmed(SubSeq(line, 1, p - 1))
        val == Value1(Trimmed(SubSeq(line, p + 1, Len(line))))
        name == Unquote(raw)
        text == Unquote(val.v)
    IN IF st.cur = <<None>> \/ eqs = {} THEN Failed(st)
       ELSE IF p = 1 \/ p = Len(line) \/ Ends(raw, Quotes) \/ ~val.ok THEN Failed(st)
       ELSE IF val.open THEN [st EXCEPT !.open = TRUE]
       ELSE IF name = <<None>> \/ text = <<None>> THEN Failed(st)
       ELSE [st EXCEPT !.secs = Assign(@, st.cur, <<"o", Assign(@[KeyIndex(@, st.cur)][2][2], name, <<"s", text>>)>>)]
Line(st, raw) ==
    LET line == Trimmed(raw) IN
    IF ~st.ok \/ st.open \/ line = <<>> \/ line[1] = 59 THEN st
    ELSE IF line[1] = 91 \/ line[Len(line)] = 93 THEN SectionLine(st, line)
    ELSE PairLine(st, line)
RECURSIVE Lines(_, _, _)
Lines(t, p, st) == \* from position p on
    IF p > Len(t) THEN st
    ELSE LET e == First(p, Len(t), LAMBDA k : t[k] = 10) IN Lines(t, e + 1, Line(st, SubSeq(t, p, e - 1)))
ParseIni(t) ==
    LET st == Lines(t, 1, Begun)
    IN [ok |-> st.ok /\ st.secs # <<>>, open |-> st.open, v |-> <<"o", st.secs>>]

\* what is written by hand for sections of names and values
Line1(name, v) == name \o <<61, 34>> \o v \o <<34, 10>>
=============================================================================
