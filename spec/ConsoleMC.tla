------------------------------ MODULE ConsoleMC ------------------------------
(* An implementation by escape sequences, as the library has, against the      *)
(* specification: all short lists of modifiers, in nested scopes.              *)
EXTENDS Console
CONSTANTS MaxMods, MaxOpen, MaxSteps
VARIABLES wrong, steps
vars == <<cvars, wrong, steps>>
Mods == {<<"style", "bold">>, <<"style", "default">>, <<"style", "strike">>, <<"fg", 2>>, <<"fg", 200>>, <<"bg", 9>>, <<"up", 3>>, <<"backward", 0>>}
Lists == UNION {[1..n -> Mods] : n \in 0..MaxMods}
Code(m) == CASE m[1] = "style" -> Decimal(CASE m[2] = "bold" -> 1 [] m[2] = "strike" -> 9 [] OTHER -> 0)
             [] m[1] = "fg" -> IF m[2] < 8 THEN Decimal(30 + m[2]) ELSE <<51, 56, 59, 53, 59>> \o Decimal(m[2])
             [] m[1] = "bg" -> IF m[2] < 8 THEN Decimal(40 + m[2]) ELSE <<52, 56, 59, 53, 59>> \o Decimal(m[2])
Moving(m) == <<27, 91>> \o Decimal(IF m[2] = 0 THEN 1 ELSE m[2])
             \o (CASE m[1] = "up" -> <<65>> [] m[1] = "down" -> <<66>> [] m[1] = "forward" -> <<67>> [] OTHER -> <<68>>)
RECURSIVE Join(_)
Join(ms) == IF ms = <<>> THEN <<>> ELSE IF Len(ms) = 1 THEN Code(ms[1]) ELSE Code(ms[1]) \o <<59>> \o Join(Tail(ms))
RECURSIVE Moves(_)
Moves(ms) == IF ms = <<>> THEN <<>> ELSE Moving(Head(ms)) \o Moves(Tail(ms))
Encode(s, mods) ==
    IF s = Other THEN <<>>
    ELSE LET looks == SelectSeq(mods, IsStyle) \o SelectSeq(mods, IsColor)
         IN (IF looks = <<>> THEN <<>> ELSE <<27, 91>> \o Join(looks) \o <<109>>)
            \o Moves(SelectSeq(mods, LAMBDA m : ~IsStyle(m) /\ ~IsColor(m)))
Reset(s, mods) == IF s # Other /\ Changes(mods) THEN <<27, 91, 48, 109>> ELSE <<>>
Items == {<<>>, <<<<"number", 12>>>>}
MCInit == CInit /\ wrong = FALSE /\ steps = 0
Do(A) == steps' = steps + 1 /\ (IF ENABLED A THEN A /\ UNCHANGED wrong ELSE wrong' = TRUE /\ UNCHANGED cvars)
Next ==
    /\ steps < MaxSteps
    /\ \/ \E s \in {1, 3}, mods \in Lists, items \in Items, keep \in BOOLEAN :
            /\ (keep => Len(open) < MaxOpen /\ mods # <<>>)
            /\ Do(Printed(s, mods, keep, items, Encode(s, mods) \o ShownAll(form[s], items) \o (IF keep THEN <<>> ELSE Reset(s, mods))))
       \/ open # <<>> /\ Do(Close(IF open[Len(open)].did THEN <<27, 91, 48, 109>> ELSE <<>>))
       \/ \E f \in {Usual, [Usual EXCEPT !.base = 16, !.prefix = TRUE, !.width = 6, !.fill = 48]} : Do(Format(1, f))
Spec == MCInit /\ [][Next]_vars
Conforms == ~wrong
\* nothing of a style remains once all stylers are gone
NoBleed == open = <<>> => term[1].attr = Plain
Quiet == term[2] = Blank
=============================================================================
