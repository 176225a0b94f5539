------------------------------ MODULE Console ------------------------------
(* What the library shows on a terminal: text in styles (fly::logger::Styler), *)
(* the lines of a console logger, and failed assertions.                       *)
(*                                                                             *)
(* A styler gives what is printed after it its styles and colours, until it    *)
(* goes out of scope; and moves the cursor.  Streams which are not the         *)
(* terminal get nothing but the text.  How the program formats its own numbers *)
(* on the stream (base, width, ...) is no concern of the styler, and goes on   *)
(* to apply to what the program prints next.                                   *)
EXTENDS Terminal, Calendar, FiniteSets, TLC

VARIABLES term,   \* the terminals behind the streams 1 (standard output) and 2 (standard error)
          open,   \* the stylers in scope, as a stack: [stream, saved (the attributes before), did (it changed attributes)]
          form    \* how the program formats numbers on each stream: [base, prefix, plus, width, fill, left]
cvars == <<term, open, form>>
Out == 1
Err == 2
Other == 3
Usual == [base |-> 10, prefix |-> FALSE, plus |-> FALSE, width |-> 0, fill |-> 32, left |-> FALSE]
CInit == term = [s \in {Out, Err} |-> Blank] /\ open = <<>> /\ form = [s \in 1..3 |-> Usual]

\* modifiers: <<"style", name>>, <<"fg", n>>, <<"bg", n>>, <<direction, n>>
IsStyle(m) == m[1] = "style"
IsColor(m) == m[1] \in {"fg", "bg"}
Changes(mods) == \E k \in DOMAIN mods : IsStyle(mods[k]) \/ IsColor(mods[k])
Styled(a, m) == CASE m[2] = "default" -> Plain
                  [] m[2] = "bold" -> [a EXCEPT !.bold = TRUE]
                  [] m[2] = "dim" -> [a EXCEPT !.dim = TRUE]
                  [] m[2] = "italic" -> [a EXCEPT !.italic = TRUE]
                  [] m[2] = "underline" -> [a EXCEPT !.underline = TRUE]
                  [] m[2] = "blink" -> [a EXCEPT !.blink = TRUE]
                  [] m[2] = "strike" -> [a EXCEPT !.strike = TRUE]
Colored(a, m) == IF m[1] = "fg" THEN [a EXCEPT !.fg = m[2]] ELSE [a EXCEPT !.bg = m[2]]
\* in the order given: first the styles, then the colours, then the movements
Modify(t, mods) ==
    LET styles == SelectSeq(mods, IsStyle)
        colors == SelectSeq(mods, IsColor)
        moves == SelectSeq(mods, LAMBDA m : ~IsStyle(m) /\ ~IsColor(m))
        a == FoldLeft(Colored, FoldLeft(Styled, t.attr, styles), colors)
    IN FoldLeft(LAMBDA u, m : Move(u, m[1], IF m[2] = 0 THEN 1 ELSE m[2]), [t EXCEPT !.attr = a], moves)

\* what the program prints: <<"text", codes>> or <<"number", n>>, as its stream formats it
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE InBase(_, _)
InBase(n, b) == IF n < b THEN <<HexDigit(n)>> ELSE InBase(n \div b, b) \o <<HexDigit(n % b)>>
Shown(f, item) ==
    LET n == item[2]
        t == IF item[1] = "text" THEN n
             ELSE (IF f.prefix /\ n # 0 THEN (CASE f.base = 16 -> <<48, 120>> [] f.base = 8 -> <<48>> [] OTHER -> <<>>) ELSE <<>>)
                  \o (IF f.plus /\ f.base = 10 THEN <<43>> ELSE <<>>) \o InBase(n, f.base)
        pad == IF Len(t) < f.width THEN [k \in 1..(f.width - Len(t)) |-> f.fill] ELSE <<>>
    IN IF f.left THEN t \o pad ELSE pad \o t
RECURSIVE ShownAll(_, _)
ShownAll(f, items) == IF items = <<>> THEN <<>> ELSE Shown(f, Head(items)) \o ShownAll([f EXCEPT !.width = 0], Tail(items))
AfterItems(f, items) == IF items = <<>> THEN f ELSE [f EXCEPT !.width = 0]

\* after a styler: no attributes, or those from before it
Reverted(s, did, saved, now) == IF did THEN now \in {Plain, saved} ELSE TRUE
Clean(t) == [t EXCEPT !.cells = <<>>]
Same(t, u) == Whole(t) /\ t.cells = u.cells /\ t.row = u.row /\ t.col = u.col

Format(s, f) == form' = [form EXCEPT ![s] = f] /\ UNCHANGED <<term, open>>

\* `out` (codes) appears on stream s
Printed(s, mods, keep, items, out) ==
    LET text == ShownAll(form[s], items)
        did == s # Other /\ Changes(mods)
        saved == IF s = Other THEN Plain ELSE term[s].attr
    IN /\ form' = [form EXCEPT ![s] = AfterItems(@, items)]
       /\ open' = IF keep THEN Append(open, [stream |-> s, saved |-> saved, did |-> did]) ELSE open
       /\ IF s = Other THEN out = text /\ UNCHANGED term
          ELSE LET want == FeedAll(Modify(term[s], mods), text)
                   seen == FeedAll(term[s], out)
               IN /\ Same(seen, want)
                  /\ IF keep \/ ~did THEN seen.attr = want.attr ELSE seen.attr \in {Plain, saved}
                  /\ term' = [term EXCEPT ![s] = Clean(seen)]

\* the innermost styler goes out of scope
Close(out) ==
    LET o == open[Len(open)] IN
    /\ open # <<>> /\ open' = SubSeq(open, 1, Len(open) - 1) /\ UNCHANGED form
    /\ IF o.stream = Other THEN out = <<>> /\ UNCHANGED term
       ELSE LET seen == FeedAll(term[o.stream], out)
            IN /\ Same(seen, term[o.stream])
               /\ IF o.did THEN seen.attr \in {Plain, o.saved} ELSE seen.attr = term[o.stream].attr
               /\ term' = [term EXCEPT ![o.stream] = Clean(seen)]

\* a line of the console logger; the time is `when` (days, seconds, minutes east)
LineStream(level) == IF level \in {"debug", "info"} THEN Out ELSE Err
LineMods(level) == CASE level = "debug" -> <<>>
                     [] level = "info" -> <<<<"fg", 2>>>>
                     [] level = "warn" -> <<<<"fg", 3>>>>
                     [] level = "error" -> <<<<"style", "bold">>, <<"fg", 1>>>>
Place(file, function, line) == IF file = <<>> \/ function = <<>> THEN <<>> ELSE file \o <<58>> \o function \o <<58>> \o Decimal(line)
Line(level, when, file, function, line, message, out) ==
    LET s == LineStream(level)
        head == TimeText(when[1], when[2], when[3]) \o <<32>> \o Place(file, function, line)
        seen == FeedAll(term[s], out)
        want == FeedAll([FeedAll(Modify(term[s], LineMods(level)), head) EXCEPT !.attr = Plain], <<58, 32>> \o message \o <<10>>)
    IN /\ open = <<>> /\ term[s].attr = Plain /\ form[s].width = 0
       /\ Same(seen, want) /\ seen.attr = Plain
       /\ term' = [term EXCEPT ![s] = Clean(seen)] /\ UNCHANGED <<open, form>>

\* An assertion: it evaluates its condition once, and is silent if that is true. Else the text appears, and the
\* handler is called once after that. Each capture is <<name, item>>.
ATAT == <<9, 97, 116, 32>>                                                  \* "\tat "
Lines(t) == [k \in DOMAIN t.cells |-> SubSeq(t.cells[k], 1, 3)]
RECURSIVE Captures(_)
Captures(c) == IF c = <<>> THEN <<>>
               ELSE <<9>> \o c[1][1] \o <<32, 61, 62, 32>> \o Shown(Usual, c[1][2]) \o <<10>> \o Captures(Tail(c))
AssertText(expression, file, function, line, message, captures) ==
    \* "\nAssertion failed:" message "\n\tFLY_ASSERT(" expression ")\n\n\tat " file ":" line "\n\tin " function "\n\n"
    <<10, 65, 115, 115, 101, 114, 116, 105, 111, 110, 32, 102, 97, 105, 108, 101, 100, 58>>
    \o (IF message = <<>> THEN <<>> ELSE <<32>> \o message)
    \o <<10, 9, 70, 76, 89, 95, 65, 83, 83, 69, 82, 84, 40>> \o expression \o <<41, 10, 10>>
    \o ATAT \o file \o <<58>> \o Decimal(line) \o <<10, 9, 105, 110, 32>> \o function \o <<10, 10>>
    \* "Captures:\n" ... "\n"
    \o (IF captures = <<>> THEN <<>> ELSE <<67, 97, 112, 116, 117, 114, 101, 115, 58, 10>> \o Captures(captures) \o <<10>>)
    \* "Call stack:\n"
    \o <<67, 97, 108, 108, 32, 115, 116, 97, 99, 107, 58, 10>>
Asserted(holds, expression, file, function, line, message, captures, evaluated, called, out) ==
    /\ evaluated = 1
    /\ IF holds THEN called = 0 /\ out = <<>> /\ UNCHANGED cvars
       ELSE LET seen == FeedAll(term[Err], out)
                want == FeedAll(term[Err], AssertText(expression, file, function, line, message, captures))
            IN /\ called = 1 /\ open = <<>> /\ term[Err].attr = Plain /\ form[Err].width = 0
               /\ Whole(seen) /\ seen.attr = Plain /\ seen.col = 0 /\ seen.row > want.row
               /\ Len(seen.cells) >= Len(want.cells) /\ SubSeq(Lines(seen), 1, Len(want.cells)) = Lines(want)
               /\ term' = [term EXCEPT ![Err] = Clean(seen)] /\ UNCHANGED <<open, form>>
=============================================================================
