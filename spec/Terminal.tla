------------------------------ MODULE Terminal ------------------------------
(* A terminal: it shows characters with attributes at positions, and obeys the *)
(* escape sequences (ECMA-48) for attributes and movements of the cursor.      *)
EXTENDS Naturals, Integers, Sequences, SequencesExt

Plain == [bold |-> FALSE, dim |-> FALSE, italic |-> FALSE, underline |-> FALSE, blink |-> FALSE, strike |-> FALSE,
          fg |-> 0 - 1, bg |-> 0 - 1]   \* -1: the colour of the terminal
Blank == [attr |-> Plain, row |-> 0, col |-> 0,
          cells |-> <<>>,               \* what was printed: <<code, row, col, attributes>>
          mode |-> "text", params |-> <<>>, bad |-> FALSE]

\* select graphic rendition
RECURSIVE Sgr(_, _)
Sgr(a, p) ==
    IF p = <<>> THEN a
    ELSE LET n == Head(p) IN
         IF n \in {38, 48}
         THEN IF Len(p) >= 3 /\ p[2] = 5 /\ p[3] <= 255
              THEN Sgr(IF n = 38 THEN [a EXCEPT !.fg = p[3]] ELSE [a EXCEPT !.bg = p[3]], SubSeq(p, 4, Len(p)))
              ELSE [a EXCEPT !.fg = 0 - 2]    \* not a colour
         ELSE Sgr(CASE n = 0 -> Plain
                    [] n = 1 -> [a EXCEPT !.bold = TRUE]
                    [] n = 2 -> [a EXCEPT !.dim = TRUE]
                    [] n = 3 -> [a EXCEPT !.italic = TRUE]
                    [] n = 4 -> [a EXCEPT !.underline = TRUE]
                    [] n = 5 -> [a EXCEPT !.blink = TRUE]
                    [] n = 9 -> [a EXCEPT !.strike = TRUE]
                    [] n = 22 -> [a EXCEPT !.bold = FALSE, !.dim = FALSE]
                    [] n = 23 -> [a EXCEPT !.italic = FALSE]
                    [] n = 24 -> [a EXCEPT !.underline = FALSE]
                    [] n = 25 -> [a EXCEPT !.blink = FALSE]
                    [] n = 29 -> [a EXCEPT !.strike = FALSE]
                    [] n \in 30..37 -> [a EXCEPT !.fg = n - 30]
                    [] n = 39 -> [a EXCEPT !.fg = 0 - 1]
                    [] n \in 40..47 -> [a EXCEPT !.bg = n - 40]
                    [] n = 49 -> [a EXCEPT !.bg = 0 - 1]
                    [] n \in 90..97 -> [a EXCEPT !.fg = n - 82]
                    [] n \in 100..107 -> [a EXCEPT !.bg = n - 92]
                    [] OTHER -> [a EXCEPT !.fg = 0 - 2], Tail(p))

Distance(p) == IF p = <<>> THEN 1 ELSE IF p[1] = 0 THEN 1 ELSE p[1]
Move(t, direction, n) == CASE direction = "up" -> [t EXCEPT !.row = @ - n]
                           [] direction = "down" -> [t EXCEPT !.row = @ + n]
                           [] direction = "forward" -> [t EXCEPT !.col = @ + n]
                           [] direction = "backward" -> [t EXCEPT !.col = @ - n]

Feed(t, c) ==
    CASE t.bad -> t
      [] t.mode = "text" ->
            (CASE c = 27 -> [t EXCEPT !.mode = "escape"]
               [] c = 10 -> [t EXCEPT !.row = @ + 1, !.col = 0]
               [] OTHER -> [t EXCEPT !.cells = Append(@, <<c, t.row, t.col, t.attr>>), !.col = @ + 1])
      [] t.mode = "escape" -> IF c = 91 THEN [t EXCEPT !.mode = "control", !.params = <<>>] ELSE [t EXCEPT !.bad = TRUE]
      [] OTHER ->
            (CASE c \in 48..57 -> [t EXCEPT !.params = IF @ = <<>> THEN <<c - 48>> ELSE [@ EXCEPT ![Len(@)] = IF @ < 1000 THEN @ * 10 + c - 48 ELSE @]]
               [] c = 59 -> [t EXCEPT !.params = IF @ = <<>> THEN <<0, 0>> ELSE Append(@, 0)]
               [] c = 109 -> [t EXCEPT !.mode = "text", !.attr = Sgr(@, IF t.params = <<>> THEN <<0>> ELSE t.params)]
               [] c = 65 -> [Move(t, "up", Distance(t.params)) EXCEPT !.mode = "text"]
               [] c = 66 -> [Move(t, "down", Distance(t.params)) EXCEPT !.mode = "text"]
               [] c = 67 -> [Move(t, "forward", Distance(t.params)) EXCEPT !.mode = "text"]
               [] c = 68 -> [Move(t, "backward", Distance(t.params)) EXCEPT !.mode = "text"]
               [] OTHER -> [t EXCEPT !.bad = TRUE])
FeedAll(t, codes) == FoldLeft(Feed, t, codes)
Whole(t) == ~t.bad /\ t.mode = "text" /\ t.attr.fg # 0 - 2
=============================================================================
