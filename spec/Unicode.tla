------------------------------ MODULE Unicode ------------------------------
(* A cursor over Unicode text of any encoding.                               *)
EXTENDS UnicodeText

\* ---- a cursor over a text
VARIABLES width, text, pos
uvars == <<width, text, pos>>
UInit == width = 1 /\ text = <<>> /\ pos = 1
Open(w, s) == width' = w /\ text' = s /\ pos' = 1
\* Reading succeeds exactly on a well-formed code point, and moves past it.  Where a failed read leaves
\* the cursor is not specified; the user starts over with another text.
Read(r, ok, cp, next) == /\ ok = r.ok
                         /\ ok => cp = r.cp /\ next = r.next
                         /\ pos' = (IF ok THEN next ELSE Len(text) + 1)
                         /\ UNCHANGED <<width, text>>
ReadCodepoint(ok, cp, next) == Read(Decode(width, text, pos), ok, cp, next)
\* written out in the encoding of the text
ReadEscaping(prefix, ok, out, next) ==
    LET r == Decode(width, text, pos) IN Read(r, ok, r.cp, next) /\ (ok => out = Escape(prefix, r.cp))
ReadEscaped(ok, out, next) ==
    LET r == Unescape(text, pos) IN Read(r, ok, r.cp, next) /\ (ok => out = Encode(width, r.cp))
=============================================================================
