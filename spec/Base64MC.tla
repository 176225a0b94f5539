----------------------------- MODULE Base64MC -----------------------------
(* Exhaustive over short inputs: encoding is lossless, and decoding accepts  *)
(* only sequences which re-encode to themselves up to the unused last bits.  *)
EXTENDS Base64, TLC
CONSTANTS Bytes, Symbols, MaxBytes, MaxSymbols
VARIABLES data, text
Init == data = <<>> /\ text = <<>>
Next == \/ \E b \in Bytes : text = <<>> /\ Len(data) < MaxBytes /\ data' = Append(data, b) /\ UNCHANGED text
        \/ \E c \in Symbols : data = <<>> /\ Len(text) < MaxSymbols /\ text' = Append(text, c) /\ UNCHANGED data
Spec == Init /\ [][Next]_<<data, text>>
Lossless == LET e == Encode(data) IN Decodable(e) /\ Decode(e) = data /\ Len(e) % 4 = 0
Unused(t) == {k \in 1..Len(t) : PadCount(t) > 0 /\ k = Len(t) - PadCount(t)}
Faithful == Decodable(text) => LET e == Encode(Decode(text))
                               IN Len(e) = Len(text) /\ \A k \in 1..Len(text) : e[k] = text[k] \/ k \in Unused(text)
===========================================================================
