------------------------------- MODULE IniMC --------------------------------
(* Files built line by line, next to what they should denote.                *)
EXTENDS Ini
CONSTANT MaxLines
VARIABLES text, lines, secs, cur, bad
vars == <<text, lines, secs, cur, bad>>
Names == {<<97>>, <<98>>}
Vals == {<<>>, <<61>>, <<49>>, <<32, 61, 32>>, <<59>>}
Init == text = <<>> /\ lines = 0 /\ secs = <<>> /\ cur = <<None>> /\ bad = FALSE
Add(s) == text' = text \o s /\ lines' = lines + 1
AddSection == \E n \in Names : Add(<<91>> \o n \o <<93, 10>>) /\ secs' = Assign(secs, n, <<>>) /\ cur' = n /\ UNCHANGED bad
AddPair == \E n \in Names, v \in Vals :
    /\ Add(Line1(n, v))
    /\ IF cur = <<None>> THEN bad' = TRUE /\ UNCHANGED secs
       ELSE secs' = Assign(secs, cur, Assign(secs[KeyIndex(secs, cur)][2], n, v)) /\ UNCHANGED bad
    /\ UNCHANGED cur
AddPlain == \E n \in Names, v \in Vals : \* without quotes
    /\ Add(n \o <<61>> \o v \o <<10>>)
    /\ IF cur = <<None>> \/ Trimmed(v) = <<>> THEN bad' = TRUE /\ UNCHANGED secs
       ELSE secs' = Assign(secs, cur, Assign(secs[KeyIndex(secs, cur)][2], n, Trimmed(v))) /\ UNCHANGED bad
    /\ UNCHANGED cur
AddNothing == \E s \in {<<10>>, <<32, 10>>, <<59, 91, 10>>} : Add(s) /\ UNCHANGED <<secs, cur, bad>>
AddBad == \E s \in {<<91, 10>>, <<97, 10>>, <<97, 61, 34, 10>>, <<61, 97, 10>>, <<91, 34, 93, 10>>} : Add(s) /\ bad' = TRUE /\ UNCHANGED <<secs, cur>>
Next == lines < MaxLines /\ (AddSection \/ AddPair \/ AddPlain \/ AddNothing \/ AddBad)
Spec == Init /\ [][Next]_vars
Result == ParseIni(text)
Rebuilt == IF bad \/ secs = <<>> THEN ~Result.ok
           ELSE Result.ok /\ Result.v = <<"o", [k \in 1..Len(secs) |-> <<secs[k][1], <<"o", [i \in 1..Len(secs[k][2]) |-> <<secs[k][2][i][1], <<"s", secs[k][2][i][2]>>>>]>>>>]>>
Shape == ~Result.open
=============================================================================
