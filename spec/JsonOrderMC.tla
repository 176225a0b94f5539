---------------------------- MODULE JsonOrderMC -----------------------------
(* The order is total and agrees with equality, on all triples of values.    *)
EXTENDS JsonOrder
CONSTANT Deep
VARIABLES x, y, z
Numbers == {<<"i", FALSE, <<0>>>>, <<"u", FALSE, <<0>>>>, <<"f", TRUE, <<>>, 0>>, <<"i", TRUE, <<1>>>>, <<"u", FALSE, <<1>>>>, <<"i", FALSE, <<1>>>>, <<"f", FALSE, <<1>>, 0>>,
            <<"f", TRUE, <<5>>, -1>>, <<"f", FALSE, <<1>>, 1>>, <<"u", FALSE, <<1, 0>>>>, <<"f", FALSE, <<9, 9>>, -1>>, <<"i", TRUE, <<1, 0>>>>}
Scalars == Numbers \union {Null, <<"b", FALSE>>, <<"b", TRUE>>, <<"s", <<>>>>, <<"s", <<65>>>>, <<"s", <<65, 0>>>>}
Inner == {Null, <<"i", TRUE, <<1>>>>, <<"u", FALSE, <<1>>>>, <<"f", FALSE, <<1>>, 0>>}
Arrays == {<<"a", s>> : s \in {<<>>} \union {<<v>> : v \in Inner} \union {<<v, w>> : v \in Inner, w \in Inner}}
Objects == {<<"o", <<>>>>} \union {<<"o", <<<<k, v>>>>>> : k \in {<<>>, <<65>>}, v \in Inner}
             \union {<<"o", <<<<<<>>, v>>, <<<<65>>, w>>>>>> : v \in Inner, w \in Inner}
Values == Scalars \union (IF Deep THEN Arrays \union Objects ELSE {<<"a", <<>>>>, <<"o", <<>>>>} \union {<<"a", <<v>>>> : v \in Inner} \union {<<"o", <<<<<<65>>, v>>>>>> : v \in Inner})
Init == x \in Values /\ y \in Values /\ z \in Values
Spec == Init /\ [][FALSE]_<<x, y, z>>
B(c) == IF c THEN 1 ELSE 0
Trichotomy == B(Lt(x, y)) + B(Lt(y, x)) + B(Eq(x, y)) = 1
Transitive == Lt(x, y) /\ Lt(y, z) => Lt(x, z)
Equivalence == Eq(x, x) /\ (Eq(x, y) => Eq(y, x)) /\ (Eq(x, y) /\ Eq(y, z) => Eq(x, z))
Congruent == Eq(x, y) => (Lt(x, z) = Lt(y, z) /\ Lt(z, x) = Lt(z, y))
=============================================================================
