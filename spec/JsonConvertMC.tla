--------------------------- MODULE JsonConvertMC ----------------------------
(* What is made from a C++ value converts back to it, and what a value       *)
(* converts to does not depend on how often it went through JSON.            *)
EXTENDS JsonConvert
CONSTANT Deep
VARIABLES t, x
Small8 == {<<"i", FALSE, <<0>>>>, <<"i", TRUE, <<1, 2, 8>>>>, <<"i", FALSE, <<1, 2, 7>>>>, <<"i", TRUE, <<5>>>>}
Wide == {<<"u", FALSE, <<0>>>>, <<"u", FALSE, <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>>>}
Reals == {<<"f", FALSE, <<>>, 0>>, <<"f", TRUE, <<1, 2, 5>>, -2>>, <<"f", FALSE, <<3>>, 1>>}
Strings == {<<"s", <<>>>>, <<"s", <<97>>>>, <<"s", <<49, 50>>>>, <<"s", <<45, 49, 46, 53>>>>, <<"s", <<195, 169>>>>}
Bools == {<<"b", FALSE>>, <<"b", TRUE>>}
Base == {<<<<"int", 8, TRUE>>, Small8>>, <<<<"int", 64, FALSE>>, Wide>>, <<<<"real", 6>>, Reals>>, <<<<"text">>, Strings>>, <<<<"bool">>, Bools>>, <<<<"null">>, {Null}>>}
Lists(vs) == {<<"a", s>> : s \in {<<>>} \union {<<v>> : v \in vs} \union {<<v, w>> : v \in vs, w \in vs}}
Maps(vs) == {<<"o", <<>>>>} \union {<<"o", <<<<k, v>>>>>> : k \in {<<>>, <<97>>}, v \in vs}
              \union {<<"o", <<<<<<97>>, v>>, <<<<98>>, w>>>>>> : v \in vs, w \in vs}
Types1 == Base \union {<<<<"list", b[1]>>, Lists(b[2])>> : b \in Base} \union {<<<<"map", b[1]>>, Maps(b[2])>> : b \in Base}
           \union {<<<<"fixed", b[1], 2>>, {<<"a", <<v, w>>>> : v \in b[2], w \in b[2]}>> : b \in Base}
Types == IF Deep THEN Types1 \union {<<<<"list", b[1]>>, Lists(b[2])>> : b \in {c \in Types1 : c[1][1] \in {"map", "fixed"}}} ELSE Types1
Init == \E b \in Types : t = b[1] /\ x \in b[2]
Spec == Init /\ [][FALSE]_<<t, x>>
Returns == Sound(x) => LET w == As(t, From(x)) IN w = x /\ Fit(t, w, x)
\* a JSON value is truthful about numbers in text
Texts1 == x[1] \in {"i", "u"} => \A s \in Texts(x) : As(t, <<"s", s>>) = x
Refuses == /\ t[1] \in {"int", "real", "text", "null"} => As(t, <<"a", <<x>>>>) = Refusal /\ As(t, <<"o", <<>>>>) = Refusal
           /\ t[1] \in {"list", "fixed", "map"} => As(t, <<"s", <<97>>>>) = Refusal /\ As(t, Null) = Refusal
=============================================================================
