----------------------------- MODULE JsonGrammar -----------------------------
(* The grammar of RFC 8259 over cells of text, in slices.                    *)
EXTENDS Sequences

Base == [
  text    |-> {<<"ws", "value", "ws">>},
  value   |-> {<<"{", "ws", "}">>, <<"{", "members", "}">>, <<"[", "ws", "]">>, <<"[", "values", "]">>, <<"simple">>},
  members |-> {<<"member">>, <<"member", ",", "members">>},
  member  |-> {<<"ws", "string", "ws", ":", "ws", "value", "ws">>},
  values  |-> {<<"ws", "value", "ws">>, <<"ws", "value", "ws", ",", "values">>},
  number  |-> {<<"int", "frac", "exp">>, <<"-", "int", "frac", "exp">>},
  int     |-> {<<"0">>, <<"1", "digits">>},
  digits  |-> {<<>>, <<"0", "digits">>, <<"1", "digits">>},
  frac    |-> {<<>>, <<".", "0", "digits">>, <<".", "1", "digits">>},
  exp     |-> {<<>>, <<"e", "sign", "0", "digits">>, <<"e", "sign", "1", "digits">>},
  sign    |-> {<<>>, <<"+">>, <<"-">>},
  string  |-> {<<"Q", "chars", "Q">>},
  hex     |-> {<<"e">>}]
Json(ws, simple, chars) ==
  [n \in DOMAIN Base \cup {"ws", "simple", "chars"} |->
     CASE n = "ws" -> ws [] n = "simple" -> simple [] n = "chars" -> chars [] OTHER -> Base[n]]
EmptyOnes == {"ws", "digits", "frac", "exp", "sign", "chars"}
NoWs == {<<>>}
Ws   == {<<>>, <<"S", "ws">>}
NoChars == {<<>>}
Chars == {<<>>, <<"e", "chars">>, <<"B", "n", "chars">>, <<"B", "Q", "chars">>, <<"B", "B", "chars">>, <<"n", "chars">>,
          <<"B", "u", "hex", "hex", "hex", "hex", "chars">>, <<"u", "chars">>}
=============================================================================
