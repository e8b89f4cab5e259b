------------------------------- MODULE MCJson -------------------------------
(* Every text that can be derived from the grammar of the RFC is JSON for    *)
(* the recogniser (LawC25); derived and accepted texts are printed.          *)
EXTENDS JsonGrammar, Integers, TLC, Json
CONSTANTS Deep           \* BOOLEAN
VARIABLES mode, g, out, todo

(* slice -> <<longest derived text, longest listed text>>                    *)
Sizes == IF Deep THEN [structure |-> <<10, 7>>, spaces |-> <<7, 6>>, numbers |-> <<8, 7>>, strings |-> <<9, 6>>, all |-> <<6, -1>>]
         ELSE [structure |-> <<8, 5>>, spaces |-> <<5, 4>>, numbers |-> <<6, 5>>, strings |-> <<8, 5>>, all |-> <<5, -1>>]

Table == [
  structure |-> [start |-> "text", rules |-> [Json(NoWs, {<<"0">>, <<"QQ">>}, NoChars) EXCEPT !.string = {<<"QQ">>}], sigma |-> {"[", "]", "{", "}", ",", ":", "QQ", "0"}],
  spaces    |-> [start |-> "text", rules |-> [Json(Ws, {<<"true">>, <<"null">>, <<"QQ">>}, NoChars) EXCEPT !.string = {<<"QQ">>}], sigma |-> {"[", "]", "{", "}", ",", ":", "S", "true", "null", "QQ"}],
  numbers   |-> [start |-> "text", rules |-> [Json(NoWs, {<<"number">>}, NoChars) EXCEPT !.value = {<<"number">>}], sigma |-> {"0", "1", "-", ".", "e", "+"}],
  strings   |-> [start |-> "text", rules |-> [Json(NoWs, {<<"string">>}, Chars) EXCEPT !.value = {<<"string">>}], sigma |-> {"Q", "B", "n", "u", "e"}],
  all       |-> [start |-> "text", rules |-> Json(Ws, {<<"number">>, <<"string">>, <<"true">>, <<"false">>, <<"null">>}, Chars),
                 sigma |-> {"[", "]", "{", "}", ",", ":", "Q", "1", "0", "S", "-", ".", "e", "B", "n", "true"}]]
Slices == [s \in DOMAIN Sizes |->
             [len |-> Sizes[s][1], all |-> Sizes[s][2], start |-> Table[s].start, rules |-> Table[s].rules, empty |-> EmptyOnes]]
Alphabets == [s \in DOMAIN Sizes |-> Table[s].sigma]
D == INSTANCE Derive
J == INSTANCE JsonText
Spec == D!Spec

Bytes == [x \in {"[", "]", "{", "}", ",", ":", "Q", "1", "0", "S", "-", ".", "e", "B", "n", "u", "+", "true", "false", "null", "QQ"} |->
  CASE x = "[" -> <<91>> [] x = "]" -> <<93>> [] x = "{" -> <<123>> [] x = "}" -> <<125>> [] x = "," -> <<44>> [] x = ":" -> <<58>>
    [] x = "Q" -> <<34>> [] x = "1" -> <<49>> [] x = "0" -> <<48>> [] x = "S" -> <<32>> [] x = "-" -> <<45>> [] x = "." -> <<46>>
    [] x = "e" -> <<101>> [] x = "B" -> <<92>> [] x = "n" -> <<110>> [] x = "u" -> <<117>> [] x = "+" -> <<43>>
    [] x = "QQ" -> <<34, 34>> [] x = "true" -> J!True [] x = "false" -> J!False [] x = "null" -> J!Null]
RECURSIVE TextOf(_)
TextOf(o) == IF o = <<>> THEN <<>> ELSE Bytes[Head(o)] \o TextOf(Tail(o))
LawC25 == D!Derived => J!IsJson(TextOf(out))
Emit == /\ D!Derived => PrintT(ToJson([d |-> g, t |-> TextOf(out), n |-> Len(out)]))
        /\ (D!Listed /\ J!IsJson(TextOf(out))) => PrintT(ToJson([a |-> g, t |-> TextOf(out), n |-> Slices[g].all]))
=============================================================================
