-------------------------------- MODULE MCLua --------------------------------
(* Every program that can be derived from the grammar of the manual is a     *)
(* program for the recogniser (LawC27); derived and accepted programs are    *)
(* printed.                                                                  *)
EXTENDS LuaGrammar, Integers, TLC, Json
CONSTANTS Deep           \* BOOLEAN
VARIABLES mode, g, out, todo

(* slice -> <<longest derived program, longest listed program>>              *)
Sizes == IF Deep THEN [all |-> <<6, 4>>, stats |-> <<7, -1>>, blocks |-> <<10, -1>>, loops |-> <<12, -1>>, funcs |-> <<11, -1>>,
                       ops |-> <<5, -1>>, mixed |-> <<9, -1>>, tables |-> <<11, -1>>, vars |-> <<9, -1>>]
         ELSE [all |-> <<4, 3>>, stats |-> <<6, -1>>, blocks |-> <<8, -1>>, loops |-> <<11, -1>>, funcs |-> <<9, -1>>,
               ops |-> <<5, -1>>, mixed |-> <<7, -1>>, tables |-> <<9, -1>>, vars |-> <<8, -1>>]

Table == [
  all    |-> Lua({"plain", "blocks", "loops", "funcs", "locals"}, {"simple", "names", "ops", "tables", "funcs"}, {"-", "and", "<", ">"}, {"-", "not"}),
  stats  |-> Lua({"plain", "blocks", "loops", "funcs", "locals"}, {"name"}, {}, {}),
  blocks |-> Lua({"blocks", "brk"}, {"name"}, {}, {}),
  loops  |-> Lua({"loops", "brk"}, {"name"}, {}, {}),
  funcs  |-> Lua({"funcs", "brk"}, {"name"}, {}, {}),
  ops    |-> Lua({"assign"}, {"name", "ops", "simple"}, AllBin, AllUn),
  mixed  |-> Lua({"assign"}, {"name", "ops"}, {"-", "and"}, {"-", "not"}),
  tables |-> Lua({"assign"}, {"name", "tables"}, {}, {}),
  vars   |-> Lua({"vars"}, {"name"}, {}, {})]
Slices == [s \in DOMAIN Sizes |->
             [len |-> Sizes[s][1], all |-> Sizes[s][2], start |-> "block", rules |-> Table[s], empty |-> EmptyOnes]]
(* only for the slice with everything                                        *)
Alphabets == [s \in DOMAIN Sizes |->
  {"Name", "Num", "Str", "nil", "true", "false", "...", ";", "=", ",", ".", ":", "::", "(", ")", "{", "}", "[", "]", "<", ">", "-", "not", "and",
   "break", "goto", "do", "end", "while", "repeat", "until", "if", "then", "elseif", "else", "for", "in", "function", "local", "return"}]
D == INSTANCE Derive
L == INSTANCE LuaText
Spec == D!Spec

Kind(w) == CASE w = "Name" -> "name" [] w = "Num" -> "num" [] w = "Str" -> "str" [] w \in L!Reserved -> "word" [] OTHER -> "op"
Symbols(o) == [k \in 1..Len(o) |-> L!Sym(Kind(o[k]), o[k], 0, 0)]
LawC27 == D!Derived => L!IsProgram(Symbols(out))
Emit == /\ D!Derived => PrintT(ToJson([d |-> g, t |-> out, n |-> Len(out)]))
        /\ (D!Listed /\ L!IsProgram(Symbols(out))) => PrintT(ToJson([a |-> g, t |-> out, n |-> Slices[g].all]))
=============================================================================
