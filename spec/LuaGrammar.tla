----------------------------- MODULE LuaGrammar -----------------------------
(* Chapter 9 of the Lua 5.4 manual.  { x } is written as a nonterminal of    *)
(* its own.  Slices choose which statements and expressions there are, so    *)
(* that longer texts can be derived completely.                              *)
EXTENDS Sequences

Stats == [
  plain  |-> {<<";">>, <<"varlist", "=", "explist">>, <<"call">>, <<"::", "Name", "::">>, <<"break">>, <<"goto", "Name">>},
  blocks |-> {<<"do", "block", "end">>, <<"while", "exp", "do", "block", "end">>, <<"repeat", "block", "until", "exp">>,
              <<"if", "exp", "then", "block", "elseifs", "elsepart", "end">>},
  loops  |-> {<<"for", "Name", "=", "exp", ",", "exp", "step", "do", "block", "end">>,
              <<"for", "namelist", "in", "explist", "do", "block", "end">>},
  funcs  |-> {<<"function", "funcname", "funcbody">>, <<"local", "function", "Name", "funcbody">>},
  locals |-> {<<"local", "attnames">>, <<"local", "attnames", "=", "explist">>},
  assign |-> {<<"Name", "=", "exp">>},
  brk    |-> {<<"break">>},
  vars   |-> {<<"varlist", "=", "Name">>, <<"call">>}]
Exps == [
  simple |-> {<<"nil">>, <<"true">>, <<"false">>, <<"Num">>, <<"Str">>, <<"...">>},
  names  |-> {<<"prefixexp">>},
  ops    |-> {<<"exp", "binop", "exp">>, <<"unop", "exp">>},
  tables |-> {<<"table">>},
  funcs  |-> {<<"function", "funcbody">>},
  name   |-> {<<"Name">>}]
Rest == [
  block    |-> {<<"stats">>, <<"stats", "retstat">>},
  stats    |-> {<<>>, <<"stat", "stats">>},
  elseifs  |-> {<<>>, <<"elseif", "exp", "then", "block", "elseifs">>},
  elsepart |-> {<<>>, <<"else", "block">>},
  step     |-> {<<>>, <<",", "exp">>},
  attnames |-> {<<"Name", "attrib">>, <<"Name", "attrib", ",", "attnames">>},
  attrib   |-> {<<>>, <<"<", "Name", ">">>},
  retstat  |-> {<<"return">>, <<"return", ";">>, <<"return", "explist">>, <<"return", "explist", ";">>},
  funcname |-> {<<"Name", "members">>, <<"Name", "members", ":", "Name">>},
  members  |-> {<<>>, <<".", "Name", "members">>},
  varlist  |-> {<<"var">>, <<"var", ",", "varlist">>},
  var      |-> {<<"Name">>, <<"prefixexp", "[", "exp", "]">>, <<"prefixexp", ".", "Name">>},
  namelist |-> {<<"Name">>, <<"Name", ",", "namelist">>},
  explist  |-> {<<"exp">>, <<"exp", ",", "explist">>},
  prefixexp |-> {<<"var">>, <<"call">>, <<"(", "exp", ")">>},
  call     |-> {<<"prefixexp", "args">>, <<"prefixexp", ":", "Name", "args">>},
  args     |-> {<<"(", ")">>, <<"(", "explist", ")">>, <<"table">>, <<"Str">>},
  funcbody |-> {<<"(", ")", "block", "end">>, <<"(", "parlist", ")", "block", "end">>},
  parlist  |-> {<<"namelist">>, <<"namelist", ",", "...">>, <<"...">>},
  table    |-> {<<"{", "}">>, <<"{", "fields", "}">>, <<"{", "fields", "fieldsep", "}">>},
  fields   |-> {<<"field">>, <<"field", "fieldsep", "fields">>},
  field    |-> {<<"[", "exp", "]", "=", "exp">>, <<"Name", "=", "exp">>, <<"exp">>},
  fieldsep |-> {<<",">>, <<";">>}]
EmptyOnes == {"block", "stats", "elseifs", "elsepart", "step", "attrib", "members"}

AllBin == {"+", "-", "*", "/", "//", "^", "%", "&", "~", "|", ">>", "<<", "..", "<", "<=", ">", ">=", "==", "~=", "and", "or"}
AllUn  == {"-", "not", "#", "~"}
Lua(stats, exps, bin, un) ==
  [n \in DOMAIN Rest \cup {"stat", "exp", "binop", "unop"} |->
     CASE n = "stat"  -> UNION {Stats[k] : k \in stats}
       [] n = "exp"   -> UNION {Exps[k] : k \in exps}
       [] n = "binop" -> {<<b>> : b \in bin}
       [] n = "unop"  -> {<<b>> : b \in un}
       [] OTHER -> Rest[n]]
=============================================================================
