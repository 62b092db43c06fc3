------------------------------ MODULE ExportMC ------------------------------
(* Writing and reading back one character at a time.  The writer escapes a text for the place  *)
(* where it stands; the reader knows nothing of the writer: it looks for marks, block starts,  *)
(* cell ends, tags and references.  Every text over the alphabet must read back as itself in   *)
(* every place, make nothing else, and leave the block that follows intact.                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, EmitLen
VARIABLES txt, place, pc, out, got
vars == <<txt, place, pc, out, got>>

MdAlphabet == {"a", " ", "\n", "*", "_", "#", "-", "+", "=", "1", ".", ")", "`", "|", "\\", "<", ">", "&", "[", "]", "~", ":", "!"}
HtmlAlphabet == {"a", " ", "\n", "&", "<", ">", "\"", "'", ";", "l", "t", "/", "!", "#", "3"}
MdPlaces == {"heading", "item", "cell", "quote", "code", "lang"}
HtmlPlaces == {"data", "value", "rcdata"}

(* ---------------------------------------------------------------- lines *)
Blank == {" ", "\t"}
RECURSIVE LTrim(_)
LTrim(s) == IF s # <<>> /\ Head(s) \in Blank THEN LTrim(Tail(s)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF s # <<>> /\ s[Len(s)] \in Blank THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == RTrim(LTrim(s))
RECURSIVE LinesA(_, _)
LinesA(s, cur) == IF s = <<>> THEN <<cur>> ELSE IF Head(s) = "\n" THEN <<cur>> \o LinesA(Tail(s), <<>>) ELSE LinesA(Tail(s), Append(cur, Head(s)))
LinesOf(s) == LinesA(s, <<>>)
RECURSIVE SolidOf(_)
SolidOf(ls) == IF ls = <<>> THEN <<>> ELSE (IF Trim(Head(ls)) = <<>> THEN <<>> ELSE <<Trim(Head(ls))>>) \o SolidOf(Tail(ls))
RECURSIVE Glue(_, _)
Glue(ls, sep) == IF ls = <<>> THEN <<>> ELSE IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o sep \o Glue(Tail(ls), sep)
RECURSIVE Squeeze(_)
Squeeze(s) == IF Len(s) < 2 THEN s ELSE IF s[1] \in Blank /\ s[2] \in Blank THEN Squeeze(Tail(s)) ELSE <<s[1]>> \o Squeeze(Tail(s))
Rep(c, n) == [i \in 1..n |-> c]

(* ---------------------------------------------------------------- writing Markdown *)
Special == {"\\", "*", "_", "[", "]", "`", "#", "<", ">", "|", "~", "&"}
Digits == {"1"}
RECURSIVE Esc(_)
Esc(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s) \in Special THEN <<"\\", Head(s)>> ELSE <<Head(s)>>) \o Esc(Tail(s))
RECURSIVE Lead(_, _)
Lead(s, S) == IF s # <<>> /\ Head(s) \in S THEN 1 + Lead(Tail(s), S) ELSE 0
EscLine(raw) == LET s == Trim(raw)  d == Lead(s, Digits) IN
  IF d > 0 /\ Len(s) > d /\ s[d + 1] \in {".", ")"} THEN SubSeq(s, 1, d) \o <<"\\">> \o Esc(SubSeq(s, d + 1, Len(s)))
  ELSE IF s # <<>> /\ Head(s) \in {"-", "+", "=", ":"} THEN <<"\\">> \o Esc(s) ELSE Esc(s)
RECURSIVE EscLines(_)
EscLines(ls) == IF ls = <<>> THEN <<>> ELSE <<EscLine(Head(ls))>> \o EscLines(Tail(ls))
RECURSIVE WTrim(_)
WTrim(s) == IF s # <<>> /\ Head(s) \in Blank \cup {"\n"} THEN WTrim(Tail(s)) ELSE IF s # <<>> /\ s[Len(s)] \in Blank \cup {"\n"} THEN WTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
EscInline(s, br) == Glue(EscLines(LinesOf(WTrim(s))), br)
BR == <<"<", "b", "r", ">">>
RECURSIVE LongRun(_, _, _)
LongRun(s, run, best) == IF s = <<>> THEN best ELSE LET r == IF Head(s) = "`" THEN run + 1 ELSE 0 IN LongRun(Tail(s), r, IF r > best THEN r ELSE best)
Fence(s) == LET n == LongRun(s, 0, 0) IN Rep("`", IF n + 1 > 3 THEN n + 1 ELSE 3)
RECURSIVE EscInfo(_)
EscInfo(s) == IF s = <<>> THEN <<>> ELSE
  (CASE Head(s) = "\\" -> <<"\\", "\\">> [] Head(s) = "&" -> <<"&", "a", "m", "p", ";">> [] Head(s) = "`" -> <<"&", "#", "9", "6", ";">> [] Head(s) = "\n" -> <<" ">> [] OTHER -> <<Head(s)>>) \o EscInfo(Tail(s))
RECURSIVE Quoted(_)
Quoted(ls) == IF ls = <<>> THEN <<>> ELSE RTrim(<<">", " ">> \o EscLine(Head(ls))) \o <<"\n">> \o Quoted(Tail(ls))
(* the block, then an item "z" *)
After == <<"\n", "-", " ", "z", "\n", "\n">>
MdWrite(p, s) ==
  (CASE p = "heading" -> <<"#", "#", " ">> \o EscInline(s, <<" ">>) \o <<"\n">>
     [] p = "item" -> <<"-", " ">> \o EscInline(s, BR) \o <<"\n">>
     [] p = "cell" -> <<"|", " ">> \o EscInline(s, BR) \o <<" ", "|", " ", "b", " ", "|", "\n", "|", " ", "-", "-", "-", " ", "|", " ", "-", "-", "-", " ", "|", "\n", "|", " ", "c", " ", "|", " ">> \o EscInline(s, BR) \o <<" ", "|", "\n">>
     [] p = "quote" -> Quoted(LinesOf(s))
     [] p = "code" -> Fence(s) \o <<"\n">> \o s \o <<"\n">> \o Fence(s) \o <<"\n">>
     [] p = "lang" -> <<"`", "`", "`">> \o EscInfo(WTrim(s)) \o <<"\n", "x", "\n", "`", "`", "`", "\n">>) \o (IF p = "item" THEN Tail(After) ELSE After)

(* ---------------------------------------------------------------- reading Markdown *)
Mark == <<"MARK">>       \* something other than text was read
Punct == {"*", "_", "#", "-", "+", "=", ".", ")", "`", "|", "\\", "<", ">", "&", "[", "]", "~", ":", "!"}
At(s, i, c) == i <= Len(s) /\ s[i] = c
RECURSIVE Inl(_)         \* the text of a line; "\n" is a line break
Inl(s) == IF s = <<>> THEN <<>> ELSE
  IF Head(s) = "\\" /\ Len(s) > 1 /\ s[2] \in Punct THEN <<s[2]>> \o Inl(SubSeq(s, 3, Len(s)))
  ELSE IF Head(s) = "<" /\ Len(s) >= 4 /\ SubSeq(s, 1, 4) = BR THEN <<"\n">> \o Inl(SubSeq(s, 5, Len(s)))
  ELSE IF Head(s) \in {"*", "_", "`", "[", "]", "<", "&", "~"} THEN Mark \o Inl(Tail(s))
  ELSE <<Head(s)>> \o Inl(Tail(s))
All(s, c) == s # <<>> /\ \A i \in DOMAIN s : s[i] \in {c} \cup Blank
EndsWord(s, i) == i > Len(s) \/ s[i] \in Blank
(* would this line, standing where a block may start (or a paragraph go on), be more than text? *)
Starts(line) == LET s == LTrim(line) IN
  s # <<>> /\ (\/ Lead(s, {"#"}) \in 1..6 /\ EndsWord(s, Lead(s, {"#"}) + 1)
               \/ Head(s) \in {"-", "+", "*"} /\ EndsWord(s, 2)
               \/ Lead(s, Digits) > 0 /\ Lead(s, Digits) < Len(s) /\ s[Lead(s, Digits) + 1] \in {".", ")"} /\ EndsWord(s, Lead(s, Digits) + 2)
               \/ Head(s) = ">" \/ Lead(s, {"`"}) >= 3 \/ Lead(s, {"~"}) >= 3 \/ Head(s) = "|" \/ Head(s) = "<"
               \/ All(s, "-") \/ All(s, "=") \/ All(s, "*") \/ All(s, "_")
               \/ (\A i \in DOMAIN s : s[i] \in {"-", ":", "|"} \cup Blank) \/ Lead(line, Blank) >= 4)
Text(s) == [k |-> "text", ls |-> SolidOf(LinesOf(s))]
Content(line) == IF Starts(line) THEN Mark ELSE Inl(line)
(* the cells of a row: between bars that no backslash precedes *)
RECURSIVE CellsA(_, _)
CellsA(s, cur) == IF s = <<>> THEN (IF Trim(cur) = <<>> THEN <<>> ELSE <<cur>>) ELSE
  IF Head(s) = "\\" /\ Len(s) > 1 THEN CellsA(SubSeq(s, 3, Len(s)), cur \o SubSeq(s, 1, 2))
  ELSE IF Head(s) = "|" THEN <<cur>> \o CellsA(Tail(s), <<>>) ELSE CellsA(Tail(s), Append(cur, Head(s)))
Cells(line) == CellsA(Tail(line), <<>>)
RECURSIVE RowsOf(_)
RowsOf(ls) == IF ls = <<>> \/ Trim(Head(ls)) = <<>> \/ Head(Head(ls)) # "|" THEN <<>> ELSE <<Head(ls)>> \o RowsOf(Tail(ls))
Ref(n) == CASE n = <<"&", "a", "m", "p", ";">> -> "&" [] n = <<"&", "#", "9", "6", ";">> -> "`" [] OTHER -> ""
RECURSIVE Info(_)
Info(s) == IF s = <<>> THEN <<>> ELSE IF Head(s) = "\\" /\ Len(s) > 1 /\ s[2] \in Punct THEN <<s[2]>> \o Info(SubSeq(s, 3, Len(s)))
  ELSE IF Head(s) = "&" THEN (IF Len(s) >= 5 /\ Ref(SubSeq(s, 1, 5)) # "" THEN <<Ref(SubSeq(s, 1, 5))>> \o Info(SubSeq(s, 6, Len(s))) ELSE Mark \o Info(Tail(s)))
  ELSE IF Head(s) = "`" THEN Mark \o Info(Tail(s)) ELSE <<Head(s)>> \o Info(Tail(s))
Closes(line, n) == Lead(LTrim(line), {"`"}) >= n /\ All(LTrim(line), "`") /\ Lead(line, Blank) < 4
RECURSIVE Until(_, _)
Until(ls, n) == IF ls = <<>> \/ Closes(Head(ls), n) THEN <<>> ELSE <<Head(ls)>> \o Until(Tail(ls), n)
RECURSIVE QuoteLines(_)
QuoteLines(ls) == IF ls = <<>> \/ Head(ls) = <<>> \/ Head(Head(ls)) # ">" THEN <<>> ELSE <<Head(ls)>> \o QuoteLines(Tail(ls))
RECURSIVE QuoteText(_)
QuoteText(ls) == IF ls = <<>> THEN <<>> ELSE LET c == Tail(Head(ls)) IN Content(IF c # <<>> /\ Head(c) = " " THEN Tail(c) ELSE c) \o <<"\n">> \o QuoteText(Tail(ls))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
RECURSIVE MdRead(_)
MdRead(ls) ==
  IF ls = <<>> THEN <<>> ELSE LET l == Head(ls) IN
  IF Trim(l) = <<>> THEN MdRead(Tail(ls))
  ELSE IF Lead(l, {"#"}) \in 1..6 /\ EndsWord(l, Lead(l, {"#"}) + 1) THEN
    LET body == Trim(Drop(l, Lead(l, {"#"}))) IN <<[k |-> "heading", ls |-> SolidOf(LinesOf(Squeeze(Inl(IF body # <<>> /\ body[Len(body)] = "#" /\ (Len(body) = 1 \/ body[Len(body) - 1] # "\\") THEN Mark ELSE body)))), rows |-> <<>>, lang |-> <<>>]>> \o MdRead(Tail(ls))
  ELSE IF Lead(l, {"`"}) >= 3 THEN
    LET n == Lead(l, {"`"})  body == Until(Tail(ls), n) IN
    <<[k |-> "code", ls |-> body, rows |-> <<>>, lang |-> Info(Trim(Drop(l, n)))]>> \o MdRead(Drop(ls, Len(body) + 2))
  ELSE IF Head(l) = "-" /\ EndsWord(l, 2) THEN
    <<[k |-> "item", ls |-> SolidOf(LinesOf(Content(Trim(Drop(l, 1))))), rows |-> <<>>, lang |-> <<>>]>> \o MdRead(Tail(ls))
  ELSE IF Head(l) = ">" THEN
    LET q == QuoteLines(ls) IN <<[k |-> "quote", ls |-> SolidOf(LinesOf(QuoteText(q))), rows |-> <<>>, lang |-> <<>>]>> \o MdRead(Drop(ls, Len(q)))
  ELSE IF Head(l) = "|" THEN
    LET r == RowsOf(ls)  body == <<r[1]>> \o Drop(r, 2) IN
    <<[k |-> "table", ls |-> <<>>, rows |-> [i \in DOMAIN body |-> [j \in DOMAIN Cells(body[i]) |-> SolidOf(LinesOf(Inl(Trim(Cells(body[i])[j]))))]], lang |-> <<>>]>> \o MdRead(Drop(ls, Len(r)))
  ELSE <<[k |-> "para", ls |-> <<Mark>>, rows |-> <<>>, lang |-> <<>>]>> \o MdRead(Tail(ls))
B(k, ls) == [k |-> k, ls |-> ls, rows |-> <<>>, lang |-> <<>>]
Want(p, s) ==
  (CASE p = "heading" -> <<B("heading", SolidOf(<<Squeeze(Glue(SolidOf(LinesOf(s)), <<" ">>))>>))>>
     [] p = "item" -> <<B("item", SolidOf(LinesOf(s)))>>
     [] p = "quote" -> <<B("quote", SolidOf(LinesOf(s)))>>
     [] p = "code" -> <<B("code", LinesOf(s))>>
     [] p = "lang" -> <<[B("code", <<<<"x">>>>) EXCEPT !.lang = Trim(Glue(LinesOf(WTrim(s)), <<" ">>))]>>
     [] p = "cell" -> <<[B("table", <<>>) EXCEPT !.rows = <<<<SolidOf(LinesOf(s)), <<<<"b">>>>>>, <<<<<<"c">>>>, SolidOf(LinesOf(s))>>>>]>>) \o <<B("item", <<<<"z">>>>)>>

(* ---------------------------------------------------------------- HTML *)
HRef(c) == CASE c = "&" -> <<"&", "a", "m", "p", ";">> [] c = "<" -> <<"&", "l", "t", ";">> [] c = ">" -> <<"&", "g", "t", ";">>
             [] c = "\"" -> <<"&", "q", "u", "o", "t", ";">> [] c = "'" -> <<"&", "#", "3", "9", ";">> [] OTHER -> <<c>>
RECURSIVE HEsc(_)
HEsc(s) == IF s = <<>> THEN <<>> ELSE HRef(Head(s)) \o HEsc(Tail(s))
Refs == {HRef(c) : c \in {"&", "<", ">", "\"", "'"}}
(* the tokeniser: tags open in data, values end at their quote, references are decoded in all three *)
HtmlWrite(p, s) == (CASE p = "data" -> <<"<", "p", ">">> [] p = "rcdata" -> <<"<", "title", ">">> [] p = "value" -> <<"<", "img", " ", "alt", "=", "\"">>) \o HEsc(s)
                   \o (CASE p = "data" -> <<"<", "/", "p", ">">> [] p = "rcdata" -> <<"<", "/", "title", ">">> [] p = "value" -> <<"\"", ">">>)
Letters == {"a", "l", "t", "p", "title", "img"}
DecodeAt(s) == {r \in Refs : Len(s) >= Len(r) /\ SubSeq(s, 1, Len(r)) = r}
Decoded(r) == CHOOSE c \in {"&", "<", ">", "\"", "'"} : HRef(c) = r
RECURSIVE HText(_, _, _)     \* [text, rest] up to what ends the place
HText(p, s, acc) ==
  IF s = <<>> THEN [t |-> Append(acc, "EOF"), r |-> s]
  ELSE IF p = "value" /\ Head(s) = "\"" THEN [t |-> acc, r |-> s]
  ELSE IF p = "data" /\ Head(s) = "<" /\ Len(s) > 1 /\ s[2] \in Letters \cup {"/", "!", "?"} THEN [t |-> acc, r |-> s]
  ELSE IF p = "rcdata" /\ Len(s) > 2 /\ SubSeq(s, 1, 3) = <<"<", "/", "title">> THEN [t |-> acc, r |-> s]
  ELSE IF Head(s) = "&" /\ DecodeAt(s) # {} THEN LET r == CHOOSE x \in DecodeAt(s) : TRUE IN HText(p, SubSeq(s, Len(r) + 1, Len(s)), Append(acc, Decoded(r)))
  ELSE IF Head(s) = "&" THEN HText(p, Tail(s), acc \o Mark)
  ELSE HText(p, Tail(s), Append(acc, Head(s)))
HtmlRead(p, s) == LET body == CASE p = "value" -> SubSeq(s, 7, Len(s)) [] OTHER -> SubSeq(s, 4, Len(s))  h == HText(p, body, <<>>) IN
  [t |-> h.t, r |-> h.r]
HtmlEnd(p) == CASE p = "data" -> <<"<", "/", "p", ">">> [] p = "rcdata" -> <<"<", "/", "title", ">">> [] p = "value" -> <<"\"", ">">>

(* ---------------------------------------------------------------- the machine *)
Init == txt = <<>> /\ place \in MdPlaces \cup HtmlPlaces /\ pc = "text" /\ out = <<>> /\ got = <<>>
Type == pc = "text" /\ Len(txt) < MaxLen /\ txt' \in {Append(txt, c) : c \in IF place \in MdPlaces THEN MdAlphabet ELSE HtmlAlphabet} /\ UNCHANGED <<place, pc, out, got>>
Write == pc = "text" /\ pc' = "written" /\ out' = (IF place \in MdPlaces THEN MdWrite(place, txt) ELSE HtmlWrite(place, txt)) /\ UNCHANGED <<txt, place, got>>
Read == pc = "written" /\ pc' = "read" /\ got' = (IF place \in MdPlaces THEN MdRead(LinesOf(out)) ELSE <<HtmlRead(place, out)>>) /\ UNCHANGED <<txt, place, out>>
Next == Type \/ Write \/ Read
Spec == Init /\ [][Next]_vars

ReadsBack == pc = "read" => IF place \in MdPlaces THEN got = Want(place, txt) ELSE got = <<[t |-> txt, r |-> HtmlEnd(place)]>>
(* one place stands for all: the checker puts every text in every place *)
Emitted == (pc = "text" /\ Len(txt) <= EmitLen /\ place \in {"item", "data"}) => PrintT("@@" \o ToJson([t |-> txt, f |-> IF place = "item" THEN "md" ELSE "html"]))
=============================================================================
