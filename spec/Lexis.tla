------------------------------- MODULE Lexis -------------------------------
(* The lexical level: how names, strings and numbers appear as tokens.      *)
(* A rendered statement is compared as a sequence of tokens:                *)
(*   keywords, punctuation and ASCII identifiers   as they are              *)
(*   any other name (it has to be in backticks, unless all of its           *)
(*     characters are letters, digits or _)        "`" \o name              *)
(*   a string literal                              "'" \o its value         *)
(*   a number                                      its canonical digits     *)
(* The lexer that makes these tokens from the text the real code wrote is   *)
(* checked against the character-level rules in CharLex.tla.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Digits == {"0","1","2","3","4","5","6","7","8","9"}
IdStart == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","_"}
IdPart == IdStart \cup Digits

Ch(s, i) == SubSeq(s, i, i)

RECURSIVE AllFrom(_, _, _)
AllFrom(s, i, S) == i > Len(s) \/ (Ch(s, i) \in S /\ AllFrom(s, i + 1, S))

IsIdent(s) == Len(s) > 0 /\ Ch(s, 1) \in IdStart /\ AllFrom(s, 2, IdPart)
AllDigits(s) == Len(s) > 0 /\ AllFrom(s, 1, Digits)

(* the token of a name, of a string literal *)
NameTok(s) == IF IsIdent(s) THEN s ELSE "`" \o s
StrTok(s) == "'" \o s

(* the parts of s between dots *)
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, i, j) ==
  IF j > Len(s) THEN <<SubSeq(s, i, Len(s))>>
  ELSE IF Ch(s, j) = "." THEN <<SubSeq(s, i, j - 1)>> \o SplitFrom(s, j + 1, j + 1)
  ELSE SplitFrom(s, i, j + 1)
SplitDots(s) == SplitFrom(s, 1, 1)

RECURSIVE JoinDots(_, _)
JoinDots(ps, i) == IF i > Len(ps) THEN <<>>
                   ELSE (IF i > 1 THEN <<".">> ELSE <<>>) \o <<NameTok(ps[i])>> \o JoinDots(ps, i + 1)

(* qualified names (procedures, functions): every part is a name of its own *)
QualToks(s) == JoinDots(SplitDots(s), 1)

(* parameters: a leading $ is not part of the name; $a.b is the value b of the map in parameter a *)
RECURSIVE StripDollar(_)
StripDollar(s) == IF Len(s) > 0 /\ Ch(s, 1) = "$" THEN StripDollar(SubSeq(s, 2, Len(s))) ELSE s

ParamToks(name) ==
  LET ps == SplitDots(name)
      emptyPart == \E i \in 1..Len(ps) : ps[i] = ""
  IN <<"$">> \o (IF emptyPart THEN <<NameTok(name)>>
                 ELSE (IF AllDigits(ps[1]) THEN <<ps[1]>> ELSE <<NameTok(ps[1])>>)
                      \o (IF Len(ps) > 1 THEN <<".">> \o JoinDots(SubSeq(ps, 2, Len(ps)), 1) ELSE <<>>))

(* a number that is given as canonical text, with or without a sign *)
NumToks(s) == IF Len(s) > 0 /\ Ch(s, 1) = "-" THEN <<"-", SubSeq(s, 2, Len(s))>> ELSE <<s>>
=============================================================================
