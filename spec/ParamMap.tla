------------------------------ MODULE ParamMap ------------------------------
(* rofl::ParamMap: a table from names to texts, filled from streams, files,   *)
(* command lines and programs; typed access, listing, containers, '~' paths.  *)
(* Texts are TLA+ strings (TLC evaluates Len, SubSeq and \o on strings).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE table       \* [name -> text]

(* ------------------------------------------------------ characters ------ *)
Ch(s, i) == SubSeq(s, i, i)
IsSpace(c) == c \in {" ", "\t", "\r", "\f", "\n"}
Digits == "0123456789"
Letters == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
CharsOf(s) == {Ch(s, i) : i \in 1..Len(s)}
DigitSet == CharsOf(Digits)
LetterSet == CharsOf(Letters)
DigitVal == [c \in DigitSet |-> CHOOSE d \in 0..9 : Ch(Digits, d + 1) = c]
(* printable ASCII in code order, for lexicographic comparison *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code == [c \in CharsOf(Ascii) |-> CHOOSE k \in 1..Len(Ascii) : Ch(Ascii, k) = c]
RECURSIVE StrLess(_, _, _)
StrLess(s, t, i) == IF i > Len(t) THEN FALSE
                    ELSE IF i > Len(s) THEN TRUE
                    ELSE IF Ch(s, i) = Ch(t, i) THEN StrLess(s, t, i + 1)
                    ELSE Code[Ch(s, i)] < Code[Ch(t, i)]

(* --------------------------------------------------- parsing sources ---- *)
RECURSIVE SkipSp(_, _), SkipWd(_, _)
SkipSp(s, i) == IF i <= Len(s) /\ IsSpace(Ch(s, i)) THEN SkipSp(s, i + 1) ELSE i
SkipWd(s, i) == IF i <= Len(s) /\ ~IsSpace(Ch(s, i)) THEN SkipWd(s, i + 1) ELSE i

Put(t, k, v) == [x \in DOMAIN t \cup {k} |-> IF x = k THEN v ELSE t[x]]

(* one line: first word = name, second word = text; comments and short lines are ignored *)
ReadLine(t, s) ==
    LET a == SkipSp(s, 1)  b == SkipWd(s, a)  c == SkipSp(s, b)  d == SkipWd(s, c)
    IN  IF c > Len(s) \/ Ch(s, a) = "#" THEN t
        ELSE Put(t, SubSeq(s, a, b - 1), SubSeq(s, c, d - 1))
RECURSIVE ReadLines(_, _, _)
ReadLines(t, ls, i) == IF i > Len(ls) THEN t ELSE ReadLines(ReadLine(t, ls[i]), ls, i + 1)

IsOption(s) == Len(s) >= 2 /\ Ch(s, 1) = "-" /\ Ch(s, 2) \in LetterSet
(* args[1] is the program; an option directly followed by a non-option is a setting *)
RECURSIVE ReadArgs(_, _, _)
ReadArgs(t, args, i) ==
    IF i >= Len(args) THEN t
    ELSE ReadArgs(IF IsOption(args[i]) /\ ~IsOption(args[i + 1])
                  THEN Put(t, SubSeq(args[i], 2, Len(args[i])), args[i + 1]) ELSE t, args, i + 1)

(* ------------------------------------------------------ typed values ---- *)
(* integers: optional sign and decimal digits, the whole text, in the range of 32 bits *)
AllDigits(s, i) == i <= Len(s) /\ \A k \in i..Len(s) : Ch(s, k) \in DigitSet
IntStart(s) == IF s # "" /\ Ch(s, 1) \in {"+", "-"} THEN 2 ELSE 1
RECURSIVE SkipZero(_, _)
SkipZero(s, i) == IF i <= Len(s) /\ Ch(s, i) = "0" THEN SkipZero(s, i + 1) ELSE i
(* minus the value of the digits from position i on *)
RECURSIVE NegDec(_, _, _)
NegDec(s, i, acc) == IF i > Len(s) THEN acc ELSE NegDec(s, i + 1, 10 * acc - DigitVal[Ch(s, i)])
IsInt(s) == /\ AllDigits(s, IntStart(s))
            /\ LET z == SkipZero(s, IntStart(s))
                   m == Len(s) - z + 1
               IN  \/ m <= 9
                   \/ m = 10 /\ ~StrLess(IF Ch(s, 1) = "-" THEN "2147483648" ELSE "2147483647", SubSeq(s, z, Len(s)), 1)
IntVal(s) == LET v == NegDec(s, IntStart(s), 0) IN IF Ch(s, 1) = "-" THEN v ELSE 0 - v
(* decimals: [sign] digits [. digits] with a digit on at least one side of the dot; value in
   thousandths.  At most three decimals and six digits are modelled. *)
DotAt(s) == IF \E k \in 1..Len(s) : Ch(s, k) = "." THEN CHOOSE k \in 1..Len(s) : Ch(s, k) = "." /\ \A j \in 1..(k - 1) : Ch(s, j) # "." ELSE Len(s) + 1
IsPlain(s) == LET i == IntStart(s)  d == DotAt(s) IN
              /\ \A k \in i..Len(s) : k = d \/ Ch(s, k) \in DigitSet
              /\ (d > i \/ d < Len(s)) /\ i <= Len(s)
Pow10(k) == CASE k <= 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] k = 3 -> 1000 [] k = 4 -> 10000 [] k = 5 -> 100000 [] k >= 6 -> 1000000
(* value of a plain decimal in units of 10^-e *)
PlainVal(s, e) == LET i == IntStart(s)
                      d == DotAt(s)
                      ip == NegDec(SubSeq(s, i, d - 1), 1, 0)
                      fp == IF d >= Len(s) THEN 0 ELSE NegDec(s, d + 1, 0)
                      nf == IF d >= Len(s) THEN 0 ELSE Len(s) - d
                      v == (Pow10(e) * ip) + (Pow10(e - nf) * fp)
                  IN  IF Ch(s, 1) = "-" THEN v ELSE 0 - v
(* optional exponent, modelled from -2 to 3 *)
ExpAt(s) == IF \E k \in 1..Len(s) : Ch(s, k) \in {"e", "E"} THEN CHOOSE k \in 1..Len(s) : Ch(s, k) \in {"e", "E"} /\ \A j \in 1..(k - 1) : Ch(s, j) \notin {"e", "E"} ELSE Len(s) + 1
IsDec(s) == LET k == ExpAt(s) IN
            /\ IsPlain(SubSeq(s, 1, k - 1))
            /\ k > Len(s) \/ AllDigits(SubSeq(s, k + 1, Len(s)), IntStart(SubSeq(s, k + 1, Len(s))))
DecVal(s) == LET k == ExpAt(s) IN
             IF k > Len(s) THEN PlainVal(s, 3) ELSE PlainVal(SubSeq(s, 1, k - 1), 3 + IntVal(SubSeq(s, k + 1, Len(s))))

(* the claim leaves the doubles read from long digit strings open (32 bit arithmetic of TLC) *)
Vague(kind, s) == kind \in {"double", "float"} /\ IsDec(s) /\ Cardinality({k \in 1..Len(s) : Ch(s, k) \in DigitSet}) > 6
Castable(kind, s) == CASE kind = "int"    -> IsInt(s)
                       [] kind = "double" -> IsDec(s)
                       [] kind = "float"  -> IsDec(s)
                       [] kind = "bool"   -> IsInt(s) /\ IntVal(s) \in {0, 1}
                       [] kind = "string" -> TRUE
Cast(kind, s) == CASE kind = "int"    -> IntVal(s)
                   [] kind = "double" -> DecVal(s)
                   [] kind = "float"  -> DecVal(s)
                   [] kind = "bool"   -> (IntVal(s) = 1)
                   [] kind = "string" -> s

(* ---------------------------------------------------------- actions ---- *)
Read(lines) == table' = ReadLines(table, lines, 1)
Argv(args)  == table' = ReadArgs(table, args, 2)
SetText(k, v) == table' = Put(table, k, v)
Clear == table' = <<>>

(* getParam(name, destination, default) with the destination holding prev before *)
Get(kind, k, dflt, prev, ret, val) ==
    IF k \in DOMAIN table
    THEN /\ ret = TRUE /\ UNCHANGED table
         /\ IF Vague(kind, table[k]) THEN TRUE ELSE
            val = (IF Castable(kind, table[k]) THEN Cast(kind, table[k]) ELSE Cast(kind, prev))
    ELSE /\ ret = FALSE /\ val = Cast(kind, dflt) /\ SetText(k, dflt)

(* ------------------------------------------------------- containers ---- *)
(* pieces of s between delimiter characters, empty pieces dropped *)
RECURSIVE Pieces(_, _, _, _)
Pieces(s, delim, i, from) ==
    LET D == CharsOf(delim)
        add(j) == IF from < j THEN <<SubSeq(s, from, j - 1)>> ELSE <<>>
    IN  IF i > Len(s) THEN add(i)
        ELSE IF Ch(s, i) \in D THEN add(i) \o Pieces(s, delim, i + 1, i + 1)
        ELSE Pieces(s, delim, i + 1, from)
Split(s, delim) == Pieces(s, delim, 1, 1)
(* number of leading pieces that convert *)
Good(kind, ps) == IF \E i \in DOMAIN ps : ~Castable(kind, ps[i])
                  THEN (CHOOSE i \in DOMAIN ps : ~Castable(kind, ps[i]) /\ \A j \in 1..(i - 1) : Castable(kind, ps[j])) - 1
                  ELSE Len(ps)
(* a range of n positions filled from the text s *)
Filled(kind, s, delim, n, dflt) ==
    LET ps == Split(s, delim)  g == Good(kind, ps)
    IN  [i \in 1..n |-> IF i <= g THEN Cast(kind, ps[i]) ELSE Cast(kind, dflt)]
Inserted(kind, s, delim) ==
    LET ps == Split(s, delim)  g == Good(kind, ps) IN [i \in 1..g |-> Cast(kind, ps[i])]

GetRange(kind, k, n, dfltText, dflt, delim, ret, vals) ==
    IF k \in DOMAIN table
    THEN ret = TRUE /\ vals = Filled(kind, table[k], delim, n, dflt) /\ UNCHANGED table
    ELSE ret = FALSE /\ vals = Filled(kind, dfltText, delim, n, dflt) /\ SetText(k, dfltText)
GetInsert(kind, k, delim, ret, vals) ==
    IF k \in DOMAIN table
    THEN ret = TRUE /\ vals = Inserted(kind, table[k], delim) /\ UNCHANGED table
    ELSE ret = FALSE /\ vals = <<>> /\ SetText(k, "")

(* '~' and '~/...' become $HOME/...; all other values are kept *)
TildeExp(v, home) == home \o "/" \o SubSeq(v, 3, Len(v))
Tilde(home) == table' = [k \in DOMAIN table |->
    LET v == table[k] IN IF v = "~" \/ (Len(v) >= 2 /\ SubSeq(v, 1, 2) = "~/") THEN TildeExp(v, home) ELSE v]

(* ---------------------------------------------------------- listing ---- *)
IsListing(t, names, lines, prefix) ==
    /\ {names[i] : i \in DOMAIN names} = DOMAIN t /\ Len(names) = Cardinality(DOMAIN t)
    /\ Len(lines) = Len(names)
    /\ \A i \in DOMAIN names : lines[i] = prefix \o names[i] \o " " \o t[names[i]]
    /\ \A i \in 1..(Len(names) - 1) : StrLess(names[i], names[i + 1], 1)
IsWord(s) == s # "" /\ \A i \in 1..Len(s) : ~IsSpace(Ch(s, i))
=============================================================================
