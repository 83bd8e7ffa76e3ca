-------------------------------- MODULE Dec --------------------------------
(***************************************************************************)
(* Unsigned 64-bit arithmetic on decimal strings: memcached counters do    *)
(* not fit TLC's integers.  Strings are indexed with SubSeq, which TLC     *)
(* supports.                                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Ch(s, i) == SubSeq(s, i, i)

DigitOf == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4)
        @@ ("5" :> 5) @@ ("6" :> 6) @@ ("7" :> 7) @@ ("8" :> 8) @@ ("9" :> 9)
DigitStr == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == c \in DOMAIN DigitOf

RECURSIVE TrimRight(_)
TrimRight(s) == IF s # "" /\ Ch(s, Len(s)) = " " THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE TrimZeros(_)
TrimZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN TrimZeros(SubSeq(s, 2, Len(s))) ELSE s

AllDigits(s) == \A i \in 1..Len(s) : IsDigit(Ch(s, i))

(* s < t, both without leading zeros *)
RECURSIVE LexLess(_, _, _)
LexLess(s, t, i) ==
    IF i > Len(s) THEN FALSE
    ELSE IF Ch(s, i) = Ch(t, i) THEN LexLess(s, t, i + 1)
    ELSE DigitOf[Ch(s, i)] < DigitOf[Ch(t, i)]
Less(s, t) == \/ Len(s) < Len(t)
              \/ Len(s) = Len(t) /\ LexLess(s, t, 1)

(* schoolbook addition and subtraction, least significant digit first *)
DigitAt(s, i) == IF i > Len(s) THEN 0 ELSE DigitOf[Ch(s, Len(s) + 1 - i)]
MaxSize(s, t) == IF Len(s) > Len(t) THEN Len(s) ELSE Len(t)
RECURSIVE AddFrom(_, _, _, _)
AddFrom(s, t, i, carry) ==
    IF i > MaxSize(s, t) THEN (IF carry = 1 THEN "1" ELSE "")
    ELSE LET d == DigitAt(s, i) + DigitAt(t, i) + carry
         IN AddFrom(s, t, i + 1, d \div 10) \o DigitStr[(d % 10) + 1]
Add(s, t) == TrimZeros(AddFrom(s, t, 1, 0))
RECURSIVE SubFrom(_, _, _, _)
SubFrom(s, t, i, borrow) ==      \* s >= t
    IF i > Len(s) THEN ""
    ELSE LET d == DigitAt(s, i) - DigitAt(t, i) - borrow
         IN IF d < 0 THEN SubFrom(s, t, i + 1, 1) \o DigitStr[d + 11]
                     ELSE SubFrom(s, t, i + 1, 0) \o DigitStr[d + 1]
Sub(s, t) == TrimZeros(SubFrom(s, t, 1, 0))

TwoTo64 == "18446744073709551616"
TwoTo63 == "9223372036854775808"

(* What memcached accepts as the value of a counter: at most 20 characters,
   digits optionally followed by spaces, below 2^64. *)
IsCounter(v) == /\ Len(v) \in 1..20
                /\ LET t == TrimRight(v) IN /\ t # ""
                                            /\ AllDigits(t)
                                            /\ Less(TrimZeros(t), TwoTo64)
CounterOf(v) == TrimZeros(TrimRight(v))

IncrBy(n, d) == LET s == Add(n, d) IN IF Less(s, TwoTo64) THEN s ELSE Sub(s, TwoTo64)
DecrBy(n, d) == IF Less(n, d) THEN "0" ELSE Sub(n, d)

RECURSIVE PadTo(_, _)
PadTo(s, n) == IF Len(s) >= n THEN s ELSE PadTo(s \o " ", n)
=============================================================================
