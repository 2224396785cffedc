------------------------------- MODULE BigInt -------------------------------
(* Arbitrary size integers <<sign, limbs>> (base 1000, least significant first,
   no leading zero limb; sign 0 iff no limbs): TLC's own integers are 32 bit. *)
EXTENDS Integers, Sequences
LOCAL B == 1000
RECURSIVE Trim(_)
Trim(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m
At(m, i) == IF i \in DOMAIN m THEN m[i] ELSE 0
RECURSIVE CarryFrom(_, _, _)
\* m: digits possibly >= B or negative; propagates carries from position i
CarryFrom(m, i, c) ==
  IF i > Len(m) THEN IF c = 0 THEN <<>> ELSE <<c % B>> \o CarryFrom(m, i + 1, c \div B)
  ELSE LET x == m[i] + c IN <<x % B>> \o CarryFrom(m, i + 1, x \div B)
Max2(a, b) == IF a > b THEN a ELSE b
AddM(a, b) == Trim(CarryFrom([i \in 1..Max2(Len(a), Len(b)) |-> At(a, i) + At(b, i)], 1, 0))
SubM(a, b) == Trim(CarryFrom([i \in 1..Len(a) |-> At(a, i) - At(b, i)], 1, 0))   \* a >= b
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE CmpAt(a, b, i - 1)
CmpM(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpAt(a, b, Len(a))
RECURSIVE ConvSum(_, _, _, _)
ConvSum(a, b, k, i) == IF i > Len(a) THEN 0 ELSE a[i] * At(b, k + 1 - i) + ConvSum(a, b, k, i + 1)
MulM(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE Trim(CarryFrom([k \in 1..(Len(a) + Len(b) - 1) |-> ConvSum(a, b, k, 1)], 1, 0))
Zero == <<0, <<>>>>
One == <<1, <<1>>>>
Mk(s, m) == IF m = <<>> THEN Zero ELSE <<s, m>>
BNeg(x) == <<-x[1], x[2]>>
BAdd(x, y) == IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
              ELSE IF x[1] = y[1] THEN <<x[1], AddM(x[2], y[2])>>
              ELSE CASE CmpM(x[2], y[2]) = 0 -> Zero
                     [] CmpM(x[2], y[2]) = 1 -> <<x[1], SubM(x[2], y[2])>>
                     [] OTHER -> <<y[1], SubM(y[2], x[2])>>
BMul(x, y) == Mk(x[1] * y[1], MulM(x[2], y[2]))
RECURSIVE BPow(_, _)
BPow(x, e) == IF e = 0 THEN One ELSE BMul(x, BPow(x, e - 1))
AbsLt(x, y) == CmpM(x[2], y[2]) = -1
=============================================================================
