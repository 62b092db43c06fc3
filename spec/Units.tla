-------------------------------- MODULE Units --------------------------------
(* U01: lengths.  A length is num/den of a unit; EMU results are whole numbers,   *)
(* fractions of an EMU may be dropped (or rounded), negative lengths become 0 and  *)
(* lengths beyond the 32-bit range saturate.                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
SlideW == 9144000
SlideH == 6858000
Per(u) == CASE u = "in" -> 914400 [] u = "cm" -> 360000 [] u = "pt" -> 12700 [] OTHER -> 1
Abs(x) == IF x < 0 THEN -x ELSE x
FloorMul(n, per, d) == ((n \div d) * per) + (((n % d) * per) \div d)
\* a ratio n/d of a reference length, clamped to 0..1
Part(n, d, ref) == IF n <= 0 THEN 0 ELSE IF n >= d THEN ref ELSE (ref \div d) * n + (((ref % d) * n) \div d)

\* the value in EMU, for kind "x" (reference slide width), "y" (slide height), "ref" (given reference),
\* "abs" (no reference), "signed" (negative lengths stay negative)
Emu(unit, n, d, kind, ref) ==
  LET r == CASE kind = "x" -> SlideW [] kind = "y" -> SlideH [] OTHER -> ref IN
  CASE unit = "ratio" -> Part(n, d, r)
    [] unit = "percent" -> Part(n, d * 100, r)
    [] OTHER -> IF n >= 0 THEN FloorMul(n, Per(unit), d)
                ELSE IF kind = "signed" THEN -FloorMul(-n, Per(unit), d)
                ELSE 0
\* whether the length is a whole number of EMU
Whole(unit, n, d, kind, ref) ==
  LET r == CASE kind = "x" -> SlideW [] kind = "y" -> SlideH [] OTHER -> ref IN
  CASE unit = "ratio" -> n <= 0 \/ n >= d \/ ((r % d) * n) % d = 0
    [] unit = "percent" -> n <= 0 \/ n >= d * 100 \/ ((r % (d * 100)) * n) % (d * 100) = 0
    [] OTHER -> n < 0 \/ ((n % d) * Per(unit)) % d = 0
\* a computed value agrees with the definition: a whole number of EMU is met exactly when the length is a binary
\* fraction of the unit (or lies outside what is clamped), and may otherwise fall short by the error of the
\* arithmetic; of any other value the fraction is dropped or rounded up
Plainly(unit, n, d) == d \in {1, 2, 4, 8} /\ unit # "percent"
Agrees(v, unit, n, d, kind, ref) ==
  LET e == Emu(unit, n, d, kind, ref) IN
  IF kind = "signed" THEN Abs(v - e) <= 1
  ELSE IF Whole(unit, n, d, kind, ref) THEN v = e \/ (~Plainly(unit, n, d) /\ e > 0 /\ v = e - 1)
  ELSE v \in {e, e + 1}

\* ------------------------------------------------ design properties over the whole table
Monotone(unit, n, d, kind, ref) == Emu(unit, n, d, kind, ref) <= Emu(unit, n + 1, d, kind, ref)
SameLength == /\ \A k \in 0..40 : Emu("in", k, 4, "abs", 0) = Emu("pt", 18 * k, 1, "abs", 0)
              /\ \A k \in 0..40 : Emu("cm", 254 * k, 100, "abs", 0) = Emu("in", k, 1, "abs", 0)
              /\ \A k \in 0..100 : Emu("percent", k, 1, "x", 0) = Emu("ratio", k, 100, "x", 0)
=============================================================================
