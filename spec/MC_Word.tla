-------------------------------- MODULE MC_Word --------------------------------
(* The two word domains agree: for every operator, width and operand pair the  *)
(* integer implementation and the bit-sequence implementation give the same    *)
(* word.  One TLC state per (width, a, b); the invariant runs all operators.   *)
EXTENDS Integers, Sequences
CONSTANTS Widths
I == INSTANCE KWordI
B == INSTANCE KWordB
VARIABLES w, a, b
RECURSIVE ToI(_, _)
ToI(v, i) == IF i > Len(v) THEN 0 ELSE v[i] * 2^(i - 1) + ToI(v, i + 1)
AsInt(v) == ToI(v, 1)
Init == w \in Widths /\ a \in 0..(2^w - 1) /\ b = 0
Next == b < 2^w - 1 /\ b' = b + 1 /\ UNCHANGED <<w, a>>
A1 == B!WNat(a, w)
B1 == B!WNat(b, w)
Agree ==
  /\ AsInt(A1) = a
  /\ AsInt(B!WAdd(A1, B1, w)) = I!WAdd(a, b, w)
  /\ AsInt(B!WSub(A1, B1, w)) = I!WSub(a, b, w)
  /\ AsInt(B!WMul(A1, B1, w)) = I!WMul(a, b, w)
  /\ AsInt(B!WUDiv(A1, B1, w)) = I!WUDiv(a, b, w)
  /\ AsInt(B!WUMod(A1, B1, w)) = I!WUMod(a, b, w)
  /\ AsInt(B!WSDiv(A1, B1, w)) = I!WSDiv(a, b, w)
  /\ AsInt(B!WSMod(A1, B1, w)) = I!WSMod(a, b, w)
  /\ AsInt(B!WAnd(A1, B1, w)) = I!WAnd(a, b, w)
  /\ AsInt(B!WOr(A1, B1, w)) = I!WOr(a, b, w)
  /\ AsInt(B!WXor(A1, B1, w)) = I!WXor(a, b, w)
  /\ AsInt(B!WNot(A1, w)) = I!WNot(a, w)
  /\ AsInt(B!WNeg(A1, w)) = I!WNeg(a, w)
  /\ B!WULt(A1, B1, w) = I!WULt(a, b, w)
  /\ B!WSLt(A1, B1, w) = I!WSLt(a, b, w)
  /\ B!WEq(A1, B1) = I!WEq(a, b)
  /\ B!WRedAnd(A1, w) = I!WRedAnd(a, w)
  /\ B!WRedXor(A1, w) = I!WRedXor(a, w)
  /\ B!WIsTrue(A1) = I!WIsTrue(a)
  /\ \A n \in 0..(w + 1) :
       /\ AsInt(B!WShl(A1, n, w)) = I!WShl(a, n, w)
       /\ AsInt(B!WLshr(A1, n, w)) = I!WLshr(a, n, w)
       /\ AsInt(B!WAshr(A1, n, w)) = I!WAshr(a, n, w)
  /\ \A n \in 1..(w + 3) : \A sg \in BOOLEAN : AsInt(B!WExt(A1, w, n, sg)) = I!WExt(a, w, n, sg)
  /\ \A lo \in 0..(w - 1) : \A n \in 1..(w - lo) :
       /\ AsInt(B!WSlice(A1, lo, n)) = I!WSlice(a, lo, n)
       /\ AsInt(B!WInsert(A1, w, lo, n, B!WNat(b % 2^n, n))) = I!WInsert(a, w, lo, n, b % 2^n)
  /\ AsInt(B!WCat(A1, w, B1, w)) = I!WCat(a, w, b, w)
Spec == Init /\ [][Next]_<<w, a, b>>
================================================================================
