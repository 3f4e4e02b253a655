------------------------------- MODULE KWord -------------------------------
(* Hardware words as bit sequences, least significant bit first, any width.  *)
(* Same interface as wint/KWord.tla.  Every operator is defined from single  *)
(* bits, independently of machine integers.                                  *)
EXTENDS Integers, Sequences

W_Pad(v, w) == IF Len(v) >= w THEN SubSeq(v, 1, w)
                   ELSE v \o [i \in 1..(w - Len(v)) |-> 0]
RECURSIVE WNat(_, _)
WNat(n, w) == IF w = 0 THEN <<>> ELSE <<n % 2>> \o WNat(n \div 2, w - 1)
WRaw(r) == r
WZero(w) == [i \in 1..w |-> 0]
WBool(b) == IF b THEN <<1>> ELSE <<0>>
WIsTrue(v) == \E i \in 1..Len(v) : v[i] = 1
(* index value, saturated: words above 2^24 are "too big for any index" *)
RECURSIVE W_ToNat(_, _)
W_ToNat(v, i) == IF i > Len(v) THEN 0
               ELSE IF i > 24 THEN (IF \E j \in i..Len(v) : v[j] = 1 THEN 16777216 ELSE 0)
               ELSE v[i] * 2^(i - 1) + W_ToNat(v, i + 1)
WToNat(v) == W_ToNat(v, 1)
WSlice(v, lo, w) == SubSeq(v, lo + 1, lo + w)
WInsert(v, tw, lo, w, x) == SubSeq(v, 1, lo) \o x \o SubSeq(v, lo + w + 1, tw)
WCat(hi, hw, lo, lw) == lo \o hi
WExt(v, pw, w, sg) == IF w <= pw THEN SubSeq(v, 1, w)
                      ELSE LET f == IF sg THEN v[pw] ELSE 0
                           IN v \o [i \in 1..(w - pw) |-> f]
RECURSIVE W_AddC(_, _, _, _, _)
W_AddC(a, b, c, i, w) ==
    IF i > w THEN <<>>
    ELSE LET t == a[i] + b[i] + c IN <<t % 2>> \o W_AddC(a, b, t \div 2, i + 1, w)
WNot(a, w) == [i \in 1..w |-> 1 - a[i]]
WAdd(a, b, w) == W_AddC(a, b, 0, 1, w)
WSub(a, b, w) == W_AddC(a, WNot(b, w), 1, 1, w)
WNeg(a, w) == W_AddC(WZero(w), WNot(a, w), 1, 1, w)
WShl(a, n, w) == IF n >= w THEN WZero(w) ELSE WZero(n) \o SubSeq(a, 1, w - n)
WLshr(a, n, w) == IF n >= w THEN WZero(w) ELSE SubSeq(a, n + 1, w) \o WZero(n)
WAshr(a, n, w) == LET f == a[w] m == IF n >= w THEN w ELSE n
                  IN SubSeq(a, m + 1, w) \o [i \in 1..m |-> f]
RECURSIVE W_MulR(_, _, _, _, _)
W_MulR(a, b, i, w, acc) ==
    IF i > w THEN acc
    ELSE W_MulR(a, b, i + 1, w, IF b[i] = 1 THEN WAdd(acc, WShl(a, i - 1, w), w) ELSE acc)
WMul(a, b, w) == W_MulR(a, b, 1, w, WZero(w))
WEq(a, b) == a = b
RECURSIVE W_Lt(_, _, _)
W_Lt(a, b, i) == IF i = 0 THEN FALSE
               ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE W_Lt(a, b, i - 1)
WULt(a, b, w) == W_Lt(a, b, w)
WSLt(a, b, w) == IF a[w] # b[w] THEN a[w] = 1 ELSE W_Lt(a, b, w)
(* restoring division, most significant bit first: <<quotient, remainder>> *)
RECURSIVE W_DivR(_, _, _, _, _, _)
W_DivR(a, b, i, w, q, r) ==
    IF i = 0 THEN <<q, SubSeq(r, 1, w)>>
    ELSE LET r1 == <<a[i]>> \o SubSeq(r, 1, w)         \* w+1 bits
             bb == b \o <<0>>
         IN IF W_Lt(r1, bb, w + 1) THEN W_DivR(a, b, i - 1, w, <<0>> \o q, r1)
            ELSE W_DivR(a, b, i - 1, w, <<1>> \o q, WSub(r1, bb, w + 1))
W_UDM(a, b, w) == W_DivR(a, b, w, w, <<>>, WZero(w + 1))
WUDiv(a, b, w) == IF ~WIsTrue(b) THEN WZero(w) ELSE W_UDM(a, b, w)[1]
WUMod(a, b, w) == IF ~WIsTrue(b) THEN WZero(w) ELSE W_UDM(a, b, w)[2]
W_AbsB(a, w) == IF a[w] = 1 THEN WNeg(a, w) ELSE a
WSDiv(a, b, w) == IF ~WIsTrue(b) THEN WZero(w)
                  ELSE LET q == W_UDM(W_AbsB(a, w), W_AbsB(b, w), w)[1]
                       IN IF a[w] # b[w] THEN WNeg(q, w) ELSE q
WSMod(a, b, w) == IF ~WIsTrue(b) THEN WZero(w)
                  ELSE LET r == W_UDM(W_AbsB(a, w), W_AbsB(b, w), w)[2]
                       IN IF a[w] = 1 THEN WNeg(r, w) ELSE r
WAnd(a, b, w) == [i \in 1..w |-> a[i] * b[i]]
WOr(a, b, w) == [i \in 1..w |-> IF a[i] + b[i] > 0 THEN 1 ELSE 0]
WXor(a, b, w) == [i \in 1..w |-> IF a[i] = b[i] THEN 0 ELSE 1]
WRedAnd(a, w) == \A i \in 1..w : a[i] = 1
RECURSIVE WPar(_, _)
WPar(a, i) == IF i = 0 THEN 0 ELSE (a[i] + WPar(a, i - 1)) % 2
WRedXor(a, w) == WPar(a, w) = 1
=============================================================================
