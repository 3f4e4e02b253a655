------------------------------- MODULE KWord -------------------------------
(* Hardware words as unsigned integers 0 .. 2^w-1, for w <= 30 (TLC integers *)
(* are 32-bit).  The sibling module wbits/KWord.tla implements the same      *)
(* interface over bit sequences for any width; MC_Word.tla checks that the   *)
(* two agree.                                                                *)
EXTENDS Integers, Sequences, Bitwise

Pw(n) == 2^n
W_Mask(v, w) == v % Pw(w)

WRaw(r) == r                              \* constant as shipped in JSON
WZero(w) == 0
WNat(n, w) == n % Pw(w)                    \* natural number to word
WBool(b) == IF b THEN 1 ELSE 0
WIsTrue(v) == v # 0
WToNat(v) == v                            \* index value
WSlice(v, lo, w) == IF lo = 0 THEN v % Pw(w) ELSE (v \div Pw(lo)) % Pw(w)
WInsert(v, tw, lo, w, x) ==
    LET low  == v % Pw(lo)
        high == IF lo + w >= tw THEN 0 ELSE v \div Pw(lo + w)
    IN IF w = tw THEN x ELSE low + x * Pw(lo) + (IF lo + w >= tw THEN 0 ELSE high * Pw(lo + w))
WCat(hi, hw, lo, lw) == hi * Pw(lw) + lo
WSInt(v, w) == IF v >= Pw(w - 1) THEN v - Pw(w) ELSE v
WFromS(x, w) == x % Pw(w)                  \* TLC's % is the mathematical one
WExt(v, pw, w, sg) == IF w <= pw THEN v % Pw(w)
                      ELSE IF sg THEN WFromS(WSInt(v, pw), w) ELSE v
WAdd(a, b, w) == (a + b) % Pw(w)
WSub(a, b, w) == (a - b) % Pw(w)
WNeg(a, w) == (0 - a) % Pw(w)
WMul(a, b, w) ==
    IF w <= 15 THEN (a * b) % Pw(w)
    ELSE LET a0 == a % Pw(15)  a1 == a \div Pw(15)
             b0 == b % Pw(15)  b1 == b \div Pw(15)
             m  == ((a1 * b0) % Pw(15)) + ((a0 * b1) % Pw(15))
         IN (a0 * b0 + (m % Pw(w - 15)) * Pw(15) ) % Pw(w)
WUDiv(a, b, w) == IF b = 0 THEN 0 ELSE a \div b
WUMod(a, b, w) == IF b = 0 THEN 0 ELSE a % b
W_Abs(x) == IF x < 0 THEN 0 - x ELSE x
WSDiv(a, b, w) ==
    LET x == WSInt(a, w)  y == WSInt(b, w)
    IN IF b = 0 THEN 0
       ELSE WFromS(IF (x < 0) = (y < 0) THEN W_Abs(x) \div W_Abs(y) ELSE 0 - (W_Abs(x) \div W_Abs(y)), w)
WSMod(a, b, w) ==
    LET x == WSInt(a, w)  y == WSInt(b, w)
    IN IF b = 0 THEN 0
       ELSE WFromS(IF x < 0 THEN 0 - (W_Abs(x) % W_Abs(y)) ELSE x % W_Abs(y), w)
WAnd(a, b, w) == a & b
WOr(a, b, w) == a | b
WXor(a, b, w) == a ^^ b
WNot(a, w) == Pw(w) - 1 - a
WEq(a, b) == a = b
WULt(a, b, w) == a < b
WSLt(a, b, w) == WSInt(a, w) < WSInt(b, w)
WShl(a, n, w) == IF n >= w THEN 0 ELSE (a % Pw(w - n)) * Pw(n)
WLshr(a, n, w) == IF n >= w THEN 0 ELSE a \div Pw(n)
WAshr(a, n, w) == IF a < Pw(w - 1) THEN WLshr(a, n, w)
                  ELSE IF n >= w THEN Pw(w) - 1
                  ELSE (a \div Pw(n)) + (Pw(w) - Pw(w - n))
WRedAnd(a, w) == a = Pw(w) - 1
RECURSIVE WPar(_)
WPar(a) == IF a = 0 THEN 0 ELSE ((a % 2) + WPar(a \div 2)) % 2
WRedXor(a, w) == WPar(a) = 1
=============================================================================
