---------------------------------- MODULE Ring ----------------------------------
(* Exact arithmetic for amplitudes.                                                *)
(*                                                                                 *)
(*  real    <<a,b,c,d>>   stands for a + b*Sqrt(2) + c*Sqrt(3) + d*Sqrt(6)         *)
(*  complex <<re,im>>     re and im real in the sense above                        *)
(*                                                                                 *)
(* All integers. States are kept as unnormalised vectors over this ring plus the   *)
(* real number N whose square root normalises them, so no division is needed.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

Abs(n) == IF n < 0 THEN -n ELSE n
Max2(a,b) == IF a > b THEN a ELSE b
Min2(a,b) == IF a < b THEN a ELSE b

RECURSIVE Gcd(_,_)
Gcd(a,b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))

RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n-1)

RECURSIVE Binom(_,_)
Binom(n,k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n-1,k-1) + Binom(n-1,k)

RECURSIVE IPow(_,_)
IPow(b,e) == IF e = 0 THEN 1 ELSE b * IPow(b,e-1)

------------------------------------ (* reals *) ------------------------------------
RZero == <<0,0,0,0>>
ROne  == <<1,0,0,0>>
RInt(n) == <<n,0,0,0>>
RAdd(x,y) == <<x[1]+y[1], x[2]+y[2], x[3]+y[3], x[4]+y[4]>>
RSub(x,y) == <<x[1]-y[1], x[2]-y[2], x[3]-y[3], x[4]-y[4]>>
RNeg(x) == <<-x[1],-x[2],-x[3],-x[4]>>
RMul(x,y) == IF x = RZero \/ y = RZero THEN RZero ELSE
             << x[1]*y[1] + 2*x[2]*y[2] + 3*x[3]*y[3] + 6*x[4]*y[4],
                x[1]*y[2] + x[2]*y[1] + 3*(x[3]*y[4] + x[4]*y[3]),
                x[1]*y[3] + x[3]*y[1] + 2*(x[2]*y[4] + x[4]*y[2]),
                x[1]*y[4] + x[4]*y[1] + x[2]*y[3] + x[3]*y[2] >>
RECURSIVE RPow(_,_)
RPow(x,n) == IF n = 0 THEN ROne ELSE RMul(x, RPow(x,n-1))
RSize(x) == Max2(Max2(Abs(x[1]),Abs(x[2])),Max2(Abs(x[3]),Abs(x[4])))

(* Weight: |a| + Sqrt(2)|b| + Sqrt(3)|c| + Sqrt(6)|d| rounded up. Submultiplicative,  *)
(* bounds every coefficient and every intermediate number of a product, and is used *)
(* to stay within the integers of the model checker.                                *)
RW(x) == Abs(x[1]) + Abs(x[2]) + Abs(x[3]) + 2*Abs(x[4])
         + (42*Abs(x[2]) + 74*Abs(x[3]) + 45*Abs(x[4]) + 99) \div 100
Cap == 1000000000
SatMul(a,b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a > Cap \div b THEN Cap ELSE a * b
SatAdd(a,b) == IF a + b > Cap THEN Cap ELSE a + b
RECURSIVE SatPow(_,_)
SatPow(b,e) == IF e = 0 THEN 1 ELSE SatMul(b, SatPow(b,e-1))

(* Rational interval around x/k in thousandths:  RLo(x,k) <= 1000*x/k <= RHi(x,k)   *)
RScaleFor(x) == 1 + RW(x) \div 100000
RMid(x,k) == IF k = 1 THEN 1000*x[1] + 1414*x[2] + 1732*x[3] + 2449*x[4]
             ELSE 1000*(x[1] \div k) + 1414*(x[2] \div k) + 1732*(x[3] \div k) + 2449*(x[4] \div k)
RErr(x,k) == (Abs(x[2]) + Abs(x[3]) + Abs(x[4])) \div k + (IF k = 1 THEN 0 ELSE 6600)
RLo(x,k) == RMid(x,k) - RErr(x,k)
RHi(x,k) == RMid(x,k) + RErr(x,k)
RPositive(x) == RLo(x,RScaleFor(x)) > 0
RNegative(x) == RHi(x,RScaleFor(x)) < 0

(* Is x/N below, above or too close to tn/td?  ("lt","gt","close"; N > 0)           *)
RatioTo(x,N,tn,td) ==
   LET k == RScaleFor(N)
       kk == IF RScaleFor(x) > k THEN RScaleFor(x) ELSE k
       nlo == RLo(N,kk)
       nhi == RHi(N,kk)
       xlo == RLo(x,kk)
       xhi == RHi(x,kk)
   IN  IF x = RZero THEN "lt"
       ELSE IF nlo <= 0 THEN "close"
       \* x/N < tn/td surely, with 20 percent margin
       ELSE IF (xhi \div tn) + 1 < 4 * (nlo \div (5*td)) THEN "lt"
       ELSE IF (xlo \div tn) > 6 * (nhi \div (5*td)) + 6 THEN "gt"
       ELSE "close"

(* Square root of a positive integer of the form q*q*{1,2,3,6}; <<>> otherwise     *)
RECURSIVE SqrtSearch(_,_)
SqrtSearch(n,q) == IF q = 0 THEN <<>>
   ELSE LET qq == q*q IN
        IF n % qq = 0 /\ n \div qq \in {1,2,3,6}
        THEN CASE n \div qq = 1 -> <<q,0,0,0>>
               [] n \div qq = 2 -> <<0,q,0,0>>
               [] n \div qq = 3 -> <<0,0,q,0>>
               [] OTHER         -> <<0,0,0,q>>
        ELSE SqrtSearch(n,q-1)
RSqrtInt(n) == CASE n = 0 -> RZero          [] n = 1 -> ROne            [] n = 2 -> <<0,1,0,0>>     [] n = 3 -> <<0,0,1,0>>
                 [] n = 4 -> <<2,0,0,0>>    [] n = 6 -> <<0,0,0,1>>     [] n = 8 -> <<0,2,0,0>>     [] n = 9 -> <<3,0,0,0>>
                 [] n = 12 -> <<0,0,2,0>>   [] n = 16 -> <<4,0,0,0>>    [] n = 24 -> <<0,0,0,2>>    [] n = 36 -> <<6,0,0,0>>
                 [] OTHER -> SqrtSearch(n, IF n < 2000 THEN 45 ELSE 150)

---------------------------------- (* complexes *) ----------------------------------
CZero == <<RZero,RZero>>
COne  == <<ROne,RZero>>
CI    == <<RZero,ROne>>
CReal(r) == <<r,RZero>>
CInt(n) == <<RInt(n),RZero>>
CAdd(x,y) == <<RAdd(x[1],y[1]), RAdd(x[2],y[2])>>
CSub(x,y) == <<RSub(x[1],y[1]), RSub(x[2],y[2])>>
CNeg(x) == <<RNeg(x[1]),RNeg(x[2])>>
CConj(x) == <<x[1],RNeg(x[2])>>
CMul(x,y) == <<RSub(RMul(x[1],y[1]),RMul(x[2],y[2])), RAdd(RMul(x[1],y[2]),RMul(x[2],y[1]))>>
CScale(r,x) == <<RMul(r,x[1]),RMul(r,x[2])>>
CAbs2(x) == RAdd(RMul(x[1],x[1]),RMul(x[2],x[2]))
RECURSIVE CPow(_,_)
CPow(x,n) == IF n = 0 THEN COne ELSE CMul(x,CPow(x,n-1))
CSize(x) == Max2(RSize(x[1]),RSize(x[2]))
CW(x) == RW(x[1]) + RW(x[2])

--------------------------- (* removing common factors *) ---------------------------
RGcd(x) == Gcd(Gcd(x[1],x[2]),Gcd(x[3],x[4]))
RDivInt(x,g) == <<x[1] \div g, x[2] \div g, x[3] \div g, x[4] \div g>>
CDivInt(x,g) == <<RDivInt(x[1],g),RDivInt(x[2],g)>>
CGcd(x) == Gcd(RGcd(x[1]),RGcd(x[2]))
SqrtTwo == <<0,1,0,0>>
SqrtThree == <<0,0,1,0>>
(* x/Sqrt(2) = x*Sqrt(2)/2, x/Sqrt(3) = x*Sqrt(3)/3                                 *)
RDivisibleRt(x,rt,k) == RGcd(RMul(rt,x)) % k = 0
CDivisibleRt(x,rt,k) == RDivisibleRt(x[1],rt,k) /\ RDivisibleRt(x[2],rt,k)
CDivRt(x,rt,k) == CDivInt(CScale(rt,x),k)
RDivRt(x,rt,k) == RDivInt(RMul(rt,x),k)

------------------------------ (* angles in 15 degrees *) ------------------------------
(* 4*cos(k*15 degrees)                                                              *)
Cos4(k) == LET m == k % 24 IN
           CASE m = 0 -> <<4,0,0,0>>
             [] m \in {1,23} -> <<0,1,0,1>>
             [] m \in {2,22} -> <<0,0,2,0>>
             [] m \in {3,21} -> <<0,2,0,0>>
             [] m \in {4,20} -> <<2,0,0,0>>
             [] m \in {5,19} -> <<0,-1,0,1>>
             [] m \in {6,18} -> RZero
             [] m \in {7,17} -> <<0,1,0,-1>>
             [] m \in {8,16} -> <<-2,0,0,0>>
             [] m \in {9,15} -> <<0,-2,0,0>>
             [] m \in {10,14} -> <<0,0,-2,0>>
             [] m \in {11,13} -> <<0,-1,0,-1>>
             [] OTHER -> <<-4,0,0,0>>
Sin4(k) == Cos4(k - 6)
Expi4(k) == <<Cos4(k),Sin4(k)>>
=================================================================================
