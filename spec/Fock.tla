---------------------------------- MODULE Fock ----------------------------------
(* Pure state vectors in Fock space and what optical elements do to them.          *)
(*                                                                                 *)
(* A vector is a record [f, N, ok]:                                                *)
(*   f   function from tuples of photon numbers to complex ring elements (no       *)
(*       zero values in its range); channel c (0, 1, ...) is position c+1          *)
(*   N   real ring element; the amplitude of n is f[n] / Sqrt(N)                   *)
(*   ok  FALSE when the exact arithmetic gave up (numbers too large, roots outside *)
(*       the ring, a threshold decision too close to call)                         *)
EXTENDS Ring, Json

MaxWeight == 6000       \* largest weight tolerated in a component
MaxNorm == 100000000    \* largest weight tolerated in a norm

NoVec == [f |-> <<>>, N |-> ROne, ok |-> FALSE]

Norm2(f) == FoldSet(LAMBDA n, acc : RAdd(CAbs2(f[n]), acc), RZero, DOMAIN f)

Sum(n) == FoldLeft(LAMBDA a,b : a+b, 0, n)
Photons(f) == {Sum(n) : n \in DOMAIN f}

DropZeros(f) == LET keep == {n \in DOMAIN f : f[n] # CZero}
                IN  TLCEval([n \in keep |-> f[n]])

AddTo(f,n,c) == IF c = CZero THEN f
                ELSE IF n \in DOMAIN f THEN [f EXCEPT ![n] = CAdd(@,c)] ELSE (n :> c) @@ f

(* Divide out factors common to all components. N is divided by the square, which  *)
(* must be exact.                                                                  *)
RECURSIVE StripRt(_,_,_,_)
StripRt(f,N,rt,k) ==
   IF DOMAIN f # {} /\ (\A n \in DOMAIN f : CDivisibleRt(f[n],rt,k)) /\ RGcd(N) % k = 0
   THEN StripRt(TLCEval([n \in DOMAIN f |-> CDivRt(f[n],rt,k)]), RDivInt(N,k), rt, k)
   ELSE [f |-> f, N |-> N]
StripInt(f,N) ==
   LET g == FoldSet(LAMBDA n, acc : Gcd(CGcd(f[n]),acc), 0, DOMAIN f)
       h == IF g = 0 THEN 1 ELSE g
   IN  IF h = 1 THEN [f |-> f, N |-> N]
       ELSE IF RGcd(N) % (h*h) = 0
            THEN [f |-> TLCEval([n \in DOMAIN f |-> CDivInt(f[n],h)]), N |-> RDivInt(N,h*h)]
            ELSE [f |-> f, N |-> N]
Strip(f,N) == LET a == StripInt(f,N)
                  b == StripRt(a.f,a.N,SqrtTwo,2)
              IN  StripRt(b.f,b.N,SqrtThree,3)

FWeight(f) == FoldSet(LAMBDA n, acc : Max2(CW(f[n]),acc), 0, DOMAIN f)
FWeight2(f) == FoldSet(LAMBDA n, acc : SatAdd(SatMul(CW(f[n]),CW(f[n])),acc), 0, DOMAIN f)

(* normalised vector from unnormalised components                                   *)
StripF(f) == LET g == FoldSet(LAMBDA n, acc : Gcd(CGcd(f[n]),acc), 0, DOMAIN f)
                 a == IF g <= 1 THEN f ELSE TLCEval([n \in DOMAIN f |-> CDivInt(f[n],g)])
                 r2 == DOMAIN a # {} /\ \A n \in DOMAIN a : CDivisibleRt(a[n],SqrtTwo,2)
                 b == IF r2 THEN TLCEval([n \in DOMAIN a |-> CDivRt(a[n],SqrtTwo,2)]) ELSE a
                 r3 == DOMAIN b # {} /\ \A n \in DOMAIN b : CDivisibleRt(b[n],SqrtThree,3)
             IN  IF r3 THEN TLCEval([n \in DOMAIN b |-> CDivRt(b[n],SqrtThree,3)]) ELSE b
Small(f) == FWeight(f) <= MaxWeight /\ FWeight2(f) <= MaxNorm
Unit(f0) == LET f == StripF(DropZeros(f0)) IN
            IF DOMAIN f = {} \/ ~Small(f) THEN NoVec
            ELSE LET N == Norm2(f) IN [f |-> f, N |-> N, ok |-> RPositive(N)]
Vec(f0,N0) == LET w == Strip(DropZeros(f0),N0) IN
              IF DOMAIN w.f = {} \/ ~Small(w.f) \/ RW(w.N) > MaxNorm \/ ~RPositive(w.N) THEN NoVec
              ELSE [f |-> w.f, N |-> w.N, ok |-> TRUE]

Basis(n) == [f |-> (n :> COne), N |-> ROne, ok |-> TRUE]
IsUnit(v) == Norm2(v.f) = v.N

--------------------------------- (* gates *) ---------------------------------
(* [m, s]: photons in the first channel end up in the first (second) channel with  *)
(* amplitude m[1][1]/s (m[1][2]/s), those in the second with m[2][1]/s, m[2][2]/s. *)
StripGate(g) ==
   LET h == Gcd(Gcd(Gcd(CGcd(g.m[1][1]),CGcd(g.m[1][2])),Gcd(CGcd(g.m[2][1]),CGcd(g.m[2][2]))),RGcd(g.s))
       k == IF h = 0 THEN 1 ELSE h
       a == [m |-> [i \in 1..2 |-> [j \in 1..2 |-> CDivInt(g.m[i][j],k)]], s |-> RDivInt(g.s,k)]
       By(x,rt,q) == IF (\A i,j \in 1..2 : CDivisibleRt(x.m[i][j],rt,q)) /\ RDivisibleRt(x.s,rt,q)
                     THEN [m |-> [i \in 1..2 |-> [j \in 1..2 |-> CDivRt(x.m[i][j],rt,q)]], s |-> RDivRt(x.s,rt,q)]
                     ELSE x
       b == By(TLCEval(a),SqrtTwo,2)
   IN  TLCEval(By(TLCEval(b),SqrtThree,3))

(* Wave plate with orientation t (in units of 7.5 degrees) and retardation p (in    *)
(* units of 15 degrees): R(-t) diag(1, e^ip) R(t)                                   *)
WavePlate(t,p) ==
   LET C == Cos4(t)   \* cosine and sine of twice the orientation
       S == Sin4(t)
       E == Expi4(p)
       Up == RAdd(RInt(4),C)
       Dn == RSub(RInt(4),C)
   IN StripGate([m |-> << << CAdd(CReal(RMul(RInt(4),Up)), CScale(Dn,E)),
                             CScale(S, CSub(CInt(4),E)) >>,
                          << CScale(S, CSub(CInt(4),E)),
                             CAdd(CReal(RMul(RInt(4),Dn)), CScale(Up,E)) >> >>,
                 s |-> RInt(32)])

(* Mixing with reflected fraction a/(a+b) and transmitted fraction b/(a+b)          *)
Mixer(a,b) == StripGate([m |-> << <<CReal(RSqrtInt(a)), CReal(RSqrtInt(b))>>,
                                  <<CReal(RSqrtInt(b)), CReal(RNeg(RSqrtInt(a)))>> >>,
                         s |-> RSqrtInt(a+b)])
SwapGate == [m |-> << <<CZero,COne>>,<<COne,CZero>> >>, s |-> ROne]

IsUnitaryGate(g) ==
   LET m == g.m
       s2 == CReal(RMul(g.s,g.s))
       Dot(i,j) == CAdd(CMul(m[i][1],CConj(m[j][1])), CMul(m[i][2],CConj(m[j][2])))
   IN  Dot(1,1) = s2 /\ Dot(2,2) = s2 /\ Dot(1,2) = CZero

(* amplitude polynomial: x photons in the first and y in the second channel, u in   *)
(* the first channel afterwards                                                     *)
Poly(m,x,y,u) ==
   LET v == x + y - u
       term(j) == LET k == u - j IN
                  CScale(RInt(Binom(x,j)*Binom(y,k)),
                         CMul(CMul(CPow(m[1][1],j),CPow(m[1][2],x-j)),
                              CMul(CPow(m[2][1],k),CPow(m[2][2],y-k))))
   IN  FoldSet(LAMBDA j, acc : CAdd(term(j),acc), CZero, Max2(0,u-y)..Min2(x,u))

(* Apply gate g to channels a and b (positions) for Fock length L. Combinations     *)
(* with x+y >= L photons in the two channels pass unchanged.                        *)
GateParts(v,a,b,L) == {<<n[a],n[b]>> : n \in DOMAIN v.f}
GateDegree(parts,L) == LET ds == {p[1]+p[2] : p \in {q \in parts : q[1]+q[2] < L}}
                       IN  IF ds = {} THEN 0 ELSE CHOOSE d \in ds : \A e \in ds : e <= d
GateRootOk(parts,L) == \A p \in parts : p[1]+p[2] < L =>
                          (\A u \in 0..(p[1]+p[2]) :
                              RSqrtInt(Fact(p[1])*Fact(p[2])*Fact(u)*Fact(p[1]+p[2]-u)) # <<>>)
GateScale(g,D) == RMul(RPow(g.s,D), RInt(Fact(D)))

RawGate(v,g,a,b,L) ==
   LET parts == GateParts(v,a,b,L)
       D == GateDegree(parts,L)
       out == TLCEval([p \in parts |->
                 LET x == p[1]
                     y == p[2]
                     d == x + y
                 IN  IF d >= L THEN { <<x,y,CReal(GateScale(g,D))>> }
                     ELSE { <<u, d-u, CScale(RMul(RMul(RSqrtInt(Fact(x)*Fact(y)*Fact(u)*Fact(d-u)),
                                                       RInt(Fact(D) \div (Fact(x)*Fact(y)))),
                                                  RPow(g.s,D-d)),
                                             Poly(g.m,x,y,u))>> : u \in 0..d }])
       AddAll(n,acc) == FoldSet(LAMBDA o, ac : AddTo(ac, [n EXCEPT ![a] = o[1], ![b] = o[2]], CMul(v.f[n],o[3])),
                                acc, out[<<n[a],n[b]>>])
   IN  DropZeros(FoldSet(LAMBDA n, acc : AddAll(n,acc), << >>, DOMAIN v.f))

GateWeight(g) == Max2(Max2(CW(g.m[1][1])+CW(g.m[1][2]), CW(g.m[2][1])+CW(g.m[2][2])), RW(g.s))
RootWeight == <<1,3,11,60>>
GateBound(v,g,D) == IF D = 0 THEN FWeight(v.f)
                    ELSE SatMul(SatMul(FWeight(v.f), SatPow(GateWeight(g),D)), RootWeight[D]*(D+1))

ApplyGate(v,g,a,b,L) ==
   IF ~v.ok THEN v
   ELSE LET parts == GateParts(v,a,b,L)
            D == GateDegree(parts,L)
        IN
        IF D > 4 \/ ~GateRootOk(parts,L) \/ GateBound(v,g,D) >= Cap \div 2 THEN NoVec
        ELSE LET f == RawGate(v,g,a,b,L)
                 k == GateScale(g,D)
             IN  IF DOMAIN f = {} THEN NoVec
                 ELSE IF IsUnit(v) /\ IsUnitaryGate(g) THEN Unit(f)
                 ELSE IF SatMul(RW(v.N), SatMul(RW(k),RW(k))) >= Cap THEN NoVec
                 ELSE Vec(f, RMul(v.N,RMul(k,k)))

(* Many photons: f[n] is the coefficient of the product of creation operators (channel *)
(* k to the power n[k]) on the vacuum, up to one positive factor, so no roots of       *)
(* factorials appear. << >> stands for coefficients out of reach.                      *)
PowersGate(f,g,a,b,L) ==
   LET parts == GateParts([f |-> f],a,b,L)
       D == GateDegree(parts,L)
       big == SatMul(SatMul(FWeight(f), SatPow(GateWeight(g),D)), 2*(D+1)*(D+1)) >= Cap \div 2
       out == TLCEval([p \in parts |->
                 LET d == p[1] + p[2]
                 IN  IF d >= L THEN { <<p[1],p[2],CReal(RPow(g.s,D))>> }
                     ELSE { <<u, d-u, CScale(RPow(g.s,D-d),Poly(g.m,p[1],p[2],u))>> : u \in 0..d }])
       AddAll(n,acc) == FoldSet(LAMBDA o, ac : AddTo(ac, [n EXCEPT ![a] = o[1], ![b] = o[2]], CMul(f[n],o[3])),
                                acc, out[<<n[a],n[b]>>])
   IN  IF f = << >> \/ big THEN << >>
       ELSE StripF(DropZeros(FoldSet(LAMBDA n, acc : AddAll(n,acc), << >>, DOMAIN f)))

(* Components with probability below the threshold tn/td are dropped, without        *)
(* rescaling the others.                                                             *)
DropSmall(v,tn,td) ==
   IF ~v.ok THEN v
   ELSE LET r == TLCEval([n \in DOMAIN v.f |-> RatioTo(CAbs2(v.f[n]),v.N,tn,td)])
            keep == {n \in DOMAIN v.f : r[n] # "lt"}
        IN  IF keep = {} \/ \E n \in DOMAIN v.f : r[n] = "close" THEN NoVec
            ELSE IF keep = DOMAIN v.f THEN v
            ELSE [f |-> TLCEval([n \in keep |-> v.f[n]]), N |-> v.N, ok |-> TRUE]

(* Rename components; injective renamings keep amplitudes, others add them up        *)
MapOcc(v,Op(_)) ==
   IF ~v.ok THEN v
   ELSE LET f == DropZeros(FoldSet(LAMBDA n, acc : AddTo(acc,Op(n),v.f[n]), << >>, DOMAIN v.f))
        IN  IF DOMAIN f = {} THEN NoVec ELSE [v EXCEPT !.f = f]

(* Equal as normalised vectors                                                       *)
SameVec(v,w) ==
   /\ DOMAIN v.f = DOMAIN w.f
   /\ \A n \in DOMAIN v.f :
        LET c == CMul(v.f[n],CConj(w.f[n])) IN
        /\ c[2] = RZero /\ RPositive(c[1])
        /\ RMul(CAbs2(v.f[n]),w.N) = RMul(CAbs2(w.f[n]),v.N)
Comparable(v,w) == /\ SatMul(FWeight2(v.f), RW(w.N)) < Cap
                   /\ SatMul(FWeight2(w.f), RW(v.N)) < Cap
                   /\ SatMul(FWeight(v.f), FWeight(w.f)) < 30000
(* Surely different by more than the threshold in some component (amplitude apart    *)
(* by a square of at least 2*tn/td); components below the threshold do not occur.    *)
Different(v,w,tn,td) ==
   \/ DOMAIN v.f # DOMAIN w.f
   \/ \E n \in DOMAIN v.f :
        LET a == v.f[n]
            b == w.f[n]
            c == CMul(a,CConj(b))
            pa == RMul(CAbs2(a),w.N)
            pb == RMul(CAbs2(b),v.N)
            d == RSub(pa,pb)
        IN  \/ c[1] = RZero \/ RNegative(c[1])
            \/ RatioTo(IF RPositive(d) THEN d ELSE RNeg(d), RMul(v.N,w.N), 2*tn, td) = "gt"
            \/ RatioTo(RMul(c[2],c[2]), RMul(CAbs2(a),w.N), 2*tn, td) = "gt"
Compare(v,w,tn,td) == IF ~v.ok \/ ~w.ok THEN "close"
                      ELSE IF DOMAIN v.f # DOMAIN w.f THEN "different"
                      ELSE IF ~Comparable(v,w) \/ SatMul(RW(v.N),RW(w.N)) >= Cap THEN "close"
                      ELSE IF SameVec(v,w) THEN "same"
                      ELSE IF Different(v,w,tn,td) THEN "different" ELSE "close"

VecJson(v) == [ok |-> v.ok, N |-> v.N, f |-> {<<n,v.f[n]>> : n \in DOMAIN v.f}]
=================================================================================
