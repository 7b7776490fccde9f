------------------------------ MODULE Superquantum ------------------------------
(* Photon pairs with Popescu-Rohrlich correlation.                                   *)
(*                                                                                   *)
(* A case (read from the file named by SCN) is a circuit [L, NO, NC, left, states,   *)
(* nodes]. Its collection of states is a sequence of groups                          *)
(*   init  label of the initial state the group descends from                        *)
(*   par   position of the group it descends from, before the last node              *)
(*   c     classical values                                                          *)
(*   m     measurement records [c, p, al]                                            *)
(*   p     probability without alignments: a sequence of fractions <<num,den>> of    *)
(*         real ring elements, to be multiplied                                      *)
(*   al    alignments <<num,den,qn,qd>>: with x = num/den the probability is to be   *)
(*         multiplied by (1 + sgn(x)*|x|^(qd/qn)) / 2                                *)
(*   bx    sequence of pairs of photons [ch, qn, qd] generated and not yet measured   *)
(*   v     vector (see Fock) over occupations of the channels followed by two        *)
(*         polarisations (0 or 1) per pair: the component of occupation S with        *)
(*         polarisations b is the amplitude of finding S when the photons started    *)
(*         as b. Every choice of polarisations has the same share of the norm.       *)
(* A node for which nothing is specified ends the case.                              *)
EXTENDS Photonics, IOUtils

Cases == JsonDeserialize(IOEnv.SCN)
OutDir == IOEnv.OUTDIR

VARIABLES cs, pc, col, upto
vars == <<cs, pc, col, upto>>

Cse == Cases[cs]
No(g) == << [g EXCEPT !.v = NoVec] >>

------------------------------- (* fractions *) -------------------------------
(* sums and products of fractions, <<>> when the numbers get too large                *)
FAdd(a,b) == IF a = <<>> \/ b = <<>> THEN <<>>
             ELSE IF a[2] = b[2] THEN <<RAdd(a[1],b[1]),a[2]>>
             ELSE IF SatMul(SatMul(RW(a[2]),RW(b[2])),9) >= Cap \/ SatMul(RW(a[1]),RW(b[2])) >= Cap \div 9 \/ SatMul(RW(b[1]),RW(a[2])) >= Cap \div 9 THEN <<>>
             ELSE <<RAdd(RMul(a[1],b[2]),RMul(b[1],a[2])), RMul(a[2],b[2])>>
FMul(a,b) == IF a = <<>> \/ b = <<>> \/ SatMul(RW(a[1]),RW(b[1])) >= Cap \div 9 \/ SatMul(RW(a[2]),RW(b[2])) >= Cap \div 9 THEN <<>>
             ELSE <<RMul(a[1],b[1]),RMul(a[2],b[2])>>
FSame(a,b) == a = <<>> \/ b = <<>> \/ SatMul(RW(a[1]),RW(b[2])) >= Cap \div 9 \/ SatMul(RW(b[1]),RW(a[2])) >= Cap \div 9
              \/ RMul(a[1],b[2]) = RMul(b[1],a[2])
FSum(s) == FoldLeft(LAMBDA acc,x : FAdd(acc,x), <<RZero,ROne>>, s)
FProd(s) == FoldLeft(LAMBDA acc,x : FMul(acc,x), <<ROne,ROne>>, s)

------------------------------ (* generating pairs *) ------------------------------
Bits(n) == [1..n -> {0,1}]
(* photons of side A: first two channels, of side B: last two; 0 is the first of them  *)
Loaded(occ,bx,b) == FoldLeft(LAMBDA acc,k : LET ch == bx[k].ch IN
                       [acc EXCEPT ![ch[1]+1] = 1 - b[2*k-1], ![ch[2]+1] = b[2*k-1],
                                   ![ch[3]+1] = 1 - b[2*k],   ![ch[4]+1] = b[2*k]], occ, [k \in 1..Len(bx) |-> k])
Chans(bx) == Flat([k \in 1..Len(bx) |-> bx[k].ch])
Generate(g,bx,NO,L) ==
  LET n == 2*Len(bx)
      f == g.v.f
      keep == TLCEval({c \in 1..NO : ~\E i \in 1..Len(Chans(bx)) : Chans(bx)[i] = c-1})
      Rest(o) == [c \in keep |-> o[c]]
      Dst == TLCEval([o \in DOMAIN f |-> [b \in Bits(n) |-> Loaded(o,bx,b) \o b]])
      new == TLCEval(UNION {{Dst[o][b] : b \in Bits(n)} : o \in DOMAIN f})
      At(s) == f[CHOOSE o \in DOMAIN f : \E b \in Bits(n) : Dst[o][b] = s]
  IN  IF ~g.v.ok \/ g.bx # <<>> \/ L < 2 THEN g.v
      ELSE IF Cardinality({Rest(o) : o \in DOMAIN f}) # Cardinality(DOMAIN f) THEN NoVec
      ELSE Vec([s \in new |-> At(s)], RMul(Norm2(f),RInt(IPow(2,n))))
ValidBoxes(bx,NO) == /\ Len(bx) \in 1..2 /\ AllChan(Chans(bx),NO) /\ Distinct(Chans(bx))
Pr(g,bx,NO,L) == IF ~ValidBoxes(bx,NO) \/ g.bx # <<>> THEN No(g)
                 ELSE LET v == Generate(g,bx,NO,L) IN IF ~v.ok THEN No(g) ELSE << [g EXCEPT !.v = v, !.bx = bx] >>

(* Nothing is specified when a component of one of the states is close to or below    *)
(* the threshold (0.0001) at which states lose components.                            *)
Clear(g) == g.v.ok /\ \A n \in DOMAIN g.v.f : RatioTo(CAbs2(g.v.f[n]),g.v.N,1,10000*IPow(4,Len(g.bx))) = "gt"

------------------------------- (* measurement *) -------------------------------
Pre(s,NO) == SubSeq(s,1,NO)
Post(s,NO) == SubSeq(s,NO+1,Len(s))
(* amplitudes of outcome o per choice of polarisations                               *)
Tensor(g,o,NO) == LET n == 2*Len(g.bx) IN
                  [b \in Bits(n) |-> IF o \o b \in DOMAIN g.v.f THEN g.v.f[o \o b] ELSE CZero]
(* does the tensor factor into a vector per photon?                                   *)
Pivot(T) == CHOOSE b \in DOMAIN T : T[b] # CZero
Factors(T,n) ==
  LET p == Pivot(T)
  IN  \A c \in DOMAIN T : \A k \in 1..n :
        CMul(T[p],T[c]) = CMul(T[[p EXCEPT ![k] = c[k]]], T[[c EXCEPT ![k] = p[k]]])
(* vector of photon k, up to a factor                                                *)
Ray(T,k) == LET p == Pivot(T) IN StripF([d \in {0,1} |-> T[[p EXCEPT ![k] = d]]])
Len2(r) == RAdd(CAbs2(r[0]),CAbs2(r[1]))
Stokes(r) == LET z == CMul(r[0],CConj(r[1])) IN <<RMul(RInt(2),z[2]), RMul(RInt(2),z[1]), RSub(CAbs2(r[0]),CAbs2(r[1]))>>
Dot3(s,t) == RAdd(RAdd(RMul(s[1],t[1]),RMul(s[2],t[2])),RMul(s[3],t[3]))
RayW(r) == CW(r[0]) + CW(r[1])
RaysFit(a,b) == SatMul(SatMul(RayW(a),RayW(a)),SatMul(RayW(b),RayW(b))) < Cap \div 12
SimpleFrac(num,den) == LET gg == Gcd(RGcd(num),RGcd(den)) IN IF gg <= 1 THEN <<num,den>> ELSE <<RDivInt(num,gg),RDivInt(den,gg)>>
Align(T,bx,k) == LET a == TLCEval(Ray(T,2*k-1))
                     b == TLCEval(Ray(T,2*k))
                     x == SimpleFrac(Dot3(Stokes(a),Stokes(b)), RMul(Len2(a),Len2(b)))
                 IN  <<x[1], x[2], bx[k].qn, bx[k].qd>>
TSum(T) == FoldSet(LAMBDA b,a : RAdd(CAbs2(T[b]),a), RZero, DOMAIN T)
Outs(g,NO) == {Pre(s,NO) : s \in DOMAIN g.v.f}
Measurable(g,NO) ==
  LET n == 2*Len(g.bx) IN
  /\ FWeight(g.v.f) <= 12000
  /\ \A o \in Outs(g,NO) : LET T == TLCEval(Tensor(g,o,NO))
                           IN  /\ Factors(T,n)
                               /\ \A k \in 1..Len(g.bx) : RaysFit(Ray(T,2*k-1),Ray(T,2*k))
MeasurePr(g,oc,cc,NO) ==
  LET n == 2*Len(g.bx)
      outs == SetToSeq(Outs(g,NO))
      One(o) == LET T == TLCEval(Tensor(g,o,NO))
                    al == TLCEval([k \in 1..Len(g.bx) |-> Align(T,g.bx,k)])
                    w == TLCEval(SimpleFrac(RMul(TSum(T),RInt(IPow(2,Len(g.bx)))), g.v.N))
                    c2 == SetChannels(g.c, [i \in 1..Len(oc) |-> <<"n",o[oc[i]+1]>>], cc)
                IN  [g EXCEPT !.p = Append(@,w), !.al = @ \o al, !.v = Basis(o), !.c = c2, !.bx = << >>,
                              !.m = Append(@, [c |-> c2, p |-> <<w>>, al |-> al])]
      all == TLCEval([i \in 1..Len(outs) |-> One(outs[i])])
      \* probability zero: not an outcome
      Never(h) == \E k \in 1..Len(h.m[Len(h.m)].al) : LET a == h.m[Len(h.m)].al[k] IN a[1] = RNeg(a[2])
  IN  IF ~Clear(g) \/ ~Measurable(g,NO) THEN No(g)
      ELSE SelectSeq(all, LAMBDA h : ~Never(h))
MeasurePlain(g,oc,cc) ==
  IF ~g.v.ok THEN No(g)
  ELSE LET outs == SetToSeq({Outcome(n,oc) : n \in DOMAIN g.v.f})
           One(o) == LET keep == {n \in DOMAIN g.v.f : Outcome(n,oc) = o}
                         f == TLCEval([n \in keep |-> g.v.f[n]])
                         w == <<Norm2(f),g.v.N>>
                         c2 == SetChannels(g.c, [i \in 1..Len(o) |-> <<"n",o[i]>>], cc)
                     IN  [g EXCEPT !.p = Append(@,w), !.v = Unit(f), !.c = c2, !.m = Append(@, [c |-> c2, p |-> <<w>>, al |-> << >>])]
       IN  TLCEval([i \in 1..Len(outs) |-> One(outs[i])])

------------------------------- (* nodes *) -------------------------------
KnownAng(x) == x[1] = "a" \/ (x[1] = "n" /\ x[2] = 0)
Ang(x) == IF x[1] = "a" THEN x[2] ELSE 0
OnVec(g,gates,L) == LET v == TLCEval(ApplyGates(g.v,gates,L))
                        h == [g EXCEPT !.v = v]
                    IN  IF Clear(h) THEN << h >> ELSE No(g)
(* groups that follow from group g                                                   *)
Follow(q,g,n) ==
  CASE ~g.v.ok \/ ~Clear(g) -> No(g)
    [] IsOptical(n) -> OnVec(g,TLCEval(OpticalGates(n)),q.L)
    [] n.k = "cphase" -> IF ~KnownAng(g.c[n.cp+1]) \/ Ang(g.c[n.cp+1]) % 2 # 0 THEN No(g)
                         ELSE OnVec(g,<< Gate(Partner(n.a),n.a,WavePlate(0,Ang(g.c[n.cp+1]) \div 2)) >>,q.L)
    [] n.k = "cwp"    -> IF ~KnownAng(g.c[n.cp+1]) \/ ~KnownAng(g.c[n.ct+1]) \/ Ang(g.c[n.cp+1]) % 2 # 0 THEN No(g)
                         ELSE OnVec(g,<< Gate(n.a,n.b,WavePlate(Ang(g.c[n.ct+1]),Ang(g.c[n.cp+1]) \div 2)) >>,q.L)
    [] n.k = "set"    -> << [g EXCEPT !.c = SetChannels(@,n.vals,n.ch)] >>
    [] n.k = "cfun"   -> << [g EXCEPT !.c = ClassFun(n.f,@,n.ch,n.par)] >>
    [] n.k = "pr"     -> Pr(g,n.bx,q.NO,q.L)
    [] n.k = "meas"   -> IF g.bx # <<>> THEN MeasurePr(g,n.oc,n.cc,q.NO) ELSE MeasurePlain(g,n.oc,n.cc)
    [] OTHER -> No(g)

Start(q) == [i \in 1..Len(q.states) |->
               LET s == q.states[i] IN
               [init |-> s.init, par |-> 0, c |-> s.c, m |-> << >>, p |-> << <<RInt(s.p[1]),RInt(s.p[2])>> >>, al |-> << >>, bx |-> << >>,
                v |-> LET f == FoldLeft(LAMBDA acc,k : AddTo(acc,s.f[k][1],s.f[k][2]), << >>, [k \in 1..Len(s.f) |-> k])
                      IN  Unit(f)]]

Init == /\ cs \in 1..Len(Cases) /\ pc = 1 /\ upto = -1
        /\ col = Start(Cases[cs])

Next1(n) == TLCEval(Flat([i \in 1..Len(col) |-> LET r == TLCEval(Follow(Cse,col[i],n)) IN [j \in 1..Len(r) |-> [r[j] EXCEPT !.par = i]]]))
(* several groups in one collection: either all of them hold pairs or none            *)
Uniform(gs) == \A i,j \in 1..Len(gs) : (gs[i].bx = <<>>) = (gs[j].bx = <<>>)
Step == /\ upto = -1 /\ pc <= Len(Cse.nodes)
        /\ LET n == Cse.nodes[pc]
               nxt == Next1(n)
               ok == Len(nxt) > 0 /\ Len(nxt) <= 100 /\ (\A j \in 1..Len(nxt) : nxt[j].v.ok) /\ Uniform(nxt)
           IN  IF ok THEN col' = nxt /\ pc' = pc + 1 /\ UNCHANGED <<cs,upto>>
               ELSE upto' = pc - 1 /\ UNCHANGED <<cs,pc,col>>
Finish == upto = -1 /\ pc = Len(Cse.nodes) + 1 /\ upto' = pc - 1 /\ UNCHANGED <<cs,pc,col>>
GroupJson(g) == [init |-> g.init, c |-> g.c, m |-> g.m, p |-> g.p, al |-> g.al, pairs |-> Len(g.bx), v |-> VecJson(g.v)]
Write == /\ upto >= 0 /\ upto < 1000
         /\ JsonSerialize(OutDir \o "/" \o ToString(cs) \o ".json", [upto |-> upto, groups |-> [i \in 1..Len(col) |-> GroupJson(col[i])]])
         /\ upto' = 1000 + upto /\ UNCHANGED <<cs,pc,col>>
Next == Step \/ Finish \/ Write
Spec == Init /\ [][Next]_vars

--------------------------- (* what the model guarantees *) ---------------------------
(* every choice of polarisations has the same share of the norm                       *)
EqualShares == \A i \in 1..Len(col) :
   LET g == col[i]
       NO == Cse.NO
       n == 2*Len(g.bx)
       share == TLCEval([b \in Bits(n) |-> FoldSet(LAMBDA s,a : IF Post(s,NO) = b THEN RAdd(a,CAbs2(g.v.f[s])) ELSE a, RZero, DOMAIN g.v.f)])
   IN  (g.v.ok /\ g.bx # <<>> /\ IsUnit(g.v)) => \A b \in Bits(n) : RMul(RInt(IPow(2,n)),share[b]) = g.v.N
(* the other vectors are normalised                                                   *)
Normalised == \A i \in 1..Len(col) : (col[i].v.ok /\ col[i].bx = <<>>) => RatioTo(Norm2(col[i].v.f),col[i].v.N,1,2) = "gt"

(* probability of one alignment for quantumness one                                    *)
AlQ(a) == <<RAdd(a[2],a[1]), RMul(RInt(2),a[2])>>
Kids(i) == SelectSeq(col', LAMBDA g : g.par = i)
LastRec(g) == g.m[Len(g.m)]
IsPrMeas(i) == pc' = pc + 1 /\ Cse.nodes[pc].k = "meas" /\ col[i].bx # <<>>
(* (outcomes that never happen do not matter)                                          *)
Conserved == \A i \in 1..Len(col) :
   (IsPrMeas(i) /\ (\A k \in 1..Len(col[i].bx) : col[i].bx[k].qn = col[i].bx[k].qd)) =>
      LET kids == Kids(i)
      IN  FSame(<<ROne,ROne>>, FSum([j \in 1..Len(kids) |-> FMul(LastRec(kids[j]).p[1], FProd([k \in 1..Len(LastRec(kids[j]).al) |-> AlQ(LastRec(kids[j]).al[k])]))]))

(* Polarisers. When the outcomes distinguish only two orthogonal polarisations of     *)
(* every photon, all combinations of polarisations are equally likely before the       *)
(* alignment, and turning one polarisation into the other turns the alignment of its   *)
(* pair into the opposite and leaves that of other pairs: whatever the quantumness,    *)
(* the outcomes of one side do not depend on what happens to the other, and the two    *)
(* outcomes of one side are equally likely.                                            *)
Parallel(r,s) == CMul(r[0],s[1]) = CMul(r[1],s[0])
Orthogonal(r,s) == CAdd(CMul(r[0],CConj(s[0])),CMul(r[1],CConj(s[1]))) = CZero
RaySmall(r) == RayW(r) < 10000
NoSignalling == \A i \in 1..Len(col) : IsPrMeas(i) =>
   LET g == col[i]
       NO == Cse.NO
       n == 2*Len(g.bx)
       outs == Outs(g,NO)
       T == TLCEval([o \in outs |-> Tensor(g,o,NO)])
       R == TLCEval([o \in outs |-> [k \in 1..n |-> Ray(T[o],k)]])
       o1 == CHOOSE o \in outs : TRUE
       proj == (\A o \in outs : \A k \in 1..n : RaySmall(R[o][k])) /\ (\A o \in outs : \A k \in 1..n : Parallel(R[o][k],R[o1][k]) \/ Orthogonal(R[o][k],R[o1][k]))
       sig == TLCEval([o \in outs |-> [k \in 1..n |-> IF Parallel(R[o][k],R[o1][k]) THEN 0 ELSE 1]])
       W(s) == FoldSet(LAMBDA o,a : IF sig[o] = s THEN RAdd(a,TSum(T[o])) ELSE a, RZero, outs)
       al == TLCEval([o \in outs |-> [k \in 1..Len(g.bx) |-> Align(T[o],g.bx,k)]])
       X(o,k) == <<al[o][k][1],al[o][k][2]>>
       Minus(x) == <<RNeg(x[1]),x[2]>>
   IN  (proj /\ IsUnit(g.v)) =>
         /\ \A s \in Bits(n) : RMul(RInt(IPow(2,n)),W(s)) = g.v.N
         /\ \A o,u \in outs : \A k \in 1..Len(g.bx) :
               FSame(X(u,k), IF (sig[o][2*k-1] = sig[u][2*k-1]) = (sig[o][2*k] = sig[u][2*k]) THEN X(o,k) ELSE Minus(X(o,k)))

(* Quantumness one: with polarisers that do not shift phases the probabilities are     *)
(* those of the entangled state (HH + VV)/Sqrt(2) of every pair.                       *)
Entangled == \A i \in 1..Len(col) :
   (IsPrMeas(i) /\ \A k \in 1..Len(col[i].bx) : col[i].bx[k].qn = col[i].bx[k].qd) =>
   LET g == col[i]
       NO == Cse.NO
       n == 2*Len(g.bx)
       N == Len(g.bx)
       outs == Outs(g,NO)
       Real(r) == CMul(r[0],CConj(r[1]))[2] = RZero
       Plain(T) == \A k \in 1..n : Real(Ray(T,k))
       Amp(T) == FoldSet(LAMBDA b,a : IF \A k \in 1..N : b[2*k-1] = b[2*k] THEN CAdd(a,T[b]) ELSE a, CZero, DOMAIN T)
   IN  \A o \in outs : LET T == TLCEval(Tensor(g,o,NO)) IN
         Plain(T) => FSame(<<CAbs2(Amp(T)),ROne>>,
                           FMul(<<TSum(T),ROne>>, FProd([k \in 1..N |-> AlQ(Align(T,g.bx,k))])))

(* records: earlier ones stay, a measurement adds one                                  *)
Recorded == pc' = pc + 1 =>
   \A j \in 1..Len(col') : LET old == col[col'[j].par].m
                               new == col'[j].m
                           IN  /\ SubSeq(new,1,Len(old)) = old
                               /\ Len(new) = Len(old) + (IF Cse.nodes[pc].k = "meas" THEN 1 ELSE 0)
(* photons: a measured pair leaves two photons, one per side when sides do not mix      *)
Counted == pc' = pc + 1 =>
   \A j \in 1..Len(col') : LET g == col[col'[j].par]
                               Ph(v,bx) == {Sum(Pre(s,Cse.NO)) : s \in DOMAIN v.f}
                           IN  Cse.nodes[pc].k # "pr" => Ph(col'[j].v,<<>>) \subseteq Ph(g.v,<<>>)
Steps == [][Conserved /\ NoSignalling /\ Entangled /\ Recorded /\ Counted]_vars
=================================================================================
