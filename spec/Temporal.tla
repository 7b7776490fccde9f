-------------------------------- MODULE Temporal --------------------------------
(* Photons as wave packets: time delays, pulse widths and measurements on partly     *)
(* overlapping photons.                                                              *)
(*                                                                                   *)
(* A case (read from the file named by the environment variable SCN) is a circuit    *)
(* [L, NO, NC, left, states, nodes]. Its collection of states is a sequence of groups *)
(*   init  label of the initial state the group descends from                        *)
(*   par   position of the group it descends from, before the last node              *)
(*   c     classical values                                                          *)
(*   m     measurement records [c, a, b]: the probability of the record is the total  *)
(*         of the vector after the measurement (a) divided by that before (b)        *)
(*   w     weight of the group in the mixture, <<num,den>>                           *)
(*   pk    sequence of packets <<moment,width>>; the overlap of two packets is        *)
(*         2^-(d^2/(w1^2+w2^2)) for packets d apart in time                           *)
(*   v     vector (see Fock) over occupations of (packet, channel): position          *)
(*         (p-1)*NO+c is packet p in channel c. Packets are not orthogonal, so the     *)
(*         probability of the group is not the norm of v but Total(v,pk) (below)      *)
(* res: the states have photon resolution (a delay or pulse width was applied)        *)
(* A node for which nothing is specified ends the case.                              *)
EXTENDS Photonics, IOUtils

Cases == JsonDeserialize(IOEnv.SCN)
OutDir == IOEnv.OUTDIR

VARIABLES cs, pc, col, res, upto
vars == <<cs, pc, col, res, upto>>

Cse == Cases[cs]

------------------------------- (* packets *) -------------------------------
(* overlap is 2^-(k/2); NoOv: none at all (k >= 40), -1: not representable            *)
NoOv == 99
OvK(p,q) == LET d == p[1] - q[1]
                s == p[2]*p[2] + q[2]*q[2]
            IN  IF d = 0 THEN 0
                ELSE IF (2*d*d) \div s >= 40 THEN NoOv
                ELSE IF (2*d*d) % s = 0 /\ (2*d*d) \div s <= 16 THEN (2*d*d) \div s ELSE -1
PacketsOk(pk) == /\ \A p,q \in 1..Len(pk) : OvK(pk[p],pk[q]) # -1
                 /\ Len(pk) <= 2 \/ \A p,q \in 1..Len(pk) : pk[p][2] = pk[q][2]
                 /\ Len(pk) <= 6
(* even exponent by which all overlaps are scaled up                                 *)
EScale(pk) == LET ks == {OvK(pk[p],pk[q]) : p,q \in 1..Len(pk)} \ {NoOv}
                  k == CHOOSE x \in ks : \A y \in ks : y <= x
              IN  k + (k % 2)
Scaled(k,E) == IF k = NoOv THEN RZero ELSE RPow(SqrtTwo, E - k)

------------------------------- (* occupations *) -------------------------------
Occ(S,p,c,NO) == S[(p-1)*NO + c]
Pks(S,NO) == 1..(Len(S) \div NO)
Row(S,c,NO) == [p \in Pks(S,NO) |-> Occ(S,p,c,NO)]
Counts(S,NO) == [c \in 1..NO |-> Sum(Row(S,c,NO))]
(* rows of tables: how r photons in one packet are matched with photons in the others *)
Fill(r,s) == {t \in [DOMAIN s -> 0..r] : Sum(t) = r /\ \A q \in DOMAIN s : t[q] <= s[q]}
RECURSIVE Multi(_,_)
Multi(n,t) == IF t = <<>> THEN 1 ELSE Binom(n,Head(t)) * Multi(n - Head(t), Tail(t))
(* inner product in one channel of the occupations r and s of the packets, times      *)
(* Sqrt(2)^(E*photons): sum over tables with rows r and columns s                     *)
RECURSIVE Tables(_,_,_,_,_,_,_)
Tables(p,r,s,W,G,ov,E) ==
  IF p > Len(r) THEN (IF W = 1 THEN G ELSE RMul(RSqrtInt(W),G))
  ELSE FoldSet(LAMBDA t,acc :
         LET g == FoldLeft(LAMBDA a,q : RMul(a,RPow(Scaled(ov[p][q],E),t[q])), G, [q \in 1..Len(t) |-> q])
             w == FoldLeft(LAMBDA a,q : a * Binom(s[q],t[q]), W * Multi(r[p],t), [q \in 1..Len(t) |-> q])
         IN  IF g = RZero THEN acc ELSE RAdd(acc, Tables(p+1,r,[q \in DOMAIN s |-> s[q]-t[q]],w,g,ov,E)),
       RZero, Fill(r[p],s))
Inner(S,T,NO,ov,E) == FoldLeft(LAMBDA a,c : IF a = RZero THEN a ELSE RMul(a,Tables(1,Row(S,c,NO),Row(T,c,NO),1,ROne,ov,E)),
                               ROne, [c \in 1..NO |-> c])
MaxPhotons(v) == LET ns == Photons(v.f) IN CHOOSE n \in ns : \A m \in ns : m <= n

(* <<X, D>>: the probability of finding the photons somewhere is X/D                  *)
NoTotal == <<RZero,RZero>>
FWeight1(f) == FoldSet(LAMBDA n, acc : SatAdd(CW(f[n]),acc), 0, DOMAIN f)
TotalFits(v,pk) == LET E == EScale(pk)
                       n == MaxPhotons(v)
                       b == SatMul(SatMul(FWeight1(v.f),FWeight1(v.f)), SatMul(6*Fact(n),SatPow(2,(E \div 2)*n)))
                   IN  E*n <= 48 /\ b < Cap /\ SatMul(RW(v.N),SatPow(2,(E \div 2)*n)) < Cap
Denominator(v,pk) == RMul(v.N, RInt(IPow(2,(EScale(pk) \div 2)*MaxPhotons(v))))
(* numerator for the components in keep, D as for all of v                            *)
Numerator(v,pk,keep,NO) ==
  LET E == EScale(pk)
      n == MaxPhotons(v)
      ov == TLCEval([p \in 1..Len(pk) |-> [q \in 1..Len(pk) |-> OvK(pk[p],pk[q])]])
      cnt == TLCEval([S \in keep |-> Counts(S,NO)])
      X == FoldSet(LAMBDA S,a : FoldSet(LAMBDA T,b : IF cnt[S] # cnt[T] THEN b
                     ELSE CAdd(b, CScale(RMul(Inner(S,T,NO,ov,E),RPow(SqrtTwo,E*(n-Sum(S)))), CMul(v.f[S],CConj(v.f[T])))),
                   a, keep), CZero, keep)
  IN  X
Total(v,pk,NO) == <<Numerator(v,pk,DOMAIN v.f,NO)[1], Denominator(v,pk)>>

----------------------------- (* delays and widths *) -----------------------------
(* photons in packet p and channel c move to packet Op(p,c)                           *)
Populated(v,p,c,NO) == \E S \in DOMAIN v.f : Occ(S,p,c,NO) > 0
Isometry(v,pk,NO,Op(_,_)) ==
  \A c \in 1..NO : \A p,q \in 1..Len(pk) :
     (Populated(v,p,c,NO) /\ Populated(v,q,c,NO)) => OvK(pk[p],pk[q]) = OvK(Op(pk[p],c),Op(pk[q],c))
Repack(g,NO,Op(_,_)) ==
  LET new == {Op(g.pk[p],c) : <<p,c>> \in {x \in (1..Len(g.pk)) \X (1..NO) : Populated(g.v,x[1],x[2],NO)}}
      pk == IF new = {} THEN << <<0,1>> >> ELSE SetToSeq(new)
      \* occupation after the move and the square of the factor for packets that merge
      Move(S) == [i \in 1..(Len(pk)*NO) |->
                    LET p2 == 1 + (i-1) \div NO
                        c == 1 + ((i-1) % NO)
                    IN  Sum([p \in 1..Len(g.pk) |-> IF Op(g.pk[p],c) = pk[p2] THEN Occ(S,p,c,NO) ELSE 0])]
      Fac(S) == FoldSet(LAMBDA i,a : LET p2 == 1 + (i-1) \div NO
                                         c == 1 + ((i-1) % NO)
                                         t == [p \in 1..Len(g.pk) |-> IF Op(g.pk[p],c) = pk[p2] THEN Occ(S,p,c,NO) ELSE 0]
                                     IN  a * Multi(Sum(t),t), 1, 1..(Len(pk)*NO))
      f == TLCEval(DropZeros(FoldSet(LAMBDA S,acc : AddTo(acc,Move(S),CScale(RSqrtInt(Fac(S)),g.v.f[S])), << >>, DOMAIN g.v.f)))
      fits == (\A S \in DOMAIN g.v.f : RSqrtInt(Fac(S)) # <<>>) /\ DOMAIN f # {}
  IN  [g EXCEPT !.pk = pk, !.v = IF fits THEN [@ EXCEPT !.f = f] ELSE NoVec]

In(c,chs) == \E i \in 1..Len(chs) : chs[i] = c - 1
RepackOk(g,NO,Op(_,_)) ==
  IF ~g.v.ok \/ ~Isometry(g.v,g.pk,NO,Op) THEN [g EXCEPT !.v = NoVec]
  ELSE LET h == Repack(g,NO,Op) IN IF h.v.ok /\ PacketsOk(h.pk) THEN h ELSE [g EXCEPT !.v = NoVec]
Delay(g,NO,chs,d,w) == RepackOk(g,NO,LAMBDA p,c : << IF In(c,chs) THEN p[1] - d ELSE p[1], w >>)
SetWidth(g,NO,chs,w) == RepackOk(g,NO,LAMBDA p,c : << p[1], IF In(c,chs) THEN w ELSE p[2] >>)

(* quick delay: a mixture of no delay at all and of no overlap at all                *)
QuickK(d,w) == IF d = 0 THEN 0 ELSE IF (2*d*d) \div (w*w) >= 40 THEN NoOv
               ELSE IF (2*d*d) % (w*w) = 0 /\ (2*d*d) \div (w*w) <= 16 THEN (2*d*d) \div (w*w) ELSE -1
WMul(w,n,d) == <<RMul(w[1],n), RMul(w[2],RInt(d))>>
Quick(g,NO,chs,d,w) ==
  LET k == QuickK(d,w)
      E == IF k = NoOv THEN 0 ELSE k + (k % 2)
      o == IF k = NoOv THEN RZero ELSE RPow(SqrtTwo,E-k)
      D == IPow(2,E \div 2)
      both == [g EXCEPT !.w = WMul(g.w,o,D)]
      apart == Repack([g EXCEPT !.w = WMul(g.w,RSub(RInt(D),o),D)], NO,
                      LAMBDA p,c : << IF In(c,chs) THEN 100 ELSE -100, 1 >>)
  IN  IF k = -1 \/ SatMul(RW(g.w[2]),D*4) >= 30000 THEN << [g EXCEPT !.v = NoVec] >>
      ELSE (IF o = RZero THEN <<>> ELSE << both >>) \o (IF RSub(RInt(D),o) = RZero THEN <<>> ELSE << apart >>)

------------------------------- (* nodes *) -------------------------------
(* all photons of a component fit in the Fock state                                  *)
Fits(g,L) == g.v.ok /\ \A S \in DOMAIN g.v.f : Sum(S) < L
OnPackets(g,gate,NO,L) ==
  LET v == FoldLeft(LAMBDA acc,p : TLCEval(ApplyGate(acc,gate.g,(p-1)*NO+gate.a,(p-1)*NO+gate.b,L)), g.v, [p \in 1..Len(g.pk) |-> p])
  IN  [g EXCEPT !.v = v]
OnGates(g,gates,NO,L) == FoldLeft(LAMBDA acc,i : OnPackets(acc,gates[i],NO,L), g, [i \in 1..Len(gates) |-> i])

(* proj: photon numbers per channel that the detectors look for, others are lost      *)
Projected(n,isres) == isres /\ "proj" \in DOMAIN n
MeasureGroup(g,n,NO,isres) ==
  LET oc == n.oc
      cc == n.cc
      seen == {S \in DOMAIN g.v.f : Projected(n,isres) => \E i \in 1..Len(n.proj) : n.proj[i] = Counts(S,NO)}
      cnt == TLCEval([S \in seen |-> Outcome(Counts(S,NO),oc)])
      outs == SetToSeq({cnt[S] : S \in seen})
      b == TLCEval(Total(g.v,g.pk,NO))
      One(o) == LET keep == {S \in seen : cnt[S] = o}
                    x == TLCEval(Numerator(g.v,g.pk,keep,NO)[1])
                    c2 == SetChannels(g.c, [i \in 1..Len(o) |-> <<"n",o[i]>>], cc)
                IN  [g EXCEPT !.v = [@ EXCEPT !.f = TLCEval([S \in keep |-> g.v.f[S]])], !.c = c2,
                              !.m = Append(@, [c |-> c2, a |-> <<x,b[2]>>, b |-> b])]
      all == TLCEval([i \in 1..Len(outs) |-> One(outs[i])])
  IN  IF ~TotalFits(g.v,g.pk) THEN << [g EXCEPT !.v = NoVec] >>
      ELSE SelectSeq(all, LAMBDA h : h.m[Len(h.m)].a[1] # RZero)

NumVal(x) == x[1] = "n" \/ x[2] = 0
Num(x) == IF x[1] = "n" THEN x[2] ELSE 0
KnownAng(x) == x[1] = "a" \/ (x[1] = "n" /\ x[2] = 0)
Ang(x) == IF x[1] = "a" THEN x[2] ELSE 0

Bad1(g) == << [g EXCEPT !.v = NoVec] >>
Resolves(n) == n.k \in {"delay","cdelay","qdelay","cqdelay","width"} /\ ~(n.k = "width" /\ n.chs = <<>>)
(* groups that follow from group g                                                   *)
Follow(q,g,n,isres) ==
  CASE ~Fits(g,q.L) -> Bad1(g)
    [] IsOptical(n) -> << OnGates(g,TLCEval(OpticalGates(n)),q.NO,q.L) >>
    [] n.k = "cphase" -> IF ~KnownAng(g.c[n.cp+1]) \/ Ang(g.c[n.cp+1]) % 2 # 0 THEN Bad1(g)
                         ELSE << OnPackets(g,Gate(Partner(n.a),n.a,WavePlate(0,Ang(g.c[n.cp+1]) \div 2)),q.NO,q.L) >>
    [] n.k = "set"    -> << [g EXCEPT !.c = SetChannels(@,n.vals,n.ch)] >>
    [] n.k = "cfun"   -> << [g EXCEPT !.c = ClassFun(n.f,@,n.ch,n.par)] >>
    [] n.k = "meas"   -> MeasureGroup(g,n,q.NO,isres)
    [] n.k = "delay"  -> << Delay(g,q.NO,n.chs,n.d,n.w) >>
    [] n.k = "cdelay" -> IF ~NumVal(g.c[n.cc+1]) THEN Bad1(g) ELSE << Delay(g,q.NO,n.chs,Num(g.c[n.cc+1]),n.w) >>
    [] n.k = "width"  -> IF n.chs = <<>> THEN << g >> ELSE << SetWidth(g,q.NO,n.chs,n.w) >>
    [] n.k = "qdelay" -> IF isres THEN Bad1(g) ELSE Quick(g,q.NO,n.chs,n.d,n.w)
    [] n.k = "cqdelay" -> IF isres \/ ~NumVal(g.c[n.cc+1]) THEN Bad1(g) ELSE Quick(g,q.NO,n.chs,Num(g.c[n.cc+1]),n.w)
    [] OTHER -> Bad1(g)

Start(q) == [i \in 1..Len(q.states) |->
               LET s == q.states[i] IN
               [init |-> s.init, par |-> 0, c |-> s.c, m |-> << >>, w |-> <<RInt(s.p[1]),RInt(s.p[2])>>, pk |-> << <<0,1>> >>,
                v |-> LET f == FoldLeft(LAMBDA acc,k : AddTo(acc,s.f[k][1],s.f[k][2]), << >>, [k \in 1..Len(s.f) |-> k])
                      IN  Unit(f)]]

Init == /\ cs \in 1..Len(Cases) /\ pc = 1 /\ res = FALSE /\ upto = -1
        /\ col = Start(Cases[cs])

Next1(n) == TLCEval(Flat([i \in 1..Len(col) |-> LET r == TLCEval(Follow(Cse,col[i],n,res)) IN [j \in 1..Len(r) |-> [r[j] EXCEPT !.par = i]]]))
Step == /\ upto = -1 /\ pc <= Len(Cse.nodes)
        /\ LET n == Cse.nodes[pc]
               nxt == Next1(n)
               ok == Len(nxt) > 0 /\ Len(nxt) <= 60 /\ \A j \in 1..Len(nxt) : nxt[j].v.ok /\ TotalFits(nxt[j].v,nxt[j].pk)
           IN  IF ok THEN col' = nxt /\ pc' = pc + 1 /\ res' = (res \/ Resolves(n)) /\ UNCHANGED <<cs,upto>>
               ELSE upto' = pc - 1 /\ UNCHANGED <<cs,pc,col,res>>
Finish == upto = -1 /\ pc = Len(Cse.nodes) + 1 /\ upto' = pc - 1 /\ UNCHANGED <<cs,pc,col,res>>
GroupJson(g) == [init |-> g.init, c |-> g.c, m |-> g.m, p |-> <<g.w, Total(g.v,g.pk,Cse.NO)>>]
Write == /\ upto >= 0 /\ upto < 1000
         /\ JsonSerialize(OutDir \o "/" \o ToString(cs) \o ".json", [upto |-> upto, res |-> res, groups |-> [i \in 1..Len(col) |-> GroupJson(col[i])]])
         /\ upto' = 1000 + upto /\ UNCHANGED <<cs,pc,col,res>>
Next == Step \/ Finish \/ Write
Spec == Init /\ [][Next]_vars

--------------------------- (* what the model guarantees *) ---------------------------
(* sum of fractions, <<>> when the numbers get too large                              *)
FAdd(a,b) == IF a = <<>> \/ b = <<>> THEN <<>>
             ELSE IF a[2] = b[2] THEN <<RAdd(a[1],b[1]),a[2]>>
             ELSE IF SatMul(SatMul(RW(a[2]),RW(b[2])),9) >= Cap \/ SatMul(RW(a[1]),RW(b[2])) >= Cap \div 9 \/ SatMul(RW(b[1]),RW(a[2])) >= Cap \div 9 THEN <<>>
             ELSE <<RAdd(RMul(a[1],b[2]),RMul(b[1],a[2])), RMul(a[2],b[2])>>
FMul(a,b) == IF a = <<>> \/ b = <<>> \/ SatMul(RW(a[1]),RW(b[1])) >= Cap \div 9 \/ SatMul(RW(a[2]),RW(b[2])) >= Cap \div 9 THEN <<>>
             ELSE <<RMul(a[1],b[1]),RMul(a[2],b[2])>>
FSame(a,b) == a = <<>> \/ b = <<>> \/ SatMul(RW(a[1]),RW(b[2])) >= Cap \div 9 \/ SatMul(RW(b[1]),RW(a[2])) >= Cap \div 9
              \/ RMul(a[1],b[2]) = RMul(b[1],a[2])
Prob(g) == FMul(g.w, Total(g.v,g.pk,Cse.NO))
(* no node creates or destroys probability                                            *)
Conserved == (pc' = pc + 1 /\ ~Projected(Cse.nodes[pc],res)) =>
   \A i \in 1..Len(col) :
      LET kids == SelectSeq(col', LAMBDA g : g.par = i)
      IN  FSame(Prob(col[i]), FoldLeft(LAMBDA acc,k : FAdd(acc,Prob(kids[k])), <<RZero,ROne>>, [k \in 1..Len(kids) |-> k]))
(* a delay or a pulse width cannot be seen without interference afterwards             *)
CountsOf(g) == {Counts(S,Cse.NO) : S \in DOMAIN g.v.f}
CountProb(g,o) == FMul(g.w, <<Numerator(g.v,g.pk,{S \in DOMAIN g.v.f : Counts(S,Cse.NO) = o},Cse.NO)[1], Denominator(g.v,g.pk)>>)
Unseen == (pc' = pc + 1 /\ Resolves(Cse.nodes[pc])) =>
   \A i \in 1..Len(col) :
      LET kids == SelectSeq(col', LAMBDA g : g.par = i)
      IN  \A o \in CountsOf(col[i]) \cup UNION {CountsOf(kids[k]) : k \in 1..Len(kids)} :
             FSame(CountProb(col[i],o), FoldLeft(LAMBDA acc,k : FAdd(acc,CountProb(kids[k],o)), <<RZero,ROne>>, [k \in 1..Len(kids) |-> k]))
(* probabilities are real and not negative; without spread in time they are Born's     *)
Proper == \A i \in 1..Len(col) :
             LET g == col[i]
                 x == Numerator(g.v,g.pk,DOMAIN g.v.f,Cse.NO)
             IN  (g.v.ok /\ TotalFits(g.v,g.pk)) => /\ x[2] = RZero /\ ~RNegative(x[1])
                                                    /\ (Len(g.pk) = 1 => FSame(<<x[1],Denominator(g.v,g.pk)>>, <<Norm2(g.v.f),g.v.N>>))
(* records: earlier ones stay, a measurement adds one                                  *)
Recorded == pc' = pc + 1 =>
   \A j \in 1..Len(col') : LET old == col[col'[j].par].m
                               new == col'[j].m
                           IN  /\ SubSeq(new,1,Len(old)) = old
                               /\ Len(new) = Len(old) + (IF Cse.nodes[pc].k = "meas" THEN 1 ELSE 0)
Steps == [][Conserved /\ Unseen /\ Recorded]_vars
=================================================================================
