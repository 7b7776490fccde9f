------------------------------- MODULE Photonics -------------------------------
(* Meaning of circuits, states and collections of states as values (no references). *)
(*                                                                                 *)
(* circuit    [L, NO, NC, left, tn, td, full, nodes]                               *)
(*            L length of Fock state, NO/NC optical/classical channels, left: is   *)
(*            channel 0 left in names, tn/td threshold below which probabilities   *)
(*            are set to zero, nodes: sequence of node records (field k is kind)   *)
(* state      [init, p, v, c, m, x]                                                *)
(*            init  label: <<"s",string>> or <<"u",k>> for a fresh unknown label   *)
(*            p     probability, sum over a sequence of products of fractions      *)
(*                  <<num,den>> of real ring elements                              *)
(*            v     vector (see Fock)                                              *)
(*            c     classical values <<"n",k>> = k or <<"a",k>> = k*7.5 degrees in *)
(*                  radians                                                        *)
(*            m     measurement records [c, p], p one fraction                     *)
(*            x     auxiliary information, an integer mark (0 is absent)           *)
(* collection [L, NO, NC, left, tn, td, ord, es]                                   *)
(*            es    sequence of [id, st]; id <<"eq",s>>, <<"pre",s>> (starts with) *)
(*                  or <<"any">>. ord = FALSE: order of es carries no meaning      *)
EXTENDS Fock

MapSeq(s,Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
InChan(c,n) == c >= 0 /\ c < n
AllChan(s,n) == \A i \in 1..Len(s) : InChan(s[i],n)
Distinct(s) == \A i,j \in 1..Len(s) : i # j => s[i] # s[j]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Tuples(n,S) == [1..n -> S]

------------------------------ (* probabilities *) ------------------------------
POne == << << >> >>
PMul(p,num,den) == IF num = den THEN p ELSE [i \in 1..Len(p) |-> Append(p[i], <<num,den>>)]
(* parts per million, accurate to about 0.1 percent                                *)
FracPpm(x,f) == LET k == IF RScaleFor(f[2]) > RScaleFor(f[1]) THEN RScaleFor(f[2]) ELSE RScaleFor(f[1])
                    d == RMid(f[2],k)
                    n == RMid(f[1],k)
                    g == 1 + n \div (2000000000 \div (IF x < 1 THEN 1 ELSE x))
                IN  IF d \div g = 0 THEN 0 ELSE (x * (n \div g)) \div (d \div g)
RECURSIVE TermPpm(_,_)
TermPpm(t,x) == IF t = <<>> THEN x ELSE TermPpm(Tail(t), FracPpm(x,Head(t)))
Ppm(p) == FoldLeft(LAMBDA a,t : a + TermPpm(t,1000000), 0, p)
(* compare with the threshold                                                       *)
PRatio(p,tn,td) == LET x == Ppm(p)
                       h == (tn * 1000) \div (td \div 1000)
                   IN  IF p = <<>> THEN "lt" ELSE IF x * 5 < h * 4 - 5 THEN "lt" ELSE IF x * 5 > h * 6 + 10 THEN "gt" ELSE "close"

---------------------------------- (* nodes *) ----------------------------------
IsOptical(n) == n.k \in {"wp","hwp","hwp45","hwp225","qwp","qwp45","qwp225","phase","swap",
                         "mix50","mixg","npbs","npbs50","pbs","custopt"}
Partner(a) == IF a = 0 THEN 1 ELSE 0

(* gates of an optical node: sequence of [a, b, g]                                  *)
Gate(a,b,g) == [a |-> a+1, b |-> b+1, g |-> g]
OpticalGates(n) ==
  CASE n.k = "wp"     -> << Gate(n.a,n.b,WavePlate(n.t,n.p)) >>
    [] n.k = "hwp"    -> << Gate(n.a,n.b,WavePlate(n.t,12)) >>
    [] n.k = "hwp45"  -> << Gate(n.a,n.b,WavePlate(6,12)) >>
    [] n.k = "hwp225" -> << Gate(n.a,n.b,WavePlate(3,12)) >>
    [] n.k = "qwp"    -> << Gate(n.a,n.b,WavePlate(n.t,6)) >>
    [] n.k = "qwp45"  -> << Gate(n.a,n.b,WavePlate(6,6)) >>
    [] n.k = "qwp225" -> << Gate(n.a,n.b,WavePlate(3,6)) >>
    [] n.k = "phase"  -> << Gate(Partner(n.a),n.a,WavePlate(0,n.p)) >>
    [] n.k = "swap"   -> << Gate(n.a,n.b,SwapGate) >>
    [] n.k = "mix50"  -> << Gate(n.a,n.b,Mixer(1,1)) >>
    [] n.k = "mixg"   -> << Gate(n.a,n.b,Mixer(n.r,n.t)) >>
    [] n.k = "npbs"   -> << Gate(n.a[1],n.b[1],Mixer(n.r,n.t)), Gate(n.a[2],n.b[2],Mixer(n.r,n.t)) >>
    [] n.k = "npbs50" -> << Gate(n.a[1],n.b[1],Mixer(1,1)), Gate(n.a[2],n.b[2],Mixer(1,1)) >>
    [] n.k = "pbs"    -> << Gate(n.a[2],n.b[2],SwapGate) >>
    [] n.k = "custopt" -> << Gate(n.a,n.b,[m |-> n.m, s |-> n.s]) >>

(* May the node be added to circuit q?                                              *)
DrawOnly == {"delay","cdelay","width","pairs","boxes"}
TwoChan(a,b,NO) == InChan(a,NO) /\ InChan(b,NO) /\ a # b
FourChan(n,NO) == NO >= 4 /\ TwoChan(n.a[1],n.b[1],NO) /\ TwoChan(n.a[2],n.b[2],NO)
ValidNode(q,n) ==
  CASE n.k \in {"wp","hwp","hwp45","hwp225","qwp","qwp45","qwp225","swap","mix50","custopt","wph"} -> TwoChan(n.a,n.b,q.NO)
    [] n.k = "mixg"   -> TwoChan(n.a,n.b,q.NO) /\ ~n.bad
    [] n.k = "npbs"   -> FourChan(n,q.NO) /\ ~n.bad
    [] n.k \in {"npbs50","pbs"} -> FourChan(n,q.NO)
    [] n.k = "phase"  -> InChan(n.a,q.NO)
    [] n.k = "cphase" -> InChan(n.a,q.NO) /\ InChan(n.cp,q.NC)
    [] n.k \in {"cwp","cwph"} -> TwoChan(n.a,n.b,q.NO) /\ InChan(n.ct,q.NC) /\ InChan(n.cp,q.NC)
    [] n.k = "set"    -> Len(n.vals) = Len(n.ch) /\ AllChan(n.ch,q.NC)
    [] n.k = "meas"   -> Len(n.oc) = Len(n.cc) /\ AllChan(n.oc,q.NO) /\ AllChan(n.cc,q.NC)
    [] n.k = "shift"  -> Len(n.tg) = Len(n.sh) /\ AllChan(n.tg,q.NO) /\ \A i \in 1..Len(n.sh) : n.sh[i] >= 0
    [] n.k = "shiftd" -> Len(n.tg) = Len(n.sh) /\ AllChan(n.tg,q.NO)
    [] n.k \in {"cshift","cshiftd","coupl"} ->
          /\ Len(n.ctl) = Len(n.tg) /\ AllChan(n.ctl,q.NO) /\ AllChan(n.tg,q.NO)
          /\ \A i \in 1..Len(n.tg) : n.tg[i] # n.ctl[i]
    (* a custom optical matrix that is not 2x2, or for another number of channels        *)
    [] n.k = "custbad" -> FALSE
    [] n.k = "ham"    -> Distinct(n.chs) /\ AllChan(n.chs,q.NO)
    (* nodes of the other machines (Temporal, Superquantum): here only for drawings       *)
    [] n.k \in DrawOnly -> AllChan(n.chs,q.NO)
    [] OTHER -> TRUE

(* classical values                                                                 *)
Angle(k) == IF k = 0 THEN <<"n",0>> ELSE <<"a",k>>
SetChannels(c,vals,ch) == FoldLeft(LAMBDA acc,i : [acc EXCEPT ![ch[i]+1] = vals[i]], c, [i \in 1..Len(ch) |-> i])
AddTo1(v,k) == IF v[1] = "n" THEN <<"n",v[2]+k>> ELSE v
ClassFun(id,c,ch,par) ==
  CASE id = "add"  -> FoldLeft(LAMBDA acc,i : [acc EXCEPT ![ch[i]+1] = AddTo1(@,par[i])], c, [i \in 1..Len(ch) |-> i])
    [] id = "rev"  -> [i \in 1..Len(c) |-> c[Len(c)+1-i]]
    [] id = "copyto" -> [c EXCEPT ![ch[2]+1] = c[ch[1]+1]]
    [] id = "inplace" -> [c EXCEPT ![ch[1]+1] = <<"n",par[1]>>]
    [] id = "notlist" -> [c EXCEPT ![ch[1]+1] = IF @ = <<"n",0>> THEN <<"n",1>> ELSE <<"n",0>>]

(* measurement of one state: sequence of resulting states                           *)
Outcome(n,oc) == [i \in 1..Len(oc) |-> n[oc[i]+1]]
MeasureState(st,oc,cc) ==
  LET v == st.v
      outs == {Outcome(n,oc) : n \in DOMAIN v.f}
      One(o) == LET keep == {n \in DOMAIN v.f : Outcome(n,oc) = o}
                    f == TLCEval([n \in keep |-> v.f[n]])
                    num == Norm2(f)
                    c2 == SetChannels(st.c, [i \in 1..Len(o) |-> <<"n",o[i]>>], cc)
                IN [st EXCEPT !.p = PMul(st.p,num,v.N), !.v = Unit(f), !.c = c2,
                              !.m = Append(st.m, [c |-> c2, p |-> <<num,v.N>>])]
  IN  IF ~v.ok THEN <<st>> ELSE LET s == SetToSeq(outs) IN [i \in 1..Len(s) |-> One(s[i])]
MeasId(id) == CASE id[1] = "eq" -> <<"pre", id[2] \o "-M">> [] OTHER -> id

(* shifts                                                                           *)
ShiftOcc(n,tg,sh,L) == FoldLeft(LAMBDA acc,i : [acc EXCEPT ![tg[i]+1] = (@ + sh[i]) % L], n, [i \in 1..Len(tg) |-> i])
CShiftOcc(n,ctl,tg,L) == FoldLeft(LAMBDA acc,i : [acc EXCEPT ![tg[i]+1] = (@ + acc[ctl[i]+1]) % L], n, [i \in 1..Len(tg) |-> i])
(* one step of channel coupling with strength w/d                                   *)
CoupleStep(v,c,t,w,d,L) ==
  IF ~v.ok THEN v
  ELSE LET Rd == CReal(RSqrtInt(d))
           Rw == CReal(RSqrtInt(w))
           Rr == CReal(RSqrtInt(d-w))
           Put(n,acc) == IF n[c] % L = 0 THEN AddTo(acc,n,CMul(Rd,v.f[n]))
                         ELSE AddTo(AddTo(acc,n,CMul(Rr,v.f[n])), [n EXCEPT ![t] = (@ + n[c]) % L], CMul(Rw,v.f[n]))
           f == FoldSet(LAMBDA n,acc : Put(n,acc), << >>, DOMAIN v.f)
       IN  IF SatMul(FWeight(v.f),4*d) >= Cap \/ SatMul(RW(v.N),d) >= Cap THEN NoVec ELSE Vec(f, RMul(v.N,RInt(d)))
(* more probability than one: nothing is specified for such a vector               *)
TooBig(v) == v.ok /\ LET t == Norm2(v.f)
                         r == RatioTo(t,v.N,1,1)
                     IN  r = "gt" \/ (r = "close" /\ t # v.N /\ ~(RLo(RSub(v.N,t),1) >= 0))
Couple(v,ctl,tg,w,d,L) == LET u == FoldLeft(LAMBDA acc,i : CoupleStep(acc,ctl[i]+1,tg[i]+1,w,d,L), v, [i \in 1..Len(tg) |-> i])
                          IN  IF TooBig(u) THEN NoVec ELSE u

(* custom Fock matrix: entries <<out, in, number>>, common denominator s, all other  *)
(* entries as the identity if n.id, zero otherwise                                  *)
MatrixApply(v,ent,s,idrest) ==
  IF ~v.ok THEN v
  ELSE LET cols == {ent[i][2] : i \in 1..Len(ent)}
           f1 == FoldLeft(LAMBDA acc,i : IF ent[i][2] \in DOMAIN v.f THEN AddTo(acc,ent[i][1],CMul(ent[i][3],v.f[ent[i][2]])) ELSE acc,
                          << >>, [i \in 1..Len(ent) |-> i])
           f2 == FoldSet(LAMBDA n,acc : IF idrest /\ n \notin cols THEN AddTo(acc,n,CScale(s,v.f[n])) ELSE acc, f1, DOMAIN v.f)
           w == FoldSet(LAMBDA i,acc : Max2(acc,CW(ent[i][3])), RW(s), 1..Len(ent))
       IN  IF SatMul(FWeight(v.f), w*Len(ent)) >= Cap \/ SatMul(RW(v.N), RW(s)*RW(s)) >= Cap THEN NoVec
           ELSE LET u == Vec(f2, RMul(v.N,RMul(s,s))) IN IF TooBig(u) THEN NoVec ELSE u

------------------------------ (* reshaping collections *) ------------------------------
Poison(st) == [st EXCEPT !.v = NoVec]
WithStates(cv,es) == [cv EXCEPT !.es = es]
MapStates(cv,Op(_)) == [cv EXCEPT !.es = [i \in 1..Len(cv.es) |-> [cv.es[i] EXCEPT !.st = Op(cv.es[i].st)]]]
AnyId(cv) == [cv EXCEPT !.es = [i \in 1..Len(cv.es) |-> [cv.es[i] EXCEPT !.id = <<"any">>]]]
(* too large to follow, or holding a vector without claim                              *)
MaxStates == 200
Bad(cv) == Len(cv.es) > MaxStates \/ \E i \in 1..Len(cv.es) : ~cv.es[i].st.v.ok

(* reduce: ko, kc sequences of channels to keep (ko empty: all)                     *)
ReduceState(st,ko,kc) ==
  LET v == st.v
      rest == {c \in 1..Len(CHOOSE n \in DOMAIN v.f : TRUE) : ~\E i \in 1..Len(ko) : ko[i]+1 = c}
      Key(n) == [c \in rest |-> n[c]]
      keys == {Key(n) : n \in DOMAIN v.f}
      One(k) == LET keep == {n \in DOMAIN v.f : Key(n) = k}
                    f == TLCEval([n \in keep |-> v.f[n]])
                    num == Norm2(f)
                    g == FoldSet(LAMBDA n,acc : AddTo(acc,Outcome(n,ko),f[n]), << >>, keep)
                IN [st EXCEPT !.p = PMul(st.p,num,v.N), !.v = Unit(g), !.c = [i \in 1..Len(kc) |-> st.c[kc[i]+1]]]
  IN  IF ~v.ok THEN <<st>> ELSE LET s == SetToSeq(keys) IN [i \in 1..Len(s) |-> One(s[i])]
All(n) == [i \in 1..n |-> i-1]
Reduce(cv,ko0,kc) ==
  LET ko == IF ko0 = <<>> THEN All(cv.NO) ELSE ko0
      parts == [i \in 1..Len(cv.es) |-> ReduceState(cv.es[i].st,ko,kc)]
      RId(id,k) == IF id[1] = "eq" /\ ~(k = 1 /\ Len(ko) = cv.NO) THEN <<"pre",id[2]>> ELSE id
      es == Flat([i \in 1..Len(cv.es) |-> [j \in 1..Len(parts[i]) |-> [id |-> RId(cv.es[i].id,Len(parts[i])), st |-> parts[i][j]]]])
  IN  [cv EXCEPT !.NO = Len(ko), !.NC = Len(kc), !.es = TLCEval(es),
                 !.ord = @ /\ \A i \in 1..Len(parts) : Len(parts[i]) <= 1]
ValidReduce(cv,ko,kc) == AllChan(ko,cv.NO) /\ AllChan(kc,cv.NC) /\ (ko = <<>> \/ Len(ko) >= 2)

(* extend: eo/ec extra channels, dist weights per photon number (empty: vacuum)      *)
SumSeq(s) == FoldLeft(LAMBDA a,b : a+b, 0, s)
RECURSIVE Lex(_,_)
Lex(n,D) == IF n = 0 THEN << << >> >>
            ELSE LET r == Lex(n-1,D) IN Flat([i \in 1..Len(r) |-> [d \in 1..Len(D) |-> Append(r[i],D[d])]])
Extend(cv,eo,ec,dist0) ==
  LET dist == IF dist0 = <<>> THEN [i \in 1..cv.L |-> IF i = 1 THEN 1 ELSE 0] ELSE dist0
      W == SumSeq(dist)
      combos == Lex(eo,SelectSeq([d \in 1..cv.L |-> d-1], LAMBDA d : dist[d+1] # 0))
      One(t,e) == LET p == FoldLeft(LAMBDA acc,d : PMul(acc,RInt(dist[d+1]),RInt(W)), e.st.p, t)
                      r == PRatio(p,cv.tn,cv.td)
                      st == [e.st EXCEPT !.p = p, !.v = IF r = "close" THEN NoVec ELSE MapOcc(@,LAMBDA n : n \o t),
                                         !.c = @ \o [i \in 1..ec |-> <<"n",0>>]]
                  IN  IF r = "lt" THEN <<>> ELSE << [id |-> <<"any">>, st |-> st] >>
      es == Flat([i \in 1..Len(combos) |-> Flat([j \in 1..Len(cv.es) |-> One(combos[i],cv.es[j])])])
  IN  IF eo = 0 /\ ec = 0 THEN cv
      ELSE [cv EXCEPT !.NO = @ + eo, !.NC = @ + ec, !.es = TLCEval(es)]
ValidExtend(cv,eo,ec,dist) == eo >= 0 /\ ec >= 0 /\ (dist = <<>> \/ Len(dist) = cv.L)

(* adjust the length of the Fock state                                              *)
AdjustVec(v,L2) == LET Op(n) == [i \in DOMAIN n |-> n[i] % L2]
                   IN  IF ~v.ok THEN v
                       ELSE IF Cardinality({Op(n) : n \in DOMAIN v.f}) # Cardinality(DOMAIN v.f) THEN NoVec
                       ELSE MapOcc(v,Op)
Adjust(cv,L2) == [MapStates(cv, LAMBDA st : [st EXCEPT !.v = AdjustVec(@,L2)]) EXCEPT !.L = L2]

----------------------------------- (* clean-up *) -----------------------------------
(* drop small components; rescale to norm one when the norm is off by the threshold  *)
Rescale(v,tn,td) ==
  LET w == DropSmall(v,tn,td)
  IN  IF ~w.ok THEN w
      ELSE LET num == Norm2(w.f)
               d == RSub(w.N,num)
               r == RatioTo(IF RNegative(d) THEN RNeg(d) ELSE d, w.N, tn, td)
           IN  IF d = RZero THEN w
               ELSE IF r = "gt" THEN LET u == Unit(w.f) IN DropSmall(u,tn,td)
               ELSE IF r = "close" THEN NoVec ELSE NoVec
(* groups: sequence of sequences of positions with equal vectors                     *)
RECURSIVE GroupUp(_,_,_,_,_)
GroupUp(es,todo,groups,tn,td) ==
  IF todo = <<>> THEN [ok |-> TRUE, g |-> groups]
  ELSE LET i == Head(todo)
           cmp == [j \in 1..Len(groups) |-> Compare(es[i].st.v, es[groups[j][1]].st.v, tn, td)]
       IN  IF \E j \in 1..Len(groups) : cmp[j] = "close" THEN [ok |-> FALSE, g |-> groups]
           ELSE IF \E j \in 1..Len(groups) : cmp[j] = "same"
                THEN LET j == CHOOSE k \in 1..Len(groups) : cmp[k] = "same"
                     IN GroupUp(es,Tail(todo),[groups EXCEPT ![j] = Append(@,i)],tn,td)
                ELSE GroupUp(es,Tail(todo),Append(groups,<<i>>),tn,td)
PSum(ps) == Flat(ps)
CleanUp(cv,init) ==
  LET inits == IF init = "" THEN {cv.es[i].st.init : i \in 1..Len(cv.es)} ELSE {<<"s",init>>}
      es1 == TLCEval([i \in 1..Len(cv.es) |-> IF cv.es[i].st.init \in inits
                       THEN [cv.es[i] EXCEPT !.st.v = Rescale(@,cv.tn,cv.td)] ELSE cv.es[i]])
      Pos(l) == SelectSeq([i \in 1..Len(es1) |-> i], LAMBDA i : es1[i].st.init = l)
      gr == TLCEval([l \in inits |-> GroupUp(es1,Pos(l),<<>>,cv.tn,cv.td)])
      heads == UNION {{gr[l].g[j][1] : j \in 1..Len(gr[l].g)} : l \in inits}
      GroupOf(i) == LET l == es1[i].st.init
                        j == CHOOSE k \in 1..Len(gr[l].g) : gr[l].g[k][1] = i
                    IN  gr[l].g[j]
      NewP(i) == PSum([k \in 1..Len(GroupOf(i)) |-> es1[GroupOf(i)[k]].st.p])
      Ambiguous(i) == /\ ~cv.ord
                      /\ \E k \in 1..Len(GroupOf(i)) : \/ es1[GroupOf(i)[k]].st.c # es1[i].st.c
                                                      \/ es1[GroupOf(i)[k]].st.m # es1[i].st.m
                                                      \/ es1[GroupOf(i)[k]].st.x # es1[i].st.x
      okall == /\ \A l \in inits : gr[l].ok
               /\ \A i \in 1..Len(es1) : es1[i].st.v.ok
               /\ \A i \in heads : PRatio(NewP(i),cv.tn,cv.td) # "close" /\ ~Ambiguous(i) /\ Ppm(NewP(i)) < 1000000 + 5000
      Keep(i) == es1[i].st.init \notin inits \/ (i \in heads /\ PRatio(NewP(i),cv.tn,cv.td) = "gt")
      New(i) == IF i \in heads /\ Keep(i) THEN [es1[i] EXCEPT !.st.p = NewP(i)] ELSE es1[i]
      merged == \E i \in heads : Len(GroupOf(i)) > 1
      NewId(e) == IF merged /\ ~cv.ord THEN [e EXCEPT !.id = <<"any">>] ELSE e
      kept == SelectSeq([i \in 1..Len(es1) |-> i],Keep)
  IN  \* all: every state after rescaling and adding up, kept: positions that remain
      [ok |-> okall, all |-> TLCEval([i \in 1..Len(es1) |-> NewId(New(i))]), kept |-> kept]

---------------------------------- (* evaluation *) ----------------------------------
OpticalPrefix(nodes,ix) == LET k == CHOOSE j \in 0..Len(ix) : /\ \A i \in 1..j : IsOptical(nodes[ix[i]+1])
                                                             /\ (j = Len(ix) \/ ~IsOptical(nodes[ix[j+1]+1]))
                           IN  k
GroupGates(nodes,ix,k) == Flat([i \in 1..k |-> OpticalGates(nodes[ix[i]+1])])
AngleOf(c) == IF c[1] = "a" THEN c[2] ELSE c[2]
KnownAngle(c) == c[1] = "a" \/ c[2] = 0
ApplyGates(v,gs,L) == FoldLeft(LAMBDA acc,g : TLCEval(ApplyGate(acc,g.g,g.a,g.b,L)), v, gs)
(* gates given as Hamiltonian: exponential of angle t*15 degrees times the operator   *)
HamMatrix(h,t) ==
  CASE h = "rot" -> [m |-> << <<CReal(Cos4(t)),CNeg(CReal(Sin4(t)))>>, <<CReal(Sin4(t)),CReal(Cos4(t))>> >>, s |-> RInt(4)]
    [] h = "bs"  -> [m |-> << <<CReal(Cos4(t)),CMul(CI,CReal(Sin4(t)))>>, <<CMul(CI,CReal(Sin4(t))),CReal(Cos4(t))>> >>, s |-> RInt(4)]
    [] h = "ph0" -> [m |-> << <<Expi4(t),CZero>>, <<CZero,CInt(4)>> >>, s |-> RInt(4)]
    [] h = "ph1" -> [m |-> << <<CInt(4),CZero>>, <<CZero,Expi4(t)>> >>, s |-> RInt(4)]
(* operators that are not linear optics: phases depending on photon numbers, pairs of  *)
(* photons hopping, one photon splitting in two; where they act as a rotation between  *)
(* two occupations.  partner is the other occupation (<<>> if no claim), sign the sign *)
(* of the sine on leaving o, t the angle                                               *)
LinearHams == {"rot","bs","ph0","ph1"}
PhaseHams == {"kerr","kself","anti","both"}
HamPhase(h,x,y) == CASE h = "kerr"  -> x * y
                     [] h = "kself" -> x * (x - 1)
                     [] h = "anti"  -> x + 1
                     [] h = "both"  -> x + 2 * y
PairHop(o,a,b,c) == LET x == o[a]
                        y == o[b]
                    IN  CASE x + y <= 1 \/ (x = 1 /\ y = 1) -> <<o,0>>
                          [] x = 2 /\ y = 0 -> << [o EXCEPT ![a] = 0, ![b] = 2], -1 >>
                          [] x = 0 /\ y = 2 -> << [o EXCEPT ![a] = 2, ![b] = 0], 1 >>
                          [] OTHER -> <<>>
Split(o,a,b,c) == CASE o[c] = 0 /\ (o[a] = 0 \/ o[b] = 0) -> <<o,0>>
                    [] o[c] = 0 /\ o[a] = 1 /\ o[b] = 1 -> << [o EXCEPT ![a] = 0, ![b] = 0, ![c] = 1], -1 >>
                    [] o[c] = 1 /\ o[a] = 0 /\ o[b] = 0 -> << [o EXCEPT ![a] = 1, ![b] = 1, ![c] = 0], 1 >>
                    [] OTHER -> <<>>
Rotate(v,P(_),t) ==
  IF \E o \in DOMAIN v.f : P(o) = <<>> THEN NoVec
  ELSE LET Add(o,acc) == LET p == P(o) IN
             IF p[2] = 0 THEN AddTo(acc,o,CScale(RInt(4),v.f[o]))
             ELSE AddTo(AddTo(acc,o,CScale(Cos4(t),v.f[o])), p[1], CScale(IF p[2] = 1 THEN Sin4(t) ELSE RNeg(Sin4(t)), v.f[o]))
       IN  Vec(FoldSet(Add, << >>, DOMAIN v.f), RMul(RInt(16),v.N))
HamOne(v,n,g,L) ==
  LET a == n.chs[g.a+1] + 1
      b == n.chs[g.b+1] + 1
      c == n.chs[g.c+1] + 1
  IN IF ~v.ok THEN v
     ELSE IF \E o \in DOMAIN v.f : Sum([i \in 1..Len(n.chs) |-> o[n.chs[i]+1]]) >= L THEN NoVec
     ELSE IF FWeight(v.f) > 4000 \/ RW(v.N) > 4000000 THEN NoVec
     ELSE CASE g.h \in LinearHams -> ApplyGate(v,StripGate(HamMatrix(g.h,g.t)),a,b,L)
            [] g.h \in PhaseHams -> Vec(TLCEval([o \in DOMAIN v.f |-> CMul(v.f[o],Expi4(g.t*HamPhase(g.h,o[a],o[b])))]), RMul(RInt(16),v.N))
            [] g.h = "hop" -> Rotate(v, LAMBDA o : PairHop(o,a,b,c), 2*g.t)
            [] g.h = "split" -> Rotate(v, LAMBDA o : Split(o,a,b,c), g.t)
HamApply(v,n,L) == FoldLeft(LAMBDA acc,g : TLCEval(HamOne(acc,n,g,L)), v, n.gs)
HamNoSmall(v,n,L,tn,td) == \A o \in DOMAIN v.f : LET u == TLCEval(HamApply(Basis(o),n,L)) IN u.ok /\ DropSmall(u,tn,td) = u
(* the operators drop transition amplitudes below the threshold                       *)
NoSmall(v,gs,L,tn,td) == \A n \in DOMAIN v.f : LET u == TLCEval(ApplyGates(Basis(n),gs,L)) IN u.ok /\ DropSmall(u,tn,td) = u
Below(v,a,b,L) == \A n \in DOMAIN v.f : n[a] + n[b] < L

Default(q) == LET lex == TLCEval(Lex(q.NO,[d \in 1..q.L |-> d-1]))
                  seq == [i \in 1..Len(lex) |-> LET t == lex[i] IN [c \in 1..q.NO |-> t[q.NO+1-c]]] IN seq
(* name of a component                                                              *)
Digits == <<"0","1","2","3","4","5","6","7","8","9">>
RECURSIVE NumStr(_)
NumStr(k) == IF k < 10 THEN Digits[k+1] ELSE NumStr(k \div 10) \o Digits[(k % 10)+1]
RECURSIVE Width(_)
Width(k) == IF k < 10 THEN 1 ELSE 1 + Width(k \div 10)
RECURSIVE PadTo(_,_)
PadTo(k,w) == IF w <= Width(k) THEN NumStr(k) ELSE "0" \o PadTo(k,w-1)
NameOf(n,L,left) == LET w == Width(L-1)
                        parts == [i \in 1..Len(n) |-> PadTo(IF left THEN n[i] ELSE n[Len(n)+1-i], w)]
                    IN  FoldLeft(LAMBDA a,b : a \o b, "", parts)
NewSt(n,q) == [init |-> <<"s",NameOf(n,q.L,q.left)>>, p |-> POne, v |-> Basis(n),
               c |-> [i \in 1..q.NC |-> <<"n",0>>], m |-> << >>, x |-> 0]
EmptyColl(q) == [L |-> q.L, NO |-> q.NO, NC |-> q.NC, left |-> q.left, tn |-> q.tn, td |-> q.td, ord |-> TRUE, es |-> << >>]
DefaultColl(q) == LET d == TLCEval(Default(q))
                      w == Width(Len(d))
                  IN  [EmptyColl(q) EXCEPT !.es = [i \in 1..Len(d) |->
                          [id |-> <<"eq","identifier_" \o PadTo(i-1,w)>>, st |-> NewSt(d[i],q)]]]

(* generic functions known to the harness                                           *)
GenFun(n,cv) ==
  CASE n.f = "ident" -> cv
    [] n.f = "setc"  -> MapStates(cv, LAMBDA st : [st EXCEPT !.c = [@ EXCEPT ![n.ch[1]+1] = <<"n",n.par[1]>>]])
    [] n.f = "keepinit" -> WithStates(cv, SelectSeq(cv.es, LAMBDA e : e.st.init = <<"s",n.s>>))
    [] n.f = "half"  -> MapStates(cv, LAMBDA st : [st EXCEPT !.p = PMul(@,RInt(1),RInt(2))])

Poisoned(cv) == [cv EXCEPT !.es = << [id |-> <<"any">>, st |-> Poison(NewSt([c \in 1..cv.NO |-> 0],cv))] >>]
HugeStep(L,k) == k > 0 /\ FoldLeft(LAMBDA acc,i : IF acc > 10000 THEN acc ELSE acc * L, 1, [i \in 1..k |-> i]) > 10000
RECURSIVE EvalNodes(_,_,_,_)
EvalNodes(circs,ci,ix,cv) ==
  LET q == circs[ci] IN
  IF ix = <<>> \/ Bad(cv) THEN cv
  ELSE LET n == q.nodes[ix[1]+1]
           rest == Tail(ix)
       IN
  IF IsOptical(n) THEN
    LET k == OpticalPrefix(q.nodes,ix)
        gs == TLCEval(GroupGates(q.nodes,ix,k))
        r == MapStates(cv, LAMBDA st : [st EXCEPT !.v = TLCEval(DropSmall(ApplyGates(@,gs,cv.L),cv.tn,cv.td))])
    IN  EvalNodes(circs,ci,SubSeq(ix,k+1,Len(ix)),TLCEval(r))
  ELSE IF n.k = "bridge" THEN
    LET q2 == circs[n.next]
        c1 == IF q2.NO > q.NO THEN Extend(cv,q2.NO-q.NO,0,<<>>)
              ELSE IF q2.NO < q.NO THEN Reduce(cv,All(q2.NO),All(cv.NC)) ELSE cv
        c2 == IF q2.NC > q.NC THEN Extend(c1,0,q2.NC-q.NC,<<>>)
              ELSE IF q2.NC < q.NC THEN Reduce(c1,<<>>,All(q2.NC)) ELSE c1
        c3 == Adjust(c2,q2.L)
    IN  IF HugeStep(cv.L,q2.NO-q.NO) THEN Poisoned(cv)   \* the library tries every occupation of the new channels
        ELSE EvalNodes(circs,n.next,All(Len(q2.nodes)),TLCEval(c3))
  ELSE
    LET r == CASE
         n.k = "set" -> MapStates(cv, LAMBDA st : [st EXCEPT !.c = SetChannels(@,n.vals,n.ch)])
      [] n.k = "cfun" -> MapStates(cv, LAMBDA st : [st EXCEPT !.c = ClassFun(n.f,@,n.ch,n.par)])
      [] n.k = "meas" ->
           LET parts == TLCEval([i \in 1..Len(cv.es) |-> MeasureState(cv.es[i].st,n.oc,n.cc)])
           IN  [cv EXCEPT !.es = Flat([i \in 1..Len(cv.es) |->
                                   [j \in 1..Len(parts[i]) |-> [id |-> MeasId(cv.es[i].id), st |-> parts[i][j]]]]),
                          !.ord = @ /\ \A i \in 1..Len(parts) : Len(parts[i]) = 1]
      [] n.k = "cphase" -> MapStates(cv, LAMBDA st :
             IF ~KnownAngle(st.c[n.cp+1]) \/ AngleOf(st.c[n.cp+1]) % 2 # 0 THEN Poison(st)
             ELSE [st EXCEPT !.v = DropSmall(ApplyGate(@,WavePlate(0,AngleOf(st.c[n.cp+1]) \div 2),
                                                       Partner(n.a)+1,n.a+1,cv.L),cv.tn,cv.td)])
      [] n.k = "cwp" -> MapStates(cv, LAMBDA st :
             IF ~KnownAngle(st.c[n.cp+1]) \/ ~KnownAngle(st.c[n.ct+1]) \/ AngleOf(st.c[n.cp+1]) % 2 # 0 THEN Poison(st)
             ELSE [st EXCEPT !.v = DropSmall(ApplyGate(@,WavePlate(AngleOf(st.c[n.ct+1]),AngleOf(st.c[n.cp+1]) \div 2),
                                                       n.a+1,n.b+1,cv.L),cv.tn,cv.td)])
      [] n.k = "wph" -> AnyId(MapStates(cv, LAMBDA st :
             IF ~st.v.ok \/ ~Below(st.v,n.a+1,n.b+1,cv.L)
                \/ ~NoSmall(st.v,<<Gate(n.a,n.b,WavePlate(n.t,n.p))>>,cv.L,cv.tn,cv.td) THEN Poison(st)
             ELSE [st EXCEPT !.v = ApplyGate(@,WavePlate(n.t,n.p),n.a+1,n.b+1,cv.L)]))
      [] n.k = "cwph" -> AnyId(MapStates(cv, LAMBDA st :
             IF ~st.v.ok \/ ~Below(st.v,n.a+1,n.b+1,cv.L) \/ ~KnownAngle(st.c[n.cp+1]) \/ ~KnownAngle(st.c[n.ct+1])
                \/ AngleOf(st.c[n.cp+1]) % 2 # 0 THEN Poison(st)
             ELSE LET g == WavePlate(AngleOf(st.c[n.ct+1]),AngleOf(st.c[n.cp+1]) \div 2) IN
                  IF ~NoSmall(st.v,<<Gate(n.a,n.b,g)>>,cv.L,cv.tn,cv.td) THEN Poison(st)
                  ELSE [st EXCEPT !.v = ApplyGate(@,g,n.a+1,n.b+1,cv.L)]))
      [] n.k = "ham" -> AnyId(MapStates(cv, LAMBDA st :
             IF ~st.v.ok \/ ~HamNoSmall(st.v,n,cv.L,cv.tn,cv.td) THEN Poison(st)
             ELSE [st EXCEPT !.v = HamApply(@,n,cv.L)]))
      [] n.k = "shift" -> AnyId(MapStates(cv, LAMBDA st : [st EXCEPT !.v = DropSmall(MapOcc(@,LAMBDA o : ShiftOcc(o,n.tg,n.sh,cv.L)),cv.tn,cv.td)]))
      [] n.k = "shiftd" -> AnyId(MapStates(cv, LAMBDA st : [st EXCEPT !.v = MapOcc(@,LAMBDA o : ShiftOcc(o,n.tg,n.sh,cv.L))]))
      [] n.k = "cshift" -> AnyId(MapStates(cv, LAMBDA st : [st EXCEPT !.v = DropSmall(MapOcc(@,LAMBDA o : CShiftOcc(o,n.ctl,n.tg,cv.L)),cv.tn,cv.td)]))
      [] n.k = "cshiftd" -> AnyId(MapStates(cv, LAMBDA st : [st EXCEPT !.v = MapOcc(@,LAMBDA o : CShiftOcc(o,n.ctl,n.tg,cv.L))]))
      [] n.k = "coupl" -> AnyId(MapStates(cv, LAMBDA st : [st EXCEPT !.v = DropSmall(Couple(@,n.ctl,n.tg,n.w,n.d,cv.L),cv.tn,cv.td)]))
      [] n.k = "fock" -> AnyId(MapStates(cv, LAMBDA st : [st EXCEPT !.v = DropSmall(MatrixApply(@,n.ent,n.s,n.idrest),cv.tn,cv.td)]))
      [] n.k = "gen" -> GenFun(n,cv)
      [] n.k \in DrawOnly -> Poisoned(cv)
    IN  EvalNodes(circs,ci,rest,TLCEval(r))

(* matrix of a list of optical nodes: vector for every basis state                  *)
MatrixCols(q,ix) == LET d == Default(q)
                        gs == GroupGates(q.nodes,ix,Len(ix))
                    IN  [i \in 1..Len(d) |-> ApplyGates(Basis(d[i]),gs,q.L)]
=================================================================================
