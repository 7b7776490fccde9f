---------------------------------- MODULE Props ----------------------------------
(* The listed properties as statements about the machine of FSC.tla: what holds in    *)
(* every state (TypeOK, ...) and over every call (the S_... step predicates, op being *)
(* the call). TLC checks them on every behaviour that is replayed on the library.     *)
EXTENDS FSC

------------------------------ (* every state *) ------------------------------
WellFormed(st,sh) ==
  /\ Len(st.c) = sh.NC
  /\ \A n \in DOMAIN st.v.f : Len(n) = sh.NO /\ \A c \in 1..sh.NO : n[c] \in Nat
  /\ \A k \in 1..Len(st.m) : DOMAIN st.m[k] = {"c","p"}
TypeOK ==
  /\ \A r \in 1..Len(heap) : WellFormed(heap[r].st,heap[r].sh)
  /\ \A i \in 1..Len(colls) : \A k \in 1..Len(colls[i].es) :
        LET e == colls[i].es[k] IN e.r \in 1..Len(heap) /\ SameShape(heap[e.r].sh,colls[i])
  /\ \A h \in 1..Len(hs) : hs[h] \in 1..Len(heap)
(* the components fit the shape (C01, C22)                                          *)
InRange == \A r \in 1..Len(heap) : \A n \in DOMAIN heap[r].st.v.f : \A c \in 1..Len(n) : n[c] < heap[r].sh.L
(* identifiers are unique (C11)                                                      *)
UniqueIds == \A i \in 1..Len(colls) : \A a,b \in 1..Len(colls[i].es) :
               (a < b /\ colls[i].es[a].id[1] = "eq") => colls[i].es[a].id # colls[i].es[b].id
(* evaluation never produces a state that already exists elsewhere (C09, C10)         *)
ProbOK == \A r \in 1..Len(heap) : \A k \in 1..Len(heap[r].st.p) : \A j \in 1..Len(heap[r].st.p[k]) : ~RNegative(heap[r].st.p[k][j][1])

------------------------------ (* every call *) ------------------------------
Done(op) == last'.v = "do"
Setters == {"cls","init","prob","pokerec","pokecls","pokeaux","pokeamp","comps","sinit","setaux","norecs"}
NewOnes == {"eval","ceval","copy","coll"}
Reports == {"report","sketch","density","histo","corr","inner","outer","tensor","matrix","get","photons","lookup"}
Shapers == {"reduce","extend","adjust","clear","default","mix","filt","del","add","fromd"}

(* refused calls and reports change nothing (C09, C22)                               *)
S_Nothing(op) == (last'.v \in {"refuse","skip","stop"} \/ op.o \in Reports)
                 => UNCHANGED <<circs,colls,heap,comps>>
(* states change by naming them, or by cleaning up their collection (C07, C09, C10)   *)
S_States(op) == \A r \in 1..Len(heap) : heap'[r] # heap[r] =>
                   \/ op.o \in Setters /\ Ref(op.w) = r
                   \/ op.o = "clean" /\ \E k \in 1..Len(colls[op.i].es) : colls[op.i].es[k].r = r
(* collections change by naming them                                                *)
S_Colls(op) == \A i \in 1..Len(colls) : colls'[i] # colls[i] => op.o \in Shapers \cup {"clean"} /\ op.i = i
S_Circs(op) == \A i \in 1..Len(circs) : circs'[i] # circs[i] => op.o = "node" /\ op.c = i
(* results share no state with anything that existed (C09, C10)                      *)
S_Fresh(op) == Done(op) /\ (op.o \in NewOnes \/ (op.o = "qop" /\ op.i # 0)) =>
     LET i == Len(colls)+1 IN
     /\ Len(colls') = i
     /\ \A k \in 1..Len(colls'[i].es) : colls'[i].es[k].r > Len(heap)
     /\ \A a,b \in 1..Len(colls'[i].es) : a # b => colls'[i].es[a].r # colls'[i].es[b].r
(* records: existing ones never change, except by the user (C06)                     *)
Prefix(a,b) == Len(a) <= Len(b) /\ SubSeq(b,1,Len(a)) = a
S_Records(op) == \A r \in 1..Len(heap) : op.o \notin {"pokerec","sinit","norecs"} => heap'[r].st.m = heap[r].st.m
MeasCount(q,ix) == Cardinality({j \in 1..Len(ix) : q.nodes[ix[j]+1].k = "meas"})
EvalIx(op) == IF op.all THEN All(Len(circs[op.c].nodes)) ELSE op.ix
Plain(q,ix) == \A j \in 1..Len(ix) : q.nodes[ix[j]+1].k \notin {"bridge","gen"}
EvalIn(op) == IF op.i = 0 THEN DefaultColl(circs[op.c]) ELSE ValueOf(op.i)
S_EvalRecords(op) == op.o = "eval" /\ Done(op) =>
     LET q == circs[op.c]
         ix == EvalIx(op)
         in == EvalIn(op)
         out == colls'[Len(colls')]
     IN  Plain(q,ix) => \A k \in 1..Len(out.es) :
           LET st == heap'[out.es[k].r].st IN
           \E j \in 1..Len(in.es) : /\ Prefix(in.es[j].st.m, st.m)
                                    /\ Len(st.m) = Len(in.es[j].st.m) + MeasCount(q,ix)
                                    /\ st.init = in.es[j].st.init /\ st.x = in.es[j].st.x
                                    /\ (\A x \in 1..Len(ix) : q.nodes[ix[x]+1].k \notin {"meas","set","cfun"}) => st.c = in.es[j].st.c
(* total probability per initial state, in millionths, within rounding (C05, C12, C13, C16) *)
TotalOf(cv,l) == FoldLeft(LAMBDA a,e : IF e.st.init = l THEN a + Ppm(e.st.p) ELSE a, 0, cv.es)
Labels(cv) == {cv.es[k].st.init : k \in 1..Len(cv.es)}
After(i) == ShapeOf(colls'[i]) @@ [es |-> [k \in 1..Len(colls'[i].es) |-> [id |-> colls'[i].es[k].id, st |-> heap'[colls'[i].es[k].r].st]]]
UnitSt(st) == Norm2(st.v.f) = st.v.N
Conserved(a,b,loose) == \A l \in Labels(a) \cup Labels(b) :
     LET x == TotalOf(a,l)
         y == TotalOf(b,l)
         slack == 4000 + 20*(Len(a.es) + Len(b.es)) + loose
     IN  (x - y <= slack /\ y - x <= slack) \/ (PrintT(<<"FAILED total",l,x,y,slack,Len(a.es),Len(b.es)>>) /\ FALSE)
(* nodes that never lose anything, whatever the threshold                            *)
Exact(q,ix) == \A j \in 1..Len(ix) : q.nodes[ix[j]+1].k \in {"meas","set","cfun","phase","shiftd","cshiftd","hwp45","swap"}
S_EvalTotal(op) == op.o = "eval" /\ Done(op) =>
     LET q == circs[op.c]
         ix == EvalIx(op)
         in == EvalIn(op)
         out == After(Len(colls'))
     IN  (Exact(q,ix) /\ \A k \in 1..Len(in.es) : UnitSt(in.es[k].st) /\ DropSmall(in.es[k].st.v,q.tn,q.td) = in.es[k].st.v)
         => /\ Conserved(in,out,0)
            /\ \A k \in 1..Len(out.es) : UnitSt(out.es[k].st)
(* optical nodes conserve the photon number of every state that has one (C03)         *)
PhotonNumbers(v) == {FoldLeft(LAMBDA a,b : a+b, 0, n) : n \in DOMAIN v.f}
S_EvalPhotons(op) == op.o = "eval" /\ Done(op) =>
     LET q == circs[op.c]
         ix == EvalIx(op)
         in == EvalIn(op)
         out == After(Len(colls'))
     IN  (\A j \in 1..Len(ix) : IsOptical(q.nodes[ix[j]+1]) \/ q.nodes[ix[j]+1].k \in {"cphase","cwp","cwph","wph"}
                              \/ (q.nodes[ix[j]+1].k = "ham" /\ \A i \in 1..Len(q.nodes[ix[j]+1].gs) : q.nodes[ix[j]+1].gs[i].h # "split"))
         => /\ Len(out.es) = Len(in.es)
            /\ \A k \in 1..Len(in.es) : PhotonNumbers(out.es[k].st.v) \subseteq PhotonNumbers(in.es[k].st.v)
(* order of states is kept where it is specified; node by node equals all at once (C04) *)
S_Compose(op) == op.o = "eval" /\ Done(op) /\ Len(EvalIx(op)) = 2 /\ Plain(circs[op.c],EvalIx(op)) =>
     LET ix == EvalIx(op)
         one == EvalNodes(circs,op.c,<<ix[1]>>,EvalIn(op))
         two == EvalNodes(circs,op.c,<<ix[2]>>,one)
         out == After(Len(colls'))
     IN  (~Bad(one) /\ ~Bad(two) /\ \A j \in 1..2 : Exact(circs[op.c],<<ix[j]>>)) =>
           [k \in 1..Len(out.es) |-> out.es[k].st] = [k \in 1..Len(two.es) |-> two.es[k].st]
(* one state evaluated alone gives what it gives among others (C04, C08)              *)
S_Alone(op) == op.o = "eval" /\ Done(op) /\ Plain(circs[op.c],EvalIx(op)) /\ Len(EvalIn(op).es) \in 2..4 =>
     LET in == EvalIn(op)
         ix == EvalIx(op)
         out == After(Len(colls'))
         parts == [k \in 1..Len(in.es) |-> EvalNodes(circs,op.c,ix,[in EXCEPT !.es = <<in.es[k]>>])]
     IN  (\A k \in 1..Len(parts) : ~Bad(parts[k])) =>
           LET joined == Flat([k \in 1..Len(parts) |-> parts[k].es])
           IN  [k \in 1..Len(out.es) |-> out.es[k].st] = [k \in 1..Len(joined) |-> joined[k].st]
(* shaping conserves total probability and labels (C12, C13)                         *)
S_Shape(op) == op.o \in {"reduce","adjust"} /\ Done(op) =>
     LET a == ValueOf(op.i)
         b == After(op.i)
     IN  (\A k \in 1..Len(a.es) : UnitSt(a.es[k].st)) => Labels(a) = Labels(b) /\ Conserved(a,b,0)
(* cleaning up never adds a state nor changes a label (C14)                           *)
S_Clean(op) == op.o = "clean" /\ Done(op) =>
     LET a == ValueOf(op.i)
         b == After(op.i)
     IN  Len(b.es) <= Len(a.es) /\ Labels(b) \subseteq Labels(a)
(* adding keeps what is there (C11)                                                  *)
S_Add(op) == op.o = "add" /\ Done(op) =>
     /\ Len(colls'[op.i].es) \in {Len(colls[op.i].es), Len(colls[op.i].es)+1}
     /\ op.id = "" => Prefix(colls[op.i].es, colls'[op.i].es) /\ Len(colls'[op.i].es) = Len(colls[op.i].es)+1
(* extending and reducing to the old channels gives back the old states (C12, C13)    *)
S_Extend(op) == op.o = "extend" /\ Done(op) /\ (op.eo > 0 \/ op.ec > 0) /\ op.dist = <<>> =>
     LET a == ValueOf(op.i)
         back == Reduce(After(op.i) @@ [ord |-> TRUE], All(a.NO), All(a.NC))
     IN  (\A k \in 1..Len(a.es) : UnitSt(a.es[k].st)) => [k \in 1..Len(back.es) |-> back.es[k].st] = [k \in 1..Len(a.es) |-> a.es[k].st]

(* drawings show every node on exactly its channels and in order (C24)               *)
S_Drawn(op) == op.o = "sketch" /\ Done(op) =>
     LET ds == last'.obs.ds IN
     \A k \in 1..Len(last'.obs.pics) : LET p == last'.obs.pics[k] IN Faithful(ds,p.o,p.c,p.sk)

Chk(name,b) == b \/ (PrintT(<<"FAILED",name,last>>) /\ FALSE)
StepOK(op) ==
  /\ Chk("S_Nothing",S_Nothing(op))
  /\ Chk("S_States",S_States(op))
  /\ Chk("S_Colls",S_Colls(op))
  /\ Chk("S_Circs",S_Circs(op))
  /\ Chk("S_Fresh",S_Fresh(op))
  /\ Chk("S_Records",S_Records(op))
  /\ Chk("S_EvalRecords",S_EvalRecords(op))
  /\ Chk("S_EvalTotal",S_EvalTotal(op))
  /\ Chk("S_EvalPhotons",S_EvalPhotons(op))
  /\ Chk("S_Compose",S_Compose(op))
  /\ Chk("S_Alone",S_Alone(op))
  /\ Chk("S_Shape",S_Shape(op))
  /\ Chk("S_Clean",S_Clean(op))
  /\ Chk("S_Add",S_Add(op))
  /\ Chk("S_Extend",S_Extend(op))
  /\ Chk("S_Drawn",S_Drawn(op))
=================================================================================
