---------------------------------- MODULE FSC ----------------------------------
(* The package as a machine: circuits, collections, states (by reference) and       *)
(* compound circuits, and every call of the library as a transition.                *)
(*                                                                                 *)
(* heap   sequence of state objects: [st, sh] with sh = [L,NO,NC,left,tn,td]        *)
(* colls  sequence of collections; es is a sequence of [id, r], r index in heap     *)
(* hs     sequence of handles held by the user: indices in heap                     *)
(* comps  sequence of compound circuits [m, act, snap, on]: m the circuits listed   *)
(*        now, act those at the last refresh and snap the number of nodes each had  *)
(*        then, on unless cleared                                                   *)
(* verdict of a call: "do" it succeeds as specified, "refuse" it raises and changes *)
(* nothing, "skip" no claim (not executed), "stop" no claim from here on            *)
EXTENDS Drawing

VARIABLES circs, colls, heap, hs, comps, labels, last
vars == <<circs, colls, heap, hs, comps, labels, last>>

ShapeOf(q) == [L |-> q.L, NO |-> q.NO, NC |-> q.NC, left |-> q.left, tn |-> q.tn, td |-> q.td]
SameShape(a,b) == a.L = b.L /\ a.NO = b.NO /\ a.NC = b.NC /\ a.left = b.left
(* collection as value                                                              *)
ValueIn(i,hp) == [ShapeOf(colls[i]) EXCEPT !.L = colls[i].L] @@ [ord |-> colls[i].ord,
               es |-> [k \in 1..Len(colls[i].es) |-> [id |-> colls[i].es[k].id, st |-> hp[colls[i].es[k].r].st]]]
ValueOf(i) == ValueIn(i,heap)
(* references for fresh copies of the states of cv                                  *)
RefsOf(cv,base) == [L |-> cv.L, NO |-> cv.NO, NC |-> cv.NC, left |-> cv.left, tn |-> cv.tn, td |-> cv.td, ord |-> cv.ord,
                    es |-> [k \in 1..Len(cv.es) |-> [id |-> cv.es[k].id, r |-> base + k]]]
CellsOf(cv) == [k \in 1..Len(cv.es) |-> [st |-> cv.es[k].st, sh |-> ShapeOf(cv)]]

Init0 == /\ circs = << >> /\ colls = << >> /\ heap = << >> /\ hs = << >> /\ comps = << >>
         /\ labels = 0
         /\ last = [o |-> "none", v |-> "do", obs |-> << >>]

Say(op,v,obs) == last' = [o |-> op.o, v |-> v, obs |-> obs]
Nothing(op,v) == UNCHANGED <<circs,colls,heap,hs,comps,labels>> /\ Say(op,v,<<>>)
Observe(op,obs) == UNCHANGED <<circs,colls,heap,hs,comps,labels>> /\ Say(op,"do",obs)
NewColl(op,cv) == /\ colls' = Append(colls, RefsOf(cv,Len(heap)))
                  /\ heap' = heap \o CellsOf(cv)
                  /\ UNCHANGED <<circs,hs,comps>>
                  /\ Say(op,"do",<<>>)
(* replace content of collection i by fresh states                                   *)
SetColl(op,i,cv) == /\ colls' = [colls EXCEPT ![i] = RefsOf(cv,Len(heap))]
                    /\ heap' = heap \o CellsOf(cv)
                    /\ UNCHANGED <<circs,hs,comps>>
                    /\ Say(op,"do",<<>>)
(* same states, kept entries only                                                    *)
KeepEntries(op,i,es) == /\ colls' = [colls EXCEPT ![i].es = es]
                        /\ UNCHANGED <<circs,heap,hs,comps>>
                        /\ Say(op,"do",<<>>)
SetState(op,r,st) == /\ heap' = [heap EXCEPT ![r].st = st]
                     /\ UNCHANGED <<circs,colls,hs,comps>>
                     /\ Say(op,"do",<<>>)

(* addressing: a state is named by handle ["h",i] or collection entry ["e",i,k]      *)
HasRef(w) == IF w[1] = "h" THEN w[2] \in 1..Len(hs) ELSE w[2] \in 1..Len(colls) /\ w[3] \in 1..Len(colls[w[2]].es)
Ref(w) == IF w[1] = "h" THEN hs[w[2]] ELSE colls[w[2]].es[w[3]].r
Cell(w) == heap[Ref(w)]

------------------------------- (* circuits *) -------------------------------
DoCirc(op) ==
  IF op.L < 1 \/ op.NO < 2 THEN Nothing(op,"refuse")
  ELSE /\ circs' = Append(circs,[L |-> op.L, NO |-> op.NO, NC |-> op.NC, left |-> op.left, tn |-> op.tn, td |-> op.td,
                                 full |-> op.full, nodes |-> << >>])
       /\ UNCHANGED <<colls,heap,hs,comps,labels>> /\ Say(op,"do",<<>>)
(* two-port beamsplitters add two nodes                                              *)
KeepTag(n,x) == IF Tagged(n) THEN [tag |-> n.tag] @@ x ELSE x
Expand(n) == IF n.k \in {"npbs","npbs50"}
             THEN << KeepTag(n,[k |-> IF n.k = "npbs" THEN "mixg" ELSE "mix50", a |-> n.a[1], b |-> n.b[1], r |-> n.r, t |-> n.t, bad |-> FALSE]),
                     KeepTag(n,[k |-> IF n.k = "npbs" THEN "mixg" ELSE "mix50", a |-> n.a[2], b |-> n.b[2], r |-> n.r, t |-> n.t, bad |-> FALSE]) >>
             ELSE << n >>
DoNode(op) ==
  IF op.c \notin 1..Len(circs) THEN Nothing(op,"skip")
  ELSE IF ~ValidNode(circs[op.c],op.n) THEN Nothing(op,"refuse")
  ELSE IF op.n.k = "bridge" /\ op.n.next \notin (1..Len(circs)) \ {op.c} THEN Nothing(op,"skip")
  ELSE /\ circs' = [circs EXCEPT ![op.c].nodes = @ \o Expand(op.n)]
       /\ UNCHANGED <<colls,heap,hs,comps,labels>> /\ Say(op,"do",<<>>)

------------------------------- (* states *) -------------------------------
DoNewColl(op) ==
  IF op.c \notin 1..Len(circs) THEN Nothing(op,"skip")
  ELSE labels' = labels /\ NewColl(op, IF op.empty THEN EmptyColl(circs[op.c]) ELSE DefaultColl(circs[op.c]))
VacuumOf(sh) == NewSt([c \in 1..sh.NO |-> 0],sh)
DoNewState(op) ==
  IF op.i \notin 1..Len(colls) THEN Nothing(op,"skip")
  ELSE LET sh == ShapeOf(colls[op.i])
           st == VacuumOf(sh)
       IN /\ heap' = Append(heap,[st |-> st, sh |-> sh])
          /\ hs' = Append(hs,Len(heap)+1)
          /\ UNCHANGED <<circs,colls,comps,labels>> /\ Say(op,"do",<<>>)
(* components: op.f list of <<occupation, number>>, op.N normalisation, op.how       *)
(* "list" (repeated names add up), "dict", "vector" (small ones are dropped)         *)
SumList(fs) == FoldLeft(LAMBDA acc,i : AddTo(acc,fs[i][1],fs[i][2]), << >>, [i \in 1..Len(fs) |-> i])
ValidOcc(n,sh) == Len(n) = sh.NO /\ \A i \in 1..Len(n) : n[i] \in 0..(sh.L-1)
DoComps(op) ==
  IF ~HasRef(op.w) THEN Nothing(op,"skip")
  ELSE LET c == Cell(op.w)
           v0 == Vec(SumList(op.f),op.N)
           v == IF op.how = "vector" THEN DropSmall(v0,c.sh.tn,c.sh.td) ELSE v0
       IN  IF op.wrong # "" \/ ~\A i \in 1..Len(op.f) : ValidOcc(op.f[i][1],c.sh)
           THEN Nothing(op,IF op.how = "vector" THEN "skip" ELSE "refuse")
           ELSE IF ~v.ok \/ TooBig(v) THEN Nothing(op,"skip")
           ELSE labels' = labels /\ SetState(op,Ref(op.w),[c.st EXCEPT !.v = v])
DoSet(op) ==
  IF ~HasRef(op.w) THEN Nothing(op,"skip")
  ELSE LET c == Cell(op.w) IN
  CASE op.o = "cls"  -> IF Len(op.c) # c.sh.NC THEN Nothing(op,"refuse")
                        ELSE labels' = labels /\ SetState(op,Ref(op.w),[c.st EXCEPT !.c = op.c])
    [] op.o = "init" -> labels' = labels /\ SetState(op,Ref(op.w),[c.st EXCEPT !.init = <<"s",op.s>>])
    [] op.o = "prob" -> IF op.num < 0 \/ op.num > op.den THEN Nothing(op,"refuse")
                        ELSE labels' = labels /\ SetState(op,Ref(op.w),[c.st EXCEPT !.p = IF op.num = 0 THEN <<>> ELSE << << <<RInt(op.num),RInt(op.den)>> >> >>])
    (* a state returned to vacuum; auxiliary information; records thrown away          *)
    [] op.o = "sinit" -> labels' = labels /\ SetState(op,Ref(op.w),VacuumOf(c.sh))
    [] op.o = "setaux" -> labels' = labels /\ SetState(op,Ref(op.w),[c.st EXCEPT !.x = op.k])
    [] op.o = "norecs" -> labels' = labels /\ SetState(op,Ref(op.w),[c.st EXCEPT !.m = <<>>])
    (* values of the wrong kind                                                        *)
    [] op.o = "badset" -> Nothing(op,"refuse")
    [] op.o = "pokerec" -> IF Len(c.st.m) = 0 \/ c.sh.NC = 0 THEN Nothing(op,"skip")
                           ELSE labels' = labels /\ SetState(op,Ref(op.w),[c.st EXCEPT !.m[Len(c.st.m)].c[1] = <<"n",op.k>>])
    [] op.o = "pokecls" -> IF c.sh.NC = 0 THEN Nothing(op,"skip")
                           ELSE labels' = labels /\ SetState(op,Ref(op.w),[c.st EXCEPT !.c[1] = <<"n",op.k>>])
    [] op.o = "pokeaux" -> labels' = labels /\ SetState(op,Ref(op.w),[c.st EXCEPT !.x = @ + op.k])
    [] op.o = "pokeamp" -> LET v == [c.st.v EXCEPT !.f = [n \in DOMAIN c.st.v.f |-> CNeg(c.st.v.f[n])]] IN
                           labels' = labels /\ SetState(op,Ref(op.w),[c.st EXCEPT !.v = v])
DoCopyState(op) ==
  IF ~HasRef(op.w) THEN Nothing(op,"skip")
  ELSE /\ heap' = Append(heap,Cell(op.w)) /\ hs' = Append(hs,Len(heap)+1)
       /\ UNCHANGED <<circs,colls,comps,labels>> /\ Say(op,"do",<<>>)

(* a new vacuum state made from an existing one, sharing only its shape               *)
DoCreate(op) ==
  IF ~HasRef(op.w) THEN Nothing(op,"skip")
  ELSE LET c == Cell(op.w) IN
       /\ heap' = Append(heap,[c EXCEPT !.st = VacuumOf(c.sh)]) /\ hs' = Append(hs,Len(heap)+1)
       /\ UNCHANGED <<circs,colls,comps,labels>> /\ Say(op,"do",<<>>)
(* a new state from a dictionary: the parts given replace those of the vacuum state.  *)
(* Given are the components unless op.f is empty, the label unless op.s is empty,     *)
(* the probability unless op.den is zero and the classical values if op.hasc.         *)
DoDState(op) ==
  IF op.i \notin 1..Len(colls) THEN Nothing(op,"skip")
  ELSE LET sh == ShapeOf(colls[op.i])
           st0 == VacuumOf(sh)
           v == IF op.f = <<>> THEN st0.v ELSE Vec(SumList(op.f),op.N)
       IN  IF ~\A j \in 1..Len(op.f) : ValidOcc(op.f[j][1],sh) THEN Nothing(op,"skip")
           ELSE IF op.wrong # "" \/ (op.hasc /\ Len(op.c) # sh.NC) \/ op.num < 0 \/ op.num > op.den THEN Nothing(op,"refuse")
           ELSE IF ~v.ok \/ TooBig(v) THEN Nothing(op,"skip")
           ELSE LET st == [st0 EXCEPT !.v = v, !.init = IF op.s = "" THEN @ ELSE <<"s",op.s>>,
                                      !.p = IF op.den = 0 THEN @ ELSE IF op.num = 0 THEN <<>> ELSE << << <<RInt(op.num),RInt(op.den)>> >> >>,
                                      !.c = IF op.hasc THEN op.c ELSE @]
                IN /\ heap' = Append(heap,[st |-> st, sh |-> sh]) /\ hs' = Append(hs,Len(heap)+1)
                   /\ UNCHANGED <<circs,colls,comps,labels>> /\ Say(op,"do",<<>>)

----------------------------- (* collections *) -----------------------------
(* a collection from a dictionary of states; entry <<id, ref, how>>: the state itself *)
(* ("state") or its description as a dictionary ("dict"), that gives a new state      *)
NewCells(es) == SelectSeq([j \in 1..Len(es) |-> j], LAMBDA j : es[j][3] = "dict")
DictEntries(es) == [j \in 1..Len(es) |-> [id |-> <<"eq",es[j][1]>>,
      r |-> IF es[j][3] = "state" THEN Ref(es[j][2])
            ELSE Len(heap) + CHOOSE k \in 1..Len(NewCells(es)) : NewCells(es)[k] = j]]
DictCells(es) == [k \in 1..Len(NewCells(es)) |-> Cell(es[NewCells(es)[k]][2])]
DictOK(es,sh) == /\ \A j \in 1..Len(es) : HasRef(es[j][2]) /\ SameShape(Cell(es[j][2]).sh,sh)
                 /\ \A j,k \in 1..Len(es) : j # k => es[j][1] # es[k][1]
DoDColl(op) ==
  IF op.c \notin 1..Len(circs) THEN Nothing(op,"skip")
  ELSE LET q == circs[op.c] IN
       IF ~DictOK(op.es,q) THEN Nothing(op,"skip")
       ELSE /\ colls' = Append(colls,[EmptyColl(q) EXCEPT !.es = DictEntries(op.es)])
            /\ heap' = heap \o DictCells(op.es)
            /\ UNCHANGED <<circs,hs,comps,labels>> /\ Say(op,"do",<<>>)
DoFromDict(op) ==
  IF op.i \notin 1..Len(colls) THEN Nothing(op,"skip")
  ELSE IF ~DictOK(op.es,colls[op.i]) \/ (\E j \in 1..Len(op.es) : op.es[j][3] # "state") THEN Nothing(op,"skip")
  ELSE /\ colls' = [colls EXCEPT ![op.i].es = DictEntries(op.es), ![op.i].ord = TRUE]
       /\ UNCHANGED <<circs,heap,hs,comps,labels>> /\ Say(op,"do",<<>>)
Entries(i) == colls[i].es
Shared(i) == \E a,b \in 1..Len(Entries(i)) : a # b /\ Entries(i)[a].r = Entries(i)[b].r
Positions(i,P(_)) == SelectSeq([k \in 1..Len(Entries(i)) |-> k], P)
IdKnown(i) == \A k \in 1..Len(Entries(i)) : Entries(i)[k].id[1] = "eq"
DoAdd(op) ==
  IF ~HasRef(op.w) \/ op.i \notin 1..Len(colls) THEN Nothing(op,"skip")
  ELSE IF ~SameShape(Cell(op.w).sh,colls[op.i]) THEN Nothing(op,"skip")
  ELSE LET hit == Positions(op.i, LAMBDA k : Entries(op.i)[k].id = <<"eq",op.id>>)
           es == IF op.id = "" THEN Append(Entries(op.i),[id |-> <<"any">>, r |-> Ref(op.w)])
                 ELSE IF hit # <<>> THEN [Entries(op.i) EXCEPT ![hit[1]].r = Ref(op.w)]
                 ELSE Append(Entries(op.i),[id |-> <<"eq",op.id>>, r |-> Ref(op.w)])
       IN  IF op.id # "" /\ ~(\A k \in 1..Len(Entries(op.i)) : Entries(op.i)[k].id[1] # "pre") THEN Nothing(op,"skip")
           ELSE labels' = labels /\ KeepEntries(op,op.i,es)
(* look up and delete: by position (through the identifier the state really has), by  *)
(* an identifier that is known, or by initial state (first one)                       *)
Find(op) == CASE op.by = "pos"  -> IF op.k \in 1..Len(Entries(op.i)) THEN << op.k >> ELSE <<>>
              [] op.by = "id"   -> Positions(op.i, LAMBDA k : Entries(op.i)[k].id = <<"eq",op.s>>)
              [] op.by = "init" -> Positions(op.i, LAMBDA k : heap[Entries(op.i)[k].r].st.init = <<"s",op.s>>)
Findable(op) == /\ op.i \in 1..Len(colls)
                /\ op.by = "pos" => op.k \in 1..Len(Entries(op.i))
                /\ op.by = "id" => \A k \in 1..Len(Entries(op.i)) : Entries(op.i)[k].id[1] # "pre"
                /\ op.by = "init" => colls[op.i].ord \/ Len(Find(op)) <= 1
DoGet(op) ==
  IF ~Findable(op) THEN Nothing(op,"skip")
  ELSE IF Find(op) = <<>> THEN Observe(op,"none")
  ELSE /\ hs' = Append(hs,Entries(op.i)[Find(op)[1]].r)
       /\ UNCHANGED <<circs,colls,heap,comps,labels>> /\ Say(op,"do","handle")
DoDel(op) ==
  IF ~Findable(op) THEN Nothing(op,"skip")
  ELSE LET f == Find(op)
           ks == SelectSeq([k \in 1..Len(Entries(op.i)) |-> k], LAMBDA k : f = <<>> \/ k # f[1])
       IN  labels' = labels /\ KeepEntries(op,op.i,[k \in 1..Len(ks) |-> Entries(op.i)[ks[k]]])
DoFilter(op) ==
  IF op.i \notin 1..Len(colls) THEN Nothing(op,"skip")
  ELSE LET cv == ValueOf(op.i)
           Test(e) == CASE op.by = "init" -> \E s \in {op.s[j] : j \in 1..Len(op.s)} : e.st.init = <<"s",s>>
                        [] op.by = "id"   -> \E s \in {op.s[j] : j \in 1..Len(op.s)} : e.id = <<"eq",s>>
                        [] op.by = "cls"  -> \A j \in 1..Len(op.ch) : e.st.c[op.ch[j]+1] = op.vals[j]
       IN  IF op.by = "id" /\ (\E k \in 1..Len(cv.es) : cv.es[k].id[1] # "eq") THEN Nothing(op,"skip")
           ELSE IF op.by = "cls" /\ ~(AllChan(op.ch,cv.NC) /\ Len(op.ch) = Len(op.vals)) THEN Nothing(op,"skip")
           ELSE labels' = labels /\ SetColl(op,op.i,[cv EXCEPT !.es = SelectSeq(@,Test)])
DoCopy(op) ==
  IF op.i \notin 1..Len(colls) THEN Nothing(op,"skip")
  ELSE labels' = labels /\ NewColl(op, IF op.empty THEN [ValueOf(op.i) EXCEPT !.es = <<>>, !.ord = TRUE] ELSE ValueOf(op.i))
DoClear(op) ==
  IF op.i \notin 1..Len(colls) THEN Nothing(op,"skip")
  ELSE labels' = labels /\ SetColl(op,op.i,[ValueOf(op.i) EXCEPT !.es = <<>>, !.ord = TRUE])
DoDefault(op) ==
  IF op.i \notin 1..Len(colls) THEN Nothing(op,"skip")
  ELSE labels' = labels /\ SetColl(op,op.i,DefaultColl(ShapeOf(colls[op.i])))
DoMix(op) ==
  IF op.i \notin 1..Len(colls) \/ (\E j \in 1..Len(op.ws) : ~HasRef(op.ws[j])) THEN Nothing(op,"skip")
  ELSE IF \E j \in 1..Len(op.ws) : ~SameShape(Cell(op.ws[j]).sh,colls[op.i]) THEN Nothing(op,"skip")
  ELSE IF \E j \in 1..Len(op.ws) : op.wt[j] > op.den \/ op.wt[j] < 0 THEN Nothing(op,"refuse")
  ELSE LET cv == [ValueOf(op.i) EXCEPT !.ord = TRUE, !.es = [j \in 1..Len(op.ws) |->
                   [id |-> <<"any">>, st |-> [Cell(op.ws[j]).st EXCEPT !.init = <<"u",labels+1>>,
                      !.p = IF op.wt[j] = 0 THEN <<>> ELSE << << <<RInt(op.wt[j]),RInt(op.den)>> >> >>]]]]
       IN  labels' = labels + 1 /\ SetColl(op,op.i,cv)
DoReduce(op) ==
  IF op.i \notin 1..Len(colls) THEN Nothing(op,"skip")
  ELSE LET cv == ValueOf(op.i)
           kc == IF op.kcall THEN All(cv.NC) ELSE op.kc
       IN  IF ~ValidReduce(cv,op.ko,kc) THEN Nothing(op,"refuse")
           ELSE IF ~Distinct(op.ko) THEN Nothing(op,"skip")
           ELSE LET r == Reduce(cv,op.ko,kc) IN
                IF Bad(r) THEN Nothing(op,"stop") ELSE labels' = labels /\ SetColl(op,op.i,r)
DoExtend(op) ==
  IF op.i \notin 1..Len(colls) THEN Nothing(op,"skip")
  ELSE LET cv == ValueOf(op.i) IN
       IF ~ValidExtend(cv,op.eo,op.ec,op.dist) THEN Nothing(op,"refuse")
       ELSE IF op.eo = 0 /\ op.ec = 0 THEN Nothing(op,"do")
       ELSE LET r == Extend(cv,op.eo,op.ec,op.dist) IN
            IF Bad(r) THEN Nothing(op,"stop") ELSE labels' = labels /\ SetColl(op,op.i,r)
DoAdjust(op) ==
  IF op.i \notin 1..Len(colls) THEN Nothing(op,"skip")
  ELSE IF op.L < 0 THEN Nothing(op,"refuse")
  (* length 0 stands for the present length *)
  ELSE LET r == Adjust(ValueOf(op.i), IF op.L = 0 THEN ValueOf(op.i).L ELSE op.L) IN
       IF Bad(r) THEN Nothing(op,"stop") ELSE labels' = labels /\ SetColl(op,op.i,r)
(* cleaning up works on the states themselves. Just before, entry op.pos may be given   *)
(* components of any norm.                                                            *)
DoClean(op) ==
  IF op.i \notin 1..Len(colls) THEN Nothing(op,"skip")
  ELSE IF Shared(op.i) \/ op.pos \notin 0..Len(Entries(op.i)) THEN Nothing(op,"skip")
  ELSE LET es == Entries(op.i)
           v == Vec(SumList(op.f),op.N)
           hp == IF op.pos = 0 THEN heap ELSE [heap EXCEPT ![es[op.pos].r].st.v = v]
           r == TLCEval(CleanUp(ValueIn(op.i,hp),op.s))
           At(c) == SelectSeq([k \in 1..Len(es) |-> k], LAMBDA k : es[k].r = c)
       IN  IF op.pos # 0 /\ (~v.ok \/ ~\A j \in 1..Len(op.f) : ValidOcc(op.f[j][1],colls[op.i])) THEN Nothing(op,"skip")
           (* what is not cleaned up has to stay a possible state                        *)
           ELSE IF op.pos # 0 /\ op.s # "" /\ heap[es[op.pos].r].st.init # <<"s",op.s>> THEN Nothing(op,"skip")
           ELSE IF ~r.ok THEN Nothing(op,"stop")
           ELSE /\ heap' = [c \in 1..Len(heap) |-> IF At(c) = <<>> THEN hp[c] ELSE [hp[c] EXCEPT !.st = r.all[At(c)[1]].st]]
                /\ colls' = [colls EXCEPT ![op.i].es = [k \in 1..Len(r.kept) |-> [id |-> r.all[r.kept[k]].id, r |-> es[r.kept[k]].r]]]
                /\ UNCHANGED <<circs,hs,comps,labels>> /\ Say(op,"do",<<>>)

---------------------------- (* evaluation *) ----------------------------
RECURSIVE Reaches(_,_,_)
Reaches(ci,target,fuel) == fuel > 0 /\ \E j \in 1..Len(circs[ci].nodes) :
     circs[ci].nodes[j].k = "bridge" /\ (circs[ci].nodes[j].next = target \/ Reaches(circs[ci].nodes[j].next,target,fuel-1))
Cyclic(ci) == \E t \in 1..Len(circs) : (t = ci \/ Reaches(ci,t,4)) /\ Reaches(t,t,4)
(* op.i = 0: default input. op.ix sequence of node indices, op.all all nodes         *)
DoEval(op) ==
  IF op.c \notin 1..Len(circs) \/ (op.i # 0 /\ op.i \notin 1..Len(colls)) THEN Nothing(op,"skip")
  ELSE LET q == circs[op.c]
           n == Len(q.nodes)
           ix == IF op.all THEN All(n) ELSE op.ix
           cv == IF op.i = 0 THEN DefaultColl(q) ELSE ValueOf(op.i)
       IN  IF ~op.all /\ (\E j \in 1..Len(ix) : ~InChan(ix[j],n)) THEN Nothing(op,"refuse")
           ELSE IF (~op.all /\ ix = <<>>) \/ Cyclic(op.c) \/ ~SameShape(q,cv) THEN Nothing(op,"skip")
           ELSE LET r == EvalNodes(circs,op.c,ix,cv) IN
                IF Bad(r) THEN Nothing(op,"stop") ELSE labels' = labels /\ NewColl(op,r)
(* an operator applied to a collection (op.i) or a state (op.w) without a circuit      *)
OpCircuit(sh,n) == [L |-> sh.L, NO |-> sh.NO, NC |-> sh.NC, left |-> sh.left, tn |-> sh.tn, td |-> sh.td, full |-> FALSE, nodes |-> << n >>]
DoOperator(op) ==
  IF IF op.i = 0 THEN ~HasRef(op.w) ELSE op.i \notin 1..Len(colls) THEN Nothing(op,"skip")
  ELSE LET sh == IF op.i = 0 THEN Cell(op.w).sh ELSE ShapeOf(colls[op.i])
           cv == IF op.i # 0 THEN ValueOf(op.i)
                 ELSE [EmptyColl(sh) EXCEPT !.es = << [id |-> <<"any">>, st |-> Cell(op.w).st] >>]
       IN  IF ~ValidNode(OpCircuit(sh,op.n),op.n) THEN Nothing(op,"skip")
           ELSE LET r == EvalNodes(<< OpCircuit(sh,op.n) >>,1,<<0>>,cv) IN
                IF Bad(r) THEN Nothing(op,"stop")
                ELSE IF op.i # 0 THEN labels' = labels /\ NewColl(op,r)
                ELSE /\ heap' = Append(heap,[st |-> r.es[1].st, sh |-> sh]) /\ hs' = Append(hs,Len(heap)+1)
                     /\ UNCHANGED <<circs,colls,comps,labels>> /\ Say(op,"do",<<>>)
DoComp(op) ==
  IF \E j \in 1..Len(op.m) : op.m[j] \notin 1..Len(circs) \/ \E k \in 1..Len(circs[op.m[j]].nodes) : circs[op.m[j]].nodes[k].k = "bridge"
  THEN Nothing(op,"skip")
  ELSE /\ comps' = Append(comps,[m |-> op.m, act |-> op.m, on |-> TRUE, snap |-> [j \in 1..Len(op.m) |-> Len(circs[op.m[j]].nodes)]])
       /\ UNCHANGED <<circs,colls,heap,hs,labels>> /\ Say(op,"do",<<>>)
DoRefresh(op) ==
  IF op.k \notin 1..Len(comps) THEN Nothing(op,"skip")
  ELSE /\ comps' = [comps EXCEPT ![op.k].snap = [j \in 1..Len(comps[op.k].m) |-> Len(circs[comps[op.k].m[j]].nodes)],
                                  ![op.k].act = comps[op.k].m, ![op.k].on = TRUE]
       /\ UNCHANGED <<circs,colls,heap,hs,labels>> /\ Say(op,"do",<<>>)
(* the list of circuits is changed by its owner: nothing follows until the refresh    *)
DoCompEdit(op) ==
  IF op.k \notin 1..Len(comps) \/ \E j \in 1..Len(op.m) : op.m[j] \notin 1..Len(circs) THEN Nothing(op,"skip")
  ELSE /\ comps' = [comps EXCEPT ![op.k].m = op.m]
       /\ UNCHANGED <<circs,colls,heap,hs,labels>> /\ Say(op,"do",<<>>)
DoCompClear(op) ==
  IF op.k \notin 1..Len(comps) \/ ~comps[op.k].on THEN Nothing(op,"skip")
  ELSE /\ comps' = [comps EXCEPT ![op.k].on = FALSE]
       /\ UNCHANGED <<circs,colls,heap,hs,labels>> /\ Say(op,"do",<<>>)
(* the circuits of the compound as a chain with bridges                              *)
Chain(cp) == [j \in 1..Len(cp.act) |->
                [circs[cp.act[j]] EXCEPT !.nodes = SubSeq(@,1,cp.snap[j]) \o
                   (IF j < Len(cp.act) THEN << [k |-> "bridge", next |-> j+1] >> ELSE << >>)]]
DoCompEval(op) ==
  IF op.k \notin 1..Len(comps) \/ (op.i # 0 /\ op.i \notin 1..Len(colls)) THEN Nothing(op,"skip")
  ELSE IF ~comps[op.k].on \/ comps[op.k].act = <<>> THEN Nothing(op,"skip")
  ELSE LET ch == Chain(comps[op.k])
           cv == IF op.i = 0 THEN DefaultColl(ch[1]) ELSE ValueOf(op.i)
       IN  IF ~SameShape(ch[1],cv) \/ (\E j \in 1..Len(ch) : ch[j].left # ch[1].left \/ ch[j].tn # ch[1].tn \/ ch[j].td # ch[1].td
                                         \/ \E k \in 1..comps[op.k].snap[j] : ch[j].nodes[k].k = "bridge")
           THEN Nothing(op,"skip")
           ELSE LET r == EvalNodes(ch,1,All(Len(ch[1].nodes)),cv) IN
                IF Bad(r) THEN Nothing(op,"stop") ELSE labels' = labels /\ NewColl(op,r)

--------------------------- (* observations *) ---------------------------
FJson(f) == SetToSeq({<<n,f[n]>> : n \in DOMAIN f})
VJson(v) == [N |-> v.N, f |-> FJson(v.f)]
DoDensity(op) ==  \* sequence over initial states of the states p, v
  IF op.i \notin 1..Len(colls) THEN Nothing(op,"skip")
  ELSE Observe(op, [k \in 1..Len(Entries(op.i)) |-> LET st == heap[Entries(op.i)[k].r].st IN [init |-> st.init, p |-> st.p, v |-> VJson(st.v)]])
DoHisto(op) ==    \* value of the named classical channels modulo L per state
  IF op.i \notin 1..Len(colls) THEN Nothing(op,"skip")
  ELSE IF ~AllChan(op.ch,colls[op.i].NC) \/ (\E k \in 1..Len(Entries(op.i)) : \E j \in 1..colls[op.i].NC :
             heap[Entries(op.i)[k].r].st.c[j][1] # "n") THEN Nothing(op,"skip")
  ELSE LET ch == IF op.ch = <<>> THEN All(colls[op.i].NC) ELSE op.ch IN
       IF ch = <<>> THEN Nothing(op,"skip")
       ELSE Observe(op, [k \in 1..Len(Entries(op.i)) |-> LET st == heap[Entries(op.i)[k].r].st IN
                 [init |-> st.init, p |-> st.p,
                  name |-> NameOf([j \in 1..Len(ch) |-> st.c[ch[j]+1][2] % colls[op.i].L], colls[op.i].L, colls[op.i].left)]])
DoCorr(op) ==     \* TRUE per pair and state if both values are equal, modulo L
  IF op.i \notin 1..Len(colls) THEN Nothing(op,"skip")
  ELSE IF (\E j \in 1..Len(op.pairs) : ~AllChan(op.pairs[j],colls[op.i].NC)) \/ (\E k \in 1..Len(Entries(op.i)) :
             LET st == heap[Entries(op.i)[k].r].st IN st.p = <<>> \/ \E j \in 1..colls[op.i].NC : st.c[j][1] # "n") THEN Nothing(op,"skip")
  ELSE Observe(op, [k \in 1..Len(Entries(op.i)) |-> LET st == heap[Entries(op.i)[k].r].st IN
                 [init |-> st.init, p |-> st.p,
                  eq |-> [j \in 1..Len(op.pairs) |-> st.c[op.pairs[j][1]+1][2] % colls[op.i].L = st.c[op.pairs[j][2]+1][2] % colls[op.i].L]]])
InnerF(f,g) == FoldSet(LAMBDA n,acc : CAdd(CMul(CConj(f[n]),g[n]),acc), CZero, DOMAIN f \cap DOMAIN g)
DoProduct(op) ==
  IF ~HasRef(op.w) \/ ~HasRef(op.u) THEN Nothing(op,"skip")
  ELSE LET a == Cell(op.w)
           b == Cell(op.u) IN
  IF a.sh.L # b.sh.L \/ a.sh.left # b.sh.left \/ SatMul(FWeight(a.st.v.f),FWeight(b.st.v.f)) > 1000000 THEN Nothing(op,"skip")
  ELSE CASE op.o = "inner" -> IF ~SameShape(a.sh,b.sh) THEN Nothing(op,"skip")
                              ELSE Observe(op,[c |-> InnerF(a.st.v.f,b.st.v.f), N1 |-> a.st.v.N, N2 |-> b.st.v.N])
         [] op.o = "outer" -> IF ~SameShape(a.sh,b.sh) THEN Nothing(op,"skip")
                              ELSE Observe(op,[N1 |-> a.st.v.N, N2 |-> b.st.v.N,
                                     e |-> SetToSeq({<<x,y,CMul(CConj(a.st.v.f[x]),b.st.v.f[y])>> : x \in DOMAIN a.st.v.f, y \in DOMAIN b.st.v.f})])
         [] op.o = "tensor" -> Observe(op,[N1 |-> a.st.v.N, N2 |-> b.st.v.N,
                                     e |-> SetToSeq({<<x \o y,CMul(a.st.v.f[x],b.st.v.f[y])>> : x \in DOMAIN a.st.v.f, y \in DOMAIN b.st.v.f})])
DoMatrix(op) ==
  IF op.c \notin 1..Len(circs) THEN Nothing(op,"skip")
  ELSE LET q == circs[op.c]
           (* an empty list stands for all nodes                                     *)
           ix == IF op.ix = <<>> THEN All(Len(q.nodes)) ELSE op.ix IN
       IF ix = <<>> \/ (\E j \in 1..Len(ix) : ~InChan(ix[j],Len(q.nodes))) THEN Nothing(op,"skip")
       ELSE IF \E j \in 1..Len(ix) : ~IsOptical(q.nodes[ix[j]+1])
            THEN Nothing(op, IF Len(op.ix) = 1 /\ q.nodes[op.ix[1]+1].k \in {"shift","cshift","coupl","fock"} THEN "skip" ELSE "refuse")
            ELSE LET cols == TLCEval(MatrixCols(q,ix)) IN
                 IF \E j \in 1..Len(cols) : ~cols[j].ok THEN Nothing(op,"skip")
                 ELSE Observe(op, [j \in 1..Len(cols) |-> VJson(cols[j])])
(* number of photons: the largest in any component, and whether all agree             *)
DoPhotons(op) ==
  IF ~HasRef(op.w) THEN Nothing(op,"skip")
  ELSE LET st == Cell(op.w).st
           tot == {FoldLeft(LAMBDA a,x : a+x, 0, n) : n \in DOMAIN st.v.f}
       IN  IF tot = {} THEN Nothing(op,"skip")
           ELSE Observe(op,[max |-> CHOOSE k \in tot : \A j \in tot : j <= k, all |-> Cardinality(tot) = 1, parts |-> Cardinality(DOMAIN st.v.f)])
(* the map between names and photon numbers of a circuit or collection: whatever is     *)
(* looked up, and in whatever way, the map stays the same. op.n may be anything.       *)
IndexOf(n,L) == FoldLeft(LAMBDA a,i : a * L + n[Len(n)+1-i], 0, [i \in 1..Len(n) |-> i])
DoLookup(op) ==
  IF op.w[2] \notin 1..(IF op.w[1] = "c" THEN Len(circs) ELSE Len(colls)) THEN Nothing(op,"skip")
  ELSE LET sh == ShapeOf(IF op.w[1] = "c" THEN circs[op.w[2]] ELSE colls[op.w[2]]) IN
       Observe(op,[L |-> sh.L, NO |-> sh.NO, left |-> sh.left, valid |-> ValidOcc(op.n,sh),
                   name |-> IF ValidOcc(op.n,sh) THEN NameOf(op.n,sh.L,sh.left) ELSE "",
                   index |-> IF ValidOcc(op.n,sh) THEN IndexOf(op.n,sh.L) ELSE 0])
(* a circuit, state and evaluation of their own, with many photons: op.f are pairs of    *)
(* photon numbers and coefficient, in powers of creation operators. What is seen is the *)
(* same form after the nodes, per outcome of the channels op.oc.                         *)
DoMany(op) ==
  LET f0 == FoldLeft(LAMBDA acc,x : AddTo(acc,x[1],x[2]), << >>, op.f)
      gs == TLCEval(Flat([i \in 1..Len(op.nodes) |-> OpticalGates(op.nodes[i])]))
      f == TLCEval(FoldLeft(LAMBDA acc,g : TLCEval(PowersGate(acc,g.g,g.a,g.b,op.L)), f0, gs))
      outs == {Outcome(n,op.oc) : n \in DOMAIN f}
  IN  IF f = << >> \/ FWeight(f) >= Cap THEN Nothing(op,"skip")
      ELSE Observe(op, SetToSeq({ <<o, SetToSeq({<<n,f[n]>> : n \in {m \in DOMAIN f : Outcome(m,op.oc) = o}})>> : o \in outs }))
(* calls that only report: nothing changes                                           *)
DoReport(op) ==
  IF op.what \in {"str","plot","repr","keys"} /\ op.i \notin 1..Len(colls) THEN Nothing(op,"skip")
  ELSE IF op.what \in {"draw","cstr","basis","station"} /\ op.i \notin 1..Len(circs) THEN Nothing(op,"skip")
  ELSE IF op.what \in {"kdraw","kstr","kstation"} /\ op.i \notin 1..Len(comps) THEN Nothing(op,"skip")
  (* there is nothing to draw in a circuit without nodes                             *)
  ELSE IF op.what = "draw" /\ circs[op.i].nodes = <<>> THEN Nothing(op,"refuse")
  ELSE IF op.what = "draw" /\ \E k \in 1..Len(circs[op.i].nodes) : circs[op.i].nodes[k].k = "bridge" THEN Nothing(op,"skip")
  ELSE IF op.what = "station" /\ (circs[op.i].nodes = <<>> \/ \E k \in 1..Len(circs[op.i].nodes) : circs[op.i].nodes[k].k = "bridge") THEN Nothing(op,"skip")
  ELSE IF op.what \in {"kdraw","kstation"} /\ (~comps[op.i].on \/ comps[op.i].act = <<>> \/ \E j \in 1..Len(comps[op.i].act) : comps[op.i].snap[j] = 0) THEN Nothing(op,"skip")
  ELSE Nothing(op,"do")

(* a drawing of circuit op.i, or of compound op.i, or of its stations op.st (sequence of *)
(* [o, c], channels of one station each) of which op.sd are drawn (<<>>: all)            *)
RECURSIVE BridgeChain(_,_)
BridgeChain(ci,fuel) ==
  LET ns == circs[ci].nodes IN
  IF fuel > 0 /\ ns # <<>> /\ ns[Len(ns)].k = "bridge" THEN << circs[ci] >> \o BridgeChain(ns[Len(ns)].next,fuel-1) ELSE << circs[ci] >>
Plainly(q,end) == \A k \in 1..Len(q.nodes) : q.nodes[k].k # "bridge" \/ (k = Len(q.nodes) /\ ~end)
StationOK(st,q) == /\ st.o \o st.c # <<>> /\ Distinct(st.o) /\ Distinct(st.c) /\ AllChan(st.o,q.NO) /\ AllChan(st.c,q.NC)
DoSketch(op) ==
  IF IF op.what = "comp" THEN op.i \notin 1..Len(comps) ELSE op.i \notin 1..Len(circs) THEN Nothing(op,"skip")
  ELSE IF op.what = "comp" /\ (~comps[op.i].on \/ comps[op.i].act = <<>>) THEN Nothing(op,"skip")
  ELSE IF op.what = "circ" /\ Cyclic(op.i) THEN Nothing(op,"skip")
  ELSE LET chain == IF op.what = "comp" THEN Chain(comps[op.i]) ELSE BridgeChain(op.i,4)
           NO == Max({chain[j].NO : j \in 1..Len(chain)})
           NC == Max({chain[j].NC : j \in 1..Len(chain)})
           ds == DrawnNodes(chain)
           rest == DrawnNodes(<<chain[Len(chain)]>>)
           which == IF op.sd = <<>> THEN [k \in 1..Len(op.st) |-> k] ELSE op.sd
           drawn == IF op.st = <<>> THEN << [o |-> All(NO), c |-> All(NC)] >> ELSE [k \in 1..Len(which) |-> op.st[which[k]]]
       IN  IF op.what = "circ" /\ op.st = <<>> /\ circs[op.i].nodes = <<>> THEN Nothing(op,"refuse")
           ELSE IF chain[Len(chain)].nodes = <<>> \/ \E j \in 1..Len(chain) : ~Plainly(chain[j],j = Len(chain)) THEN Nothing(op,"skip")
           ELSE IF op.st # <<>> /\ (\/ ~Distinct(which)
                                    \/ \E k \in 1..Len(which) : which[k] \notin 1..Len(op.st)
                                    \/ \E j \in 1..Len(chain) : chain[j].NO # NO \/ chain[j].NC # NC
                                    \/ \E k \in 1..Len(op.st) : ~StationOK(op.st[k],chain[1])
                                    \/ \E k,m \in 1..Len(op.st) : k # m /\ \E x \in 0..7 : (In(x,op.st[k].o) /\ In(x,op.st[m].o)) \/ (In(x,op.st[k].c) /\ In(x,op.st[m].c))
                                    \/ \E k \in 1..Len(drawn) : ~\E d \in 1..Len(rest) : Touches(rest[d],drawn[k]))
                THEN Nothing(op,"skip")
           ELSE Observe(op, [ds |-> ds, lab |-> \A j \in 1..Len(chain) : chain[j].NO = NO /\ chain[j].NC = NC, pics |-> [k \in 1..Len(drawn) |-> [o |-> drawn[k].o, c |-> drawn[k].c, links |-> IF op.st = <<>> THEN <<>> ELSE AllLinks(ds,op.st,which[k]), sk |-> Sketch(ds,drawn[k].o,drawn[k].c)]]])

Do(op) ==
  CASE op.o = "circ" -> DoCirc(op)
    [] op.o = "node" -> DoNode(op)
    [] op.o = "coll" -> DoNewColl(op)
    [] op.o = "state" -> DoNewState(op)
    [] op.o = "comps" -> DoComps(op)
    [] op.o \in {"cls","init","prob","pokerec","pokecls","pokeaux","pokeamp","sinit","setaux","norecs","badset"} -> DoSet(op)
    [] op.o = "screate" -> DoCreate(op)
    [] op.o = "dstate" -> DoDState(op)
    [] op.o = "dcoll" -> DoDColl(op)
    [] op.o = "fromd" -> DoFromDict(op)
    [] op.o = "photons" -> DoPhotons(op)
    [] op.o = "lookup" -> DoLookup(op)
    [] op.o = "scopy" -> DoCopyState(op)
    [] op.o = "add" -> DoAdd(op)
    [] op.o = "get" -> DoGet(op)
    [] op.o = "del" -> DoDel(op)
    [] op.o = "filt" -> DoFilter(op)
    [] op.o = "copy" -> DoCopy(op)
    [] op.o = "clear" -> DoClear(op)
    [] op.o = "default" -> DoDefault(op)
    [] op.o = "mix" -> DoMix(op)
    [] op.o = "reduce" -> DoReduce(op)
    [] op.o = "extend" -> DoExtend(op)
    [] op.o = "adjust" -> DoAdjust(op)
    [] op.o = "clean" -> DoClean(op)
    [] op.o = "eval" -> DoEval(op)
    [] op.o = "qop" -> DoOperator(op)
    [] op.o = "comp" -> DoComp(op)
    [] op.o = "refresh" -> DoRefresh(op)
    [] op.o = "cedit" -> DoCompEdit(op)
    [] op.o = "cclear" -> DoCompClear(op)
    [] op.o = "ceval" -> DoCompEval(op)
    [] op.o = "density" -> DoDensity(op)
    [] op.o = "histo" -> DoHisto(op)
    [] op.o = "corr" -> DoCorr(op)
    [] op.o \in {"inner","outer","tensor"} -> DoProduct(op)
    [] op.o = "matrix" -> DoMatrix(op)
    [] op.o = "many" -> DoMany(op)
    [] op.o = "report" -> DoReport(op)
    [] op.o = "sketch" -> DoSketch(op)
=================================================================================
