---------------------------------- MODULE Drawing ----------------------------------
(* Schematics of circuits. A node is drawn as markers on the channels it acts on; nodes *)
(* on a channel appear from left to right, page by page, in the order of evaluation.    *)
(* Drawn for stations, every station shows its own channels, in the order given, and    *)
(* the nodes that touch them. Nodes are told apart by the tag (n.tag) that their caller  *)
(* gave them as text on their markers; the two halves of a beamsplitter share it.        *)
EXTENDS Photonics

TwoChannels == {"wp","hwp","hwp45","hwp225","qwp","qwp45","qwp225","swap","mix50","mixg","custopt","wph","cwp","cwph"}
DrawnOpt(q,n) == CASE n.k \in TwoChannels -> << n.a, n.b >>
                   [] n.k \in {"phase","cphase"} -> << n.a >>
                   [] n.k = "pbs" -> << n.a[2], n.b[2] >>
                   [] n.k = "meas" -> n.oc
                   [] n.k \in {"shift","shiftd"} -> n.tg
                   [] n.k \in {"cshift","cshiftd","coupl"} -> n.ctl \o n.tg
                   [] n.k = "fock" -> All(q.NO)
                   [] n.k = "gen" -> IF n.own THEN n.ao ELSE All(q.NO)
                   [] n.k \in {"ham","delay","cdelay","width","pairs","boxes"} -> n.chs
                   [] OTHER -> << >>
DrawnCls(q,n) == CASE n.k \in {"cwp","cwph"} -> << n.ct, n.cp >>
                   [] n.k \in {"cphase","cdelay"} -> << n.cp >>
                   [] n.k = "meas" -> n.cc
                   [] n.k \in {"set","cfun"} -> IF "bare" \in DOMAIN n /\ n.bare THEN << >> ELSE n.ch
                   [] n.k = "gen" -> IF n.own THEN n.ac ELSE All(q.NC)
                   [] OTHER -> << >>
Tagged(n) == "tag" \in DOMAIN n
In(x,s) == \E i \in 1..Len(s) : s[i] = x
(* nodes of a chain of circuits                                                        *)
DrawnNodes(chain) ==
  Flat([j \in 1..Len(chain) |->
         LET q == chain[j]
             ks == SelectSeq([k \in 1..Len(q.nodes) |-> k], LAMBDA k : q.nodes[k].k # "bridge" /\ Tagged(q.nodes[k]))
         IN  [i \in 1..Len(ks) |-> [t |-> q.nodes[ks[i]].tag, o |-> DrawnOpt(q,q.nodes[ks[i]]), c |-> DrawnCls(q,q.nodes[ks[i]]),
                                           r |-> q.nodes[ks[i]].k \notin {"swap","pbs"}, m |-> q.nodes[ks[i]].k = "meas"]]])
(* what is seen on optical channels os and classical channels cs                        *)
OnChannel(ds,ch,Chans(_)) == LET s == SelectSeq(ds, LAMBDA d : In(ch,Chans(d))) IN [i \in 1..Len(s) |-> s[i].t]
Sketch(ds,os,cs) == [o |-> [i \in 1..Len(os) |-> OnChannel(ds,os[i],LAMBDA d : d.o)],
                     c |-> [i \in 1..Len(cs) |-> OnChannel(ds,cs[i],LAMBDA d : d.c)]]
(* the stations a node of station k is connected with: those that hold some of its       *)
(* channels, for a measurement those that hold the other end of a pair                  *)
Touches(d,st) == (\E i \in 1..Len(st.o) : In(st.o[i],d.o)) \/ (\E i \in 1..Len(st.c) : In(st.c[i],d.c))
Links(d,sts,k) ==
  SelectSeq([m \in 1..Len(sts) |-> m], LAMBDA m : m # k /\
    IF d.m THEN \E i \in 1..Len(d.o) : (In(d.o[i],sts[k].o) \/ In(d.c[i],sts[k].c)) /\ (In(d.o[i],sts[m].o) \/ In(d.c[i],sts[m].c))
    ELSE Touches(d,sts[m]))
AllLinks(ds,sts,k) == LET s == SelectSeq(ds, LAMBDA d : Touches(d,sts[k])) IN [i \in 1..Len(s) |-> <<s[i].t, Links(s[i],sts,k)>>]
(* a drawing is faithful if nodes have exactly their channels and any two nodes are in   *)
(* the same order on all the channels they share                                        *)
Tags(ds) == {ds[i].t : i \in 1..Len(ds)}
Faithful(ds,os,cs,sk) ==
  /\ \A i \in 1..Len(os) : {t \in Tags(ds) : In(t,sk.o[i])} = {ds[k].t : k \in {m \in 1..Len(ds) : In(os[i],ds[m].o)}}
  /\ \A i \in 1..Len(cs) : {t \in Tags(ds) : In(t,sk.c[i])} = {ds[k].t : k \in {m \in 1..Len(ds) : In(cs[i],ds[m].c)}}
  /\ \A x \in {sk.o[i] : i \in 1..Len(os)} \cup {sk.c[i] : i \in 1..Len(cs)} :
       \A a,b \in 1..Len(x) : a < b => x[a] <= x[b] \/ \E k,m \in 1..Len(ds) : k < m /\ ds[k].t = x[a] /\ ds[m].t = x[b]
=================================================================================
