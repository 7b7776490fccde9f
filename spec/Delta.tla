---------------------------------- MODULE Delta ----------------------------------
(* What one call changed, as written out for the replay on the library.              *)
EXTENDS Props, IOUtils

StJson(st) == [init |-> st.init, p |-> st.p, v |-> VJson(st.v), c |-> st.c, m |-> st.m, x |-> st.x]
Delta ==
  [v |-> last'.v, obs |-> last'.obs,
   heap |-> LET rs == SelectSeq([r \in 1..Len(heap') |-> r], LAMBDA r : r > Len(heap) \/ heap'[r] # heap[r])
            IN  [k \in 1..Len(rs) |-> [r |-> rs[k], st |-> StJson(heap'[rs[k]].st), sh |-> heap'[rs[k]].sh]],
   colls |-> LET is == SelectSeq([i \in 1..Len(colls') |-> i], LAMBDA i : i > Len(colls) \/ colls'[i] # colls[i])
             IN  [k \in 1..Len(is) |-> [i |-> is[k], c |-> colls'[is[k]]]],
   hs |-> hs',
   nodes |-> [i \in 1..Len(circs') |-> Len(circs'[i].nodes)]]
=================================================================================
