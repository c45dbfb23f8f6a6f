------------------------------ MODULE UrdfAccept ------------------------------
(* Every small document, legal or not: the acceptance predicate of Urdf.tla   *)
(* against an independent formulation, and the documents to open for real.    *)
EXTENDS Urdf, Json
CONSTANTS NLINK, NJOINT, MIMIC, EMIT
VARIABLE doc
LN == <<"a", "b", "c", "d", "e", "f">>
JN == <<"x", "w", "z", "y", "v", "u">>
LNames == { LN[i] : i \in 1..NLINK }
JNames == { JN[i] : i \in 1..NJOINT }
LinkNamings == IF NLINK <= 2 THEN [1..NLINK -> LNames] ELSE { [i \in 1..NLINK |-> LN[i]] }
JointNamings == IF NJOINT <= 2 THEN [1..NJOINT -> JNames] ELSE { [i \in 1..NJOINT |-> JN[i]] }
Ends == IF NJOINT <= 2 THEN LNames \cup {"0", "zz"} ELSE LNames
J(n, pa, ch, mi) == [k |-> "joint", n |-> n, pa |-> pa, ch |-> ch, ty |-> "revolute", mi |-> mi]
L(n) == [k |-> "link", n |-> n, els |-> <<>>]
TreeDocs(w) == { [i \in 1..NLINK |-> L(x[1][i])] \o [i \in 1..NJOINT |-> J(x[2][i], x[3][i], x[4][i], "")] :
                x \in LinkNamings \X JointNamings \X [1..NJOINT -> Ends] \X [1..NJOINT -> Ends] }
MimicDocs(w) == { [i \in 1..NLINK |-> L(LN[i])] \o [i \in 1..NJOINT |-> J(JN[i], LN[(i + 1) \div 2], LN[i + 1], mi[i])] :
                mi \in [1..NJOINT -> JNames \cup {"", "aa", "zz"}] }
Init == doc \in (IF MIMIC THEN MimicDocs(0) ELSE TreeDocs(0))
Next == UNCHANGED doc
Spec == Init /\ [][Next]_doc

(* a tree, said differently: one joint less than links, and from every link   *)
(* climbing as many times as there are links ends at the same link            *)
RECURSIVE Climb(_, _, _)
Climb(js, l, n) ==
  LET up == { i \in 1..Len(js) : js[i].ch = l } IN
  IF n = 0 \/ up = {} THEN l ELSE Climb(js, js[CHOOSE i \in up : TRUE].pa, n - 1)
RECURSIVE Chase(_, _, _)
Chase(js, n, k) ==
  IF n = "" THEN "end" ELSE IF n \notin NameSet(js) THEN "dangling" ELSE IF k = 0 THEN "loop"
  ELSE Chase(js, MimicOf(js, n), k - 1)
IsTree2 ==
  LET ls == LinksOf(doc) js == JointsOf(doc) IN
  /\ Cardinality(NameSet(ls)) = NLINK /\ Cardinality(NameSet(js)) = NJOINT
  /\ NLINK > 0 /\ NJOINT = NLINK - 1
  /\ \A i \in 1..Len(js) : {js[i].pa, js[i].ch} \subseteq NameSet(ls)
  /\ Cardinality({ js[i].ch : i \in 1..Len(js) }) = NJOINT
  /\ \A i \in 1..NLINK : Climb(js, ls[i].n, NLINK) \in RootCandidates(doc)
  /\ \A i \in 1..NJOINT : Chase(js, js[i].n, NJOINT) = "end"
Same == IsTree(doc) <=> IsTree2
Emit == EMIT => PrintT(<<"H", ToJson([doc |-> doc])>>)
=============================================================================
