------------------------------- MODULE Observe ------------------------------
(* Reads an observed run o of the tool on program c (as recorded by            *)
(* mbv/harness.py:observe) back into the vocabulary of CallGraph, and says,     *)
(* property by property, whether the specification allows it.                    *)
EXTENDS CallGraph, MaxSpec

(* ---------------------------------------------- identity of observed nodes -- *)
(* tab: [a -> <<long labels, short labels, short labels of the representing name, its long labels>>] *)
LabelTab(c) == TLCEval([a \in Addrs(c) |-> <<{LongLabel(c, n) : n \in Range(NamesAt(c, a))}, {ShortLabel(c, n) : n \in Range(NamesAt(c, a))}, {ShortLabel(c, n) : n \in Preferred(c, a)}, {LongLabel(c, n) : n \in Preferred(c, a)}>>])
IdOf(c, o, i, tab, mc, called, undefd) ==
  LET nd == o.nodes[i]
      hits(k) == {a \in DOMAIN tab : nd.label \in tab[a][k]}
      lp == hits(4)
      lh == IF lp # {} THEN lp ELSE hits(1)
      sh == hits(2)
      rep == hits(3)     \* the name that represents a function comes first
      \* undefined symbols that live code calls come first: two undefined symbols may share a path
      shown(n) == LongLabel(c, n) = nd.label \/ ShortLabel(c, n) = nd.label
      exts == LET w == {n \in called : shown(n)} IN IF w # {} THEN w ELSE {n \in undefd : shown(n)}
  IN IF nd.dashed THEN Sg(nd.label)
     ELSE IF Cardinality(lh) > 1 /\ mc # <<>>    \* local symbols of one name: their stack usage tells them apart
          THEN LET w == {a \in lh : LocalAt(c, mc, a) = [st |-> "known", n |-> nd.ln] /\ nd.lx} IN F(Min(IF w = {} THEN lh ELSE w))
     ELSE IF lp # {} THEN F(Min(lp))
     \* undefined symbols whose names carry no hash
     ELSE IF \E n \in called : LongLabel(c, n) = nd.label THEN X(CHOOSE n \in called : LongLabel(c, n) = nd.label)
     \* what an alias that does not represent its function is called comes last
     ELSE IF rep # {} THEN F(Min(rep))
     ELSE IF \E n \in called : shown(n) THEN X(CHOOSE n \in called : shown(n))
     ELSE IF lh # {} THEN F(Min(lh))
     ELSE IF sh # {} THEN F(Min(sh))
     ELSE IF exts # {} THEN X(CHOOSE n \in exts : TRUE)
     ELSE IF nd.label = "?" THEN <<"q">>
     ELSE <<"bad", nd.label>>
(* undefined symbols that live code calls                                      *)
Called(c) == TLCEval(ExtCalled(c))
RECURSIVE SumSnd(_)
SumSnd(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[2] + SumSnd(S \ {x})
Ids(c, o) == LET tab == LabelTab(c)
                 dup == Cardinality(UNION {tab[a][1] : a \in DOMAIN tab}) < SumSnd({<<a, Cardinality(tab[a][1])>> : a \in DOMAIN tab})
                 mc == IF dup THEN McAll(c) ELSE <<>>
                 called == Called(c)
                 undefd == TLCEval(Undefined(c))
             IN TLCEval([i \in DOMAIN o.nodes |-> IdOf(c, o, i, tab, mc, called, undefd)])
ObsEdges(o, id) == {<<id[e[1]], id[e[2]]>> : e \in Range(o.edges)}
IsQ(x) == x[1] = "q"
IsS(x) == x[1] = "s"
IsReal(x) == x[1] \in {"f", "x", "bad"}

(* ----------------------------------------------------------- projections --- *)
Real(E) == {e \in E : IsReal(e[1]) /\ IsReal(e[2])}
Sig(E) == {e \in E : (IsS(e[1]) /\ ~IsQ(e[2])) \/ IsS(e[2])}
Ask(E) == {e[1] : e \in {x \in E : IsQ(x[2])}}
NoParallel(o) == Cardinality(Range(o.edges)) = Len(o.edges)
Succ(o) == [i \in DOMAIN o.nodes |-> {e[2] : e \in {x \in Range(o.edges) : x[1] = i}}]
(* how many nodes have the identity x                                          *)
Count(id, x) == Cardinality({i \in DOMAIN id : id[i] = x})

(* ------------------------------------------------------------ judgements --- *)
(* every judgement is a sequence of complaints; <<>> means allowed             *)
Say(b, what) == IF b THEN <<>> ELSE <<what>>

JFuncs(c, o, id) ==       \* one node per address
  Say(\A a \in Addrs(c) : Count(id, F(a)) = 1, "not exactly one node for some function")
  \o Say(~\E i \in DOMAIN id : id[i][1] = "bad", "a node that is no function of the program")

JReal(c, o, id, mc) ==
  LET obs == Real(ObsEdges(o, id))
      want == RealEdges(c, mc)
  IN Say(want \subseteq obs, <<"missing edges", want \ obs>>)
     \o Say(obs \subseteq want, <<"invented edges", obs \ want>>)
     \o Say(NoParallel(o), "the same edge twice")
     \o Say({x \in Range(id) : x[1] = "x"} = ExtNodes(c, mc), "undefined callees")
     \o Say(\A i \in DOMAIN id : id[i][1] = "x" =>
          Count(id, id[i]) <= Cardinality({n \in Called(c) : LongLabel(c, n) = o.nodes[i].label \/ ShortLabel(c, n) = o.nodes[i].label}), "two nodes for one undefined symbol")
  \o Say(\A i \in DOMAIN id : id[i][1] = "x" => ~o.nodes[i].lx, "an undefined symbol has known usage")

JSig(c, o, id) ==
  LET obs == Sig(ObsEdges(o, id))
      sig == TLCEval(SigInfo(c))
      want == sig.edges
  IN Say(want \subseteq obs, <<"missing indirect edges", want \ obs>>)
     \o Say(obs \subseteq want, <<"invented indirect edges", obs \ want>>)
     \o Say({x \in Range(id) : IsS(x)} = sig.nodes, <<"indirect call nodes", {x \in Range(id) : IsS(x)}, sig.nodes>>)
     \o Say(\A i \in DOMAIN id : IsS(id[i]) => Count(id, id[i]) = 1, "two nodes for one signature")
     \o Say(\A i \in DOMAIN id : IsS(id[i]) => o.nodes[i].lx /\ o.nodes[i].ln = 0, "an indirect call node uses stack")

JAsk(c, o, id, mc) ==
  Say(Ask(ObsEdges(o, id)) = AskNodes(c, mc), <<"callers of ?", Ask(ObsEdges(o, id)), AskNodes(c, mc)>>)
  \o Say(\A i \in DOMAIN id : IsQ(id[i]) => ~o.nodes[i].lx /\ Succ(o)[i] = {} /\ \E e \in Range(o.edges) : e[2] = i,
         "a ? node that is known, calls or is not called")

JLocal(c, o, id, mc) ==
  LET bad == {i \in DOMAIN id : id[i][1] = "f" /\
                LET l == LocalAt(c, mc, id[i][2])
                IN ~(o.nodes[i].lx = (l.st = "known") /\ (l.st = "known" => o.nodes[i].ln = l.n))}
  IN Say(bad = {}, <<"local stack usage", {<<o.nodes[i].label, o.nodes[i].lx, o.nodes[i].ln, LocalAt(c, mc, id[i][2])>> : i \in bad}>>)

(* what is unknown is shown as unknown: missing data, undefined symbols, `?`     *)
JUnknown(c, o, id, mc) ==
  LET bad == {i \in DOMAIN id : /\ o.nodes[i].lx
                                 /\ \/ id[i][1] \in {"x", "q"}
                                    \/ (id[i][1] = "f" /\ LocalAt(c, mc, id[i][2]).st = "unknown")}
  IN Say(bad = {}, <<"known although it is not", {o.nodes[i].label : i \in bad}>>)

(* labels *)
JNames(c, o, id) ==
  Say(\A i \in DOMAIN id : id[i][1] = "f" =>
        \E n \in Preferred(c, id[i][2]) : o.nodes[i].label \in {LongLabel(c, n), ShortLabel(c, n)},
      "not labelled by the name that has a stack size")

(* the name that represents a node, among those it may be labelled by          *)
Short(c, a) == {ShortLabel(c, n) : n \in Preferred(c, a)}
JShort(c, o, id) ==
  LET shown(i) == o.nodes[i].label
      names(i) == IF id[i][1] = "f" THEN Preferred(c, id[i][2]) ELSE {id[i][2]}
      \* everything else in the whole program (start point or not) that could be shown under the same path
      clash(i, nm) == \/ \E b \in Addrs(c) : id[i] # F(b) /\ \E m \in Preferred(c, b) : NmOf(c, m).path = nm.path
                      \/ \E x \in ExtCalled(c) : id[i] # X(x) /\ NmOf(c, x).path = nm.path
      ok(i) == \E n \in names(i) :
                 LET nm == NmOf(c, n)
                 IN IF nm.hash = "" THEN shown(i) = nm.path
                    ELSE IF clash(i, nm) THEN shown(i) = LongLabel(c, n)
                    ELSE shown(i) = nm.path
      bad == {i \in DOMAIN id : id[i][1] \in {"f", "x"} /\ ~ok(i)}
  IN Say(bad = {}, <<"labels", {shown(i) : i \in bad}>>)

(* maxima and clusters are judged on the observed graph itself                   *)
JMax(o, which) ==
  LET S == DOMAIN o.nodes
      succ == Succ(o)
      want == ExpectedMax(S, succ, [i \in S |-> [x |-> o.nodes[i].lx, n |-> o.nodes[i].ln]])
      some == \E i \in S : o.nodes[i].mk # "none"
      R == ReachPlus(S, succ)
      cyclic(i) == \E j \in R[i] \cup {i} : j \in R[j]
      sel == CASE which = "acyclic" -> {i \in S : ~cyclic(i)}
               [] which = "cyclic" -> {i \in S : cyclic(i)}
               [] OTHER -> S
      bad == {i \in sel : ~(o.nodes[i].mk = want[i].k /\ o.nodes[i].mn = want[i].n)}
      over == {i \in S : o.nodes[i].mk = "eq" /\ want[i].k = "ge"}
  IN IF ~some THEN <<>>
     ELSE IF which = "honest"
     THEN Say(over = {}, <<"exact although unknown", {o.nodes[i].label : i \in over}>>)
          \o Say({i \in S : want[i].k = "ge" /\ (o.nodes[i].mk = "none" \/ o.nodes[i].mn # want[i].n)} = {}, "wrong lower bound")
          \o Say({i \in S : want[i].k = "eq" /\ o.nodes[i].mk = "ge"} = {}, "a lower bound although everything is known")
     ELSE Say(bad = {}, <<"max", {<<o.nodes[i].label, o.nodes[i].mk, o.nodes[i].mn, want[i]>> : i \in bad}>>)
JClusters(o) ==
  IF ~\E i \in DOMAIN o.nodes : o.nodes[i].mk # "none" THEN <<>>   \* without any stack data there is no analysis
  ELSE
  LET S == DOMAIN o.nodes
      want == ExpectedClusters(S, Succ(o))
      obs == {Range(cl) : cl \in Range(o.clusters)}
  IN Say(obs = want, <<"clusters", obs, want>>)
     \o Say(\A k \in DOMAIN o.clusters : Cardinality(Range(o.clusters[k])) = Len(o.clusters[k]), "a node twice in a cluster")
     \o Say(Cardinality(obs) = Len(o.clusters), "a cluster twice")
JHasMax(c, o) == Say((\E i \in DOMAIN o.nodes : o.nodes[i].mk # "none") \/ ~HasRecords(c), "no maxima at all")

(* ------------------------------------------------------------- one record --- *)
Judge(prop, c, o) ==
  LET mc == McAll(c)
      id == Ids(c, o)
  IN IF MustFail(c, mc)
     THEN Say(o.rc # 0 /\ ~o.graph, "must fail, but did not")
     \* C11: what cannot be read may be refused, honestly
     ELSE IF c.may /\ o.rc > 0 THEN Say(~o.graph, "a graph although it failed")
     ELSE IF o.rc # 0 \/ ~o.ok THEN <<<<"failed", o.rc, o.note>>>>
     ELSE CASE prop = "C01" -> JMax(o, "acyclic") \o JHasMax(c, o)
            [] prop = "C02" -> JMax(o, "cyclic") \o JClusters(o) \o JHasMax(c, o)
            [] prop = "C03" -> JMax(o, "honest") \o JHasMax(c, o) \o JUnknown(c, o, id, mc)
            [] prop = "C05" -> JFuncs(c, o, id) \o JReal(c, o, id, mc)
            [] prop = "C06" -> JFuncs(c, o, id) \o JReal(c, o, id, mc)
            [] prop = "C07" -> JFuncs(c, o, id) \o JSig(c, o, id)
            [] prop = "C08" -> JFuncs(c, o, id) \o JLocal(c, o, id, mc)
            [] prop = "C09" -> JFuncs(c, o, id) \o JLocal(c, o, id, mc)
            [] prop = "C10" -> JFuncs(c, o, id) \o JNames(c, o, id) \o JReal(c, o, id, mc) \o JSig(c, o, id) \o JLocal(c, o, id, mc) \o JAsk(c, o, id, mc)
            [] prop = "C11" -> JFuncs(c, o, id) \o JReal(c, o, id, mc) \o JSig(c, o, id)
            [] prop = "C12" -> JFuncs(c, o, id) \o JSig(c, o, id)
            [] prop = "C13" -> JFuncs(c, o, id) \o JReal(c, o, id, mc)
            [] prop = "C19" -> JFuncs(c, o, id) \o JShort(c, o, id)
            [] prop = "C22" -> JFuncs(c, o, id) \o JAsk(c, o, id, mc)
            [] prop = "C23" -> JFuncs(c, o, id) \o JReal(c, o, id, mc) \o JLocal(c, o, id, mc)
            [] prop = "ALL" -> JFuncs(c, o, id) \o JReal(c, o, id, mc) \o JSig(c, o, id) \o JAsk(c, o, id, mc)
                               \o JLocal(c, o, id, mc) \o JShort(c, o, id) \o JMax(o, "all") \o JClusters(o)
=============================================================================
