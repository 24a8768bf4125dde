-------------------------------- MODULE Pair --------------------------------
(* Two runs on the same program: what a start point keeps (C04), what order    *)
(* may change (C21: nothing), and the two output formats (C20).                *)
EXTENDS Observe

(* the part R of an observed graph, in terms independent of node numbering     *)
Desc(o, id, i) == <<id[i], o.nodes[i].label, o.nodes[i].mk, o.nodes[i].mn, o.nodes[i].lx, o.nodes[i].ln, o.nodes[i].dashed>>
PNodes(o, id, R) == {Desc(o, id, i) : i \in R}
NumNodes(id, R) == {<<x, Cardinality({i \in R : id[i] = x})>> : x \in {id[i] : i \in R}}
EdgesIn(o, R) == {k \in DOMAIN o.edges : o.edges[k][1] \in R}
PEdges(o, id, R) == {<<<<id[o.edges[k][1]], id[o.edges[k][2]]>>, Cardinality({j \in EdgesIn(o, R) : o.edges[j][1] = o.edges[k][1] /\ id[o.edges[j][2]] = id[o.edges[k][2]]})>> : k \in EdgesIn(o, R)}
PClusters(o, id, R) == {{id[i] : i \in Range(cl)} : cl \in {x \in Range(o.clusters) : Range(x) \cap R # {}}}

SamePart(o, id, R, p, idp) ==
  LET S == DOMAIN p.nodes
      a == PNodes(o, id, R)
      b == PNodes(p, idp, S)
  IN Say(a = b, <<"nodes", a \ b, b \ a>>)
     \o Say(NumNodes(id, R) = NumNodes(idp, S), "number of nodes")
     \o Say(PEdges(o, id, R) = PEdges(p, idp, S), <<"edges", PEdges(o, id, R) \ PEdges(p, idp, S), PEdges(p, idp, S) \ PEdges(o, id, R)>>)
     \o Say(PClusters(o, id, R) = PClusters(p, idp, S), "clusters")

(* --------------------------------------------------------- start points ----- *)
(* the nodes a start point may name; every function and every undefined symbol  *)
(* of the graph                                                                 *)
NamesOf(c, x) == IF x[1] = "f" THEN Range(NamesAt(c, x[2])) ELSE {x[2]}
Startable(id) == {x \in Range(id) : x[1] \in {"f", "x"}}
Resolve(c, id, s) ==
  LET exact == {x \in Startable(id) : s \in NamesOf(c, x)}
      byPath == {x \in Startable(id) : \E n \in NamesOf(c, x) : NmOf(c, n).hash # "" /\ NmOf(c, n).path = s}
  IN IF exact # {} THEN exact ELSE IF Cardinality(byPath) = 1 THEN byPath ELSE {}

JStart(c, o, id, q) ==
  LET p == q.o
      idp == Ids(c, p)
      hit == Resolve(c, id, q.start)
      at == {i \in DOMAIN id : id[i] \in hit}
      R == IF hit = {} THEN DOMAIN o.nodes ELSE at \cup ReachFrom(Succ(o), at)
      res == IF p.rc # 0 \/ ~p.ok THEN <<<<"failed", p.rc, p.note>>>>
             ELSE SamePart(o, id, R, p, idp)
                  \o (IF hit = {} THEN Say(p.errn > o.errn, "nothing said about the start point") ELSE <<>>)
  IN IF res = <<>> THEN <<>> ELSE <<<<"start", q.start, res>>>>

RECURSIVE JoinSeqs(_)
JoinSeqs(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o JoinSeqs(Tail(ss))

JStarts(c, o, ps) ==
  IF MustFail(c, McAll(c)) THEN Say(\A k \in DOMAIN ps : ps[k].o.rc # 0 /\ ~ps[k].o.graph, "must fail, but did not")
  ELSE IF o.rc # 0 \/ ~o.ok THEN <<<<"failed", o.rc, o.note>>>>
  ELSE LET id == Ids(c, o)
       IN JFuncs(c, o, id) \o JoinSeqs([k \in DOMAIN ps |-> JStart(c, o, id, ps[k])])

(* ------------------------------------------------------------- orderings ---- *)
JSame(c, o, ps) ==
  IF o.rc # 0 \/ ~o.ok
  THEN JoinSeqs([k \in DOMAIN ps |-> Say(ps[k].o.rc # 0 /\ ~ps[k].o.graph /\ ~o.graph, <<"one run fails, another does not", o.rc, ps[k].o.rc>>)])
  ELSE LET id == Ids(c, o)
       IN JoinSeqs([k \in DOMAIN ps |->
            IF ps[k].o.rc # 0 \/ ~ps[k].o.ok THEN <<<<"one run fails, another does not", ps[k].o.rc, ps[k].o.note>>>>
            ELSE SamePart(o, id, DOMAIN o.nodes, ps[k].o, Ids(c, ps[k].o))])

(* ------------------------------------------------------------ top format ---- *)
(* t: [rc, ok, first, lines: seq of [n, name]]; the same program and start      *)
LocalShown(nd) == IF nd.lx THEN nd.ln ELSE 0
JTop(o, t) ==
  IF o.rc # 0 \/ ~o.ok THEN Say(t.rc # 0, <<"failed", o.rc, o.note>>)
  ELSE IF t.rc # 0 \/ ~t.ok THEN <<<<"top failed", t.rc, t.note>>>>
  ELSE LET want == {<<LocalShown(o.nodes[i]), o.nodes[i].raw>> : i \in DOMAIN o.nodes}
           cntW(x) == Cardinality({i \in DOMAIN o.nodes : <<LocalShown(o.nodes[i]), o.nodes[i].raw>> = x})
           got == {<<l.n, l.name>> : l \in Range(t.lines)}
           cntG(x) == Cardinality({k \in DOMAIN t.lines : <<t.lines[k].n, t.lines[k].name>> = x})
       IN Say(want = got, <<"lines", want \ got, got \ want>>)
          \o Say(\A x \in want : cntW(x) = cntG(x), "how often")
          \o Say(\A k \in 1..(Len(t.lines) - 1) : t.lines[k].n >= t.lines[k + 1].n, "not in order")
          \o Say(o.nodes = <<>> \/ t.first = MaxSet0({o.nodes[i].mn : i \in DOMAIN o.nodes}), <<"first line", t.first>>)
JTops(o, ps) == JoinSeqs([k \in DOMAIN ps |-> JTop(ps[k].o, ps[k].t)])
=============================================================================
