--------------------------------- MODULE Dot ---------------------------------
(* Reading the DOT text itself (C18), after the DOT grammar: a double-quoted    *)
(* string ends at the first quote that is not escaped; in it \" stands for a    *)
(* quote and every other escape stays, to be interpreted when the label is      *)
(* drawn: \\ is a backslash, \n ends a line.                                    *)
EXTENDS Observe

Ch(s, i) == SubSeq(s, i, i)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE Trim(_)
Trim(s) == IF s # "" /\ Ch(s, 1) \in {" ", "\t"} THEN Trim(DropN(1, s)) ELSE s
RECURSIVE NumEnd(_, _)
NumEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Digits THEN NumEnd(s, i + 1) ELSE i

(* scan a quoted string whose first character is at i: <<text, index after the  *)
(* closing quote>>; index 0 if it is not closed                                 *)
RECURSIVE Quoted(_, _, _)
Quoted(s, i, acc) ==
  IF i > Len(s) THEN <<acc, 0>>
  ELSE IF Ch(s, i) = "\"" THEN <<acc, i + 1>>
  ELSE IF Ch(s, i) = "\\" /\ i < Len(s)
       THEN IF Ch(s, i + 1) = "\"" THEN Quoted(s, i + 2, acc \o "\"")
            ELSE Quoted(s, i + 2, acc \o Ch(s, i) \o Ch(s, i + 1))
  ELSE Quoted(s, i + 1, acc \o Ch(s, i))

(* a label's text as lines                                                      *)
RECURSIVE Drawn(_, _, _, _)
Drawn(s, i, cur, lines) ==
  IF i > Len(s) THEN Append(lines, cur)
  ELSE IF Ch(s, i) = "\\" /\ i < Len(s)
       THEN IF Ch(s, i + 1) \in {"n", "l", "r"} THEN Drawn(s, i + 2, "", Append(lines, cur))
            ELSE Drawn(s, i + 2, cur \o Ch(s, i + 1), lines)
  ELSE Drawn(s, i + 1, cur \o Ch(s, i), lines)

(* one line of output -> [k, ...]                                              *)
ReadLine(l) ==
  LET t == Trim(l)
      d == NumEnd(t, 1)
      rest == DropN(d - 1, t)
      num == SubSeq(t, 1, d - 1)
  IN CASE t = "" -> [k |-> "blank"]
       [] t = "digraph {" -> [k |-> "open"]
       [] t = "}" -> [k |-> "close"]
       [] StartsWith("node [", t) \/ StartsWith("edge [", t) \/ StartsWith("graph [", t) -> [k |-> "attr"]
       [] StartsWith("subgraph cluster", t) /\ Ch(t, Len(t)) = "{" -> [k |-> "sub", name |-> t]
       [] d > 1 /\ rest = "" -> [k |-> "member", a |-> num]
       [] d > 1 /\ StartsWith(" -> ", rest) ->
            LET r == DropN(4, rest) IN IF r # "" /\ NumEnd(r, 1) = Len(r) + 1 THEN [k |-> "edge", a |-> num, b |-> r] ELSE [k |-> "bad", l |-> l]
       [] d > 1 /\ StartsWith(" [label=\"", rest) ->
            LET q == Quoted(rest, 10, "")
            IN IF q[2] # 0 /\ DropN(q[2] - 1, rest) \in {"]", " style=dashed]"}
               THEN [k |-> "node", a |-> num, lines |-> Drawn(q[1], 1, "", <<>>), dashed |-> DropN(q[2] - 1, rest) # "]"]
               ELSE [k |-> "bad", l |-> l]
       [] d = 1 /\ \E i \in 1..Len(t) : Ch(t, i) = "=" -> [k |-> "attr"]
       [] OTHER -> [k |-> "bad", l |-> l]

RECURSIVE NoBlanks(_, _)
NoBlanks(s, i) == IF i > Len(s) THEN "" ELSE (IF Ch(s, i) = " " THEN "" ELSE Ch(s, i)) \o NoBlanks(s, i + 1)

(* part: only what a start point keeps is shown                                 *)
JDot(c, text, part) ==
  LET r == TLCEval([i \in DOMAIN text |-> ReadLine(text[i])])
      at(k) == {i \in DOMAIN r : r[i].k = k}
      nodes == at("node")
      num == TLCEval({r[i].a : i \in nodes})
      N == Cardinality(nodes)
      (* depth of braces before line i *)
      opens(i) == Cardinality({j \in at("open") \cup at("sub") : j < i})
      closes(i) == Cardinality({j \in at("close") : j < i})
      depth(i) == opens(i) - closes(i)
      names == TLCEval(UNION {AnyLabels(c, a) : a \in Addrs(c)} \cup UNION {{LongLabel(c, u), ShortLabel(c, u)} : u \in Undefined(c)} \cup {"?"})
      sigs == {x[2] : x \in SigNodes(c)}
      okLocal(s) == s = "local = ?" \/ (StartsWith("local = ", s) /\ Len(s) > 8 /\ NumEnd(s, 9) = Len(s) + 1)
      okMax(s) == \/ StartsWith("max = ", s) /\ Len(s) > 6 /\ NumEnd(s, 7) = Len(s) + 1
                  \/ StartsWith("max >= ", s) /\ Len(s) > 7 /\ NumEnd(s, 8) = Len(s) + 1
      okNode(n) == /\ Len(n.lines) \in {2, 3}
                   /\ okLocal(n.lines[Len(n.lines)])
                   /\ Len(n.lines) = 3 => okMax(n.lines[2])
                   /\ IF n.dashed THEN NoBlanks(n.lines[1], 1) \in sigs ELSE n.lines[1] \in names
      badNodes == {i \in nodes : ~okNode(r[i])}
  IN Say(at("bad") = {}, <<"not DOT", {r[i].l : i \in at("bad")}>>)
     \o Say(at("open") = {1} /\ (\A i \in DOMAIN r : i > 1 /\ r[i].k # "blank" => depth(i) >= 1) /\ depth(Len(r) + 1) = 0, "braces")
     \o Say(num = {ToString(i) : i \in 0..(N - 1)}, <<"node ids", num>>)
     \o Say(\A i \in at("edge") : r[i].a \in num /\ r[i].b \in num /\ depth(i) = 1, "dangling edge")
     \o Say(\A i \in at("member") : r[i].a \in num /\ depth(i) = 2, "dangling cluster member")
     \o Say(\A i, j \in at("sub") : i # j => r[i].name # r[j].name, "clusters of one name are one cluster")
     \o Say(\A i \in nodes : depth(i) = 1, "node inside a cluster")
     \o Say(badNodes = {}, <<"labels", {r[i].lines : i \in badNodes}>>)
     \o Say(badNodes # {} \/ part \/ (names \ {"?"} # {} => \A a \in Addrs(c) : \E i \in nodes : r[i].lines[1] \in AnyLabels(c, a)), "a function without its label")

(* what the labels say is what was meant                                        *)
JRead(c, o, part) ==
  IF ~o.ok THEN <<<<"unreadable", o.note>>>>
  ELSE LET mc == McAll(c)
           id == Ids(c, o)
       IN (IF part THEN <<>> ELSE JFuncs(c, o, id)) \o JLocal(c, o, id, mc) \o JMax(o, "all")
=============================================================================
