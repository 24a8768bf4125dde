------------------------------ MODULE CallGraph -----------------------------
(* What the call graph of a program IS, given the artifacts of its build:      *)
(* symbols and mapping symbols of the executable, machine code, LLVM IR and    *)
(* compiler-recorded stack sizes of the application and of compiler_builtins.   *)
(* A program c is a record as written by mbv/harness.py:normalize.             *)
EXTENDS Common, Thumb

IsThumb(c) == c.tgt \in {"v6m", "v7m", "v7em", "v7emhf"}
IsV7(c) == c.tgt \in {"v7m", "v7em", "v7emhf"}

(* ------------------------------------------------------- names, functions -- *)
FSyms(c) == SelectSeq(c.syms, LAMBDA s : s.t = "F")
Addrs(c) == {s.a : s \in Range(FSyms(c))}
NamesAt(c, a) == LET f == SelectSeq(c.syms, LAMBDA s : s.t = "F" /\ s.a = a)
                     n == SelectSeq(c.syms, LAMBDA s : s.t = "N" /\ s.a = a)
                 IN [i \in DOMAIN f |-> f[i].name] \o [i \in DOMAIN n |-> n[i].name]
AllNames(c) == UNION {Range(NamesAt(c, a)) : a \in Addrs(c)}
AddrOf(c, name) == CHOOSE a \in Addrs(c) : name \in Range(NamesAt(c, a))
SizeAt(c, a) == FirstOf(FSyms(c), LAMBDA s : s.a = a)[1].sz
Undefined(c) == {u.name : u \in Range(c.undef)}

(* ------------------------------------------------------ compiler's record -- *)
(* local usage recorded for a name: application first (the linked code), then   *)
(* compiler_builtins; <<>> when there is none                                   *)
Rec1(tbl, name) == FirstOf(tbl, LAMBDA z : z.name = name)
RecordOf(c, name) == LET app == Rec1(c.szApp, name)
                         cb == Rec1(c.szCb, name)
                     IN IF app # <<>> THEN <<app[1].n>> ELSE IF cb # <<>> THEN <<cb[1].n>> ELSE <<>>
Recorded(c, a) == LET ns == NamesAt(c, a)
                      w == FirstOf(ns, LAMBDA n : RecordOf(c, n) # <<>>)
                  IN IF w = <<>> THEN <<>> ELSE RecordOf(c, w[1])
(* the names that may stand for the node                                        *)
Preferred(c, a) == LET ns == Range(NamesAt(c, a))
                       w == {n \in ns : RecordOf(c, n) # <<>>}
                   IN IF w = {} THEN ns ELSE w

\* the outliner numbers what it makes
IsOutlined(n) == /\ StartsWith("OUTLINED_FUNCTION_", n) /\ Len(n) > 18
                 /\ \A i \in 19 .. Len(n) : SubSeq(n, i, i) \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}

(* ------------------------------------------------------------------ the IR -- *)
AppNames(c) == {d.name : d \in Range(c.defApp)}
(* all definitions; the application's own win over compiler_builtins'           *)
Defs(c) == c.defApp \o SelectSeq(c.defCb, LAMBDA d : d.name \notin AppNames(c))
LiveDefs(c) == SelectSeq(Defs(c), LAMBDA d : d.name \in AllNames(c))
Decls(c) == c.decl \o c.declCb
DefinedAt(c, a) == \E d \in Range(Defs(c)) : d.name \in Range(NamesAt(c, a))
AsmAt(c, a) == \E d \in Range(Defs(c)) : d.name \in Range(NamesAt(c, a)) /\ \E s \in Range(d.st) : s.k = "asm"
(* types of the function at a: each of its names may have one of its own, as     *)
(* functions of different types may have been merged                             *)
TypeIn(defs, decls, ns) ==
  {FirstOf(defs, LAMBDA d : d.name = n)[1].sig : n \in {m \in Range(ns) : \E d \in Range(defs) : d.name = m}}
  \cup {FirstOf(decls, LAMBDA d : d.name = n)[1].sig :
           n \in {m \in Range(ns) : (\E d \in Range(decls) : d.name = m) /\ ~\E d \in Range(defs) : d.name = m}}
TypeOf(c, a) == TypeIn(TLCEval(Defs(c)), TLCEval(Decls(c)), NamesAt(c, a))
UntypedAt(c, a) == TypeOf(c, a) = {} /\ \E n \in Range(NamesAt(c, a)) : ~IsOutlined(n)
HasUntyped(c) == \E a \in Addrs(c) : UntypedAt(c, a)

(* -------------------------------------------------------------- signatures -- *)
LooseT(x, y) == \/ x.k = "ptr" /\ y.k \in {"ptr", "ptrto"}
                \/ x.k = "ptrto" /\ y.k = "ptr"
                \/ x = y
LooseEq(s, t) == /\ Len(s.ins) = Len(t.ins)
                 /\ \A i \in DOMAIN s.ins : LooseT(s.ins[i], t.ins[i])
                 /\ Len(s.out) = Len(t.out)
                 /\ \A i \in DOMAIN s.out : LooseT(s.out[i], t.out[i])
(* LLVM syntax, without blanks                                                  *)
RECURSIVE ShowT(_)
RECURSIVE ShowSig(_)
ShowSig(g) == (IF g.out = <<>> THEN "void" ELSE ShowT(g.out[1]))
              \o "(" \o JoinStr([i \in DOMAIN g.ins |-> ShowT(g.ins[i])], ",") \o ")"
ShowT(t) == CASE t.k = "int" -> "i" \o ToString(t.n)
              [] t.k \in {"ptr", "float", "double"} -> t.k
              [] t.k = "va" -> "..."
              [] t.k = "ptrto" -> ShowT(t.t) \o "*"
              [] t.k = "alias" -> "%\"" \o t.sn \o "\""
              [] t.k = "arr" -> "[" \o ToString(t.n) \o "x" \o ShowT(t.t) \o "]"
              [] t.k = "vec" -> "<" \o ToString(t.n) \o "x" \o ShowT(t.t) \o ">"
              [] t.k = "st" -> "{" \o JoinStr([i \in DOMAIN t.f |-> ShowT(t.f[i])], ",") \o "}"
              [] t.k = "pst" -> "<{" \o JoinStr([i \in DOMAIN t.f |-> ShowT(t.f[i])], ",") \o "}>"
              [] t.k = "fn" -> ShowSig(t.g)

(* -------------------------------------------------------------- intrinsics -- *)
Silent == {"llvm.dbg.value", "llvm.dbg.declare", "llvm.assume", "llvm.trap", "llvm.experimental.noalias.scope.decl",
           "llvm.x86.sse2.pause"}
SilentFamilies == {"llvm.lifetime.start", "llvm.lifetime.end", "llvm.abs.", "llvm.bswap.", "llvm.ctlz.", "llvm.cttz.",
   "llvm.sadd.with.overflow.", "llvm.smul.with.overflow.", "llvm.ssub.with.overflow.", "llvm.uadd.sat.",
   "llvm.uadd.with.overflow.", "llvm.umax.", "llvm.umin.", "llvm.umul.with.overflow.", "llvm.usub.sat.",
   "llvm.usub.with.overflow.", "llvm.vector.reduce.", "llvm.x86.sse2.pmovmskb."}
IsSilent(f) == f \in Silent \/ \E p \in SilentFamilies : StartsWith(p, f)
MemRoutines(f) ==
  CASE StartsWith("llvm.memcpy.", f) -> {"memcpy", "__aeabi_memcpy", "__aeabi_memcpy4", "__aeabi_memcpy8"}
    [] StartsWith("llvm.memmove.", f) -> {"memmove", "__aeabi_memmove", "__aeabi_memmove4", "__aeabi_memmove8"}
    [] StartsWith("llvm.memset.", f) -> {"memset", "__aeabi_memset", "__aeabi_memset4", "__aeabi_memset8", "memclr", "__aeabi_memclr", "__aeabi_memclr4", "__aeabi_memclr8"}
    [] OTHER -> {}

(* ------------------------------------------------------------------- edges -- *)
F(a) == <<"f", a>>          \* a function of the program
X(n) == <<"x", n>>          \* an undefined symbol
Sg(t) == <<"s", t>>         \* a fictitious indirect-call node
Node(c, name) == IF name \in AllNames(c) THEN F(AddrOf(c, name)) ELSE X(name)

(* what a direct call of f leads to: a set of nodes; Bad(..) when it must fail  *)
DirectTargets(c, f) ==
  IF StartsWith("llvm.", f)
  THEN IF IsThumb(c) \/ IsSilent(f) THEN {}
       ELSE {Node(c, r) : r \in {m \in MemRoutines(f) : m \in AllNames(c) \/ m \in Undefined(c)}}
  ELSE IF f = "memcmp" /\ f \notin AllNames(c) /\ f \notin Undefined(c) THEN {}
  ELSE {Node(c, f)}
DirectFails(c, f) ==
  \/ StartsWith("llvm.", f) /\ ~IsThumb(c) /\ ~IsSilent(f) /\ MemRoutines(f) = {}
  \/ ~StartsWith("llvm.", f) /\ f \notin AllNames(c) /\ f # "memcmp" /\ f \notin Undefined(c)

StmtTargets(c, s) == CASE s.k = "direct" -> DirectTargets(c, s.f)
                       [] s.k = "bitcast" -> {Node(c, s.f)}
                       [] OTHER -> {}
IrEdges(c) == UNION {UNION {{<<F(AddrOf(c, d.name)), t>> : t \in StmtTargets(c, s)} : s \in Range(d.st)} : d \in Range(LiveDefs(c))}
\* undefined symbols the live code calls
ExtCalled(c) == {t[2] : t \in {x \in UNION {UNION {StmtTargets(c, s) : s \in Range(d.st)} : d \in Range(LiveDefs(c))} : x[1] = "x"}}
IrFails(c) == \E d \in Range(LiveDefs(c)) : \E s \in Range(d.st) : s.k = "direct" /\ DirectFails(c, s.f)
              
(* --------------------------------------------------------- indirect calls -- *)
(* Formatting with typed pointers: `ArgumentV1.formatter` is a pseudo trait      *)
(* object, whose receiver type -- "the void" -- stands for every type.  The call *)
(* may reach every function that formats something.                              *)
FmtShape(k) == /\ Len(k.ins) = 2 /\ k.out # <<>> /\ k.out[1].k = "int" /\ k.out[1].n = 1
               /\ k.ins[1].k = "ptrto" /\ k.ins[2].k = "ptrto"
               /\ k.ins[2].t.k = "alias" /\ k.ins[2].t.s = "core::fmt::Formatter"
TheVoid(keys) ==
  LET vs == {k.ins[1].t.s : k \in {x \in keys : FmtShape(x) /\ x.ins[1].t.k = "alias"}}
      cs == {v \in vs : StartsWith("core::fmt::Void", v)}
  IN IF "fmt::Void" \in vs THEN <<"fmt::Void">>
     ELSE IF cs # {} THEN <<CHOOSE v \in cs : \A w \in cs : Len(v) <= Len(w)>>
     ELSE IF Cardinality(vs) = 1 THEN <<CHOOSE v \in vs : TRUE>> ELSE <<>>
IsVoidSig(k, void) == void # <<>> /\ FmtShape(k) /\ k.ins[1].t.k = "alias" /\ k.ins[1].t.s = void[1]
SigName(k) == ShowSig(k) \o "*"
\* everything about indirect calls, computed once: fictitious nodes, those without a candidate, and edges
SigInfo(c) ==
  LET live == TLCEval(LiveDefs(c))
      defs == TLCEval(Defs(c))
      decls == TLCEval(Decls(c))
      tt == TLCEval([a \in Addrs(c) |-> TypeIn(defs, decls, NamesAt(c, a))])
      \* <<caller, signature>>
      called == TLCEval(UNION {{<<AddrOf(c, d.name), s.g>> : s \in {x \in Range(d.st) : x.k = "indirect"}} : d \in Range(live)})
      keys == TLCEval(UNION {tt[a] : a \in DOMAIN tt})
      match == TLCEval([g \in {p[2] : p \in called} |-> {k \in keys : LooseEq(k, g)}])
      matched == TLCEval(UNION {match[g] : g \in DOMAIN match})
      unmatched == TLCEval({g \in DOMAIN match : match[g] = {}})
      void == TLCEval(TheVoid(keys \cup unmatched))
      formats == TLCEval({a \in DOMAIN tt : \E k \in tt[a] : FmtShape(k)})
      node == TLCEval([k \in matched \cup unmatched |-> Sg(SigName(IF IsVoidSig(k, void) THEN [k EXCEPT !.ins[1].t = [@ EXCEPT !.s = "fmt::Void", !.sn = "fmt::Void"]] ELSE k))])
  IN [nodes |-> {node[k] : k \in DOMAIN node},
      lonely |-> {node[k] : k \in {x \in unmatched : ~(IsVoidSig(x, void) /\ formats # {})}},
      raw |-> {ShowSig(k) : k \in {x \in unmatched : IsVoidSig(x, void)}},
      edges |-> UNION {{<<F(p[1]), node[k]>> : k \in IF match[p[2]] = {} THEN {p[2]} ELSE match[p[2]]} : p \in called}
                \cup UNION {{<<node[k], F(a)>> : k \in tt[a] \cap matched} : a \in DOMAIN tt}
                \cup UNION {{<<node[k], F(a)>> : a \in formats} : k \in {x \in matched \cup unmatched : IsVoidSig(x, void)}}]
SigNodes(c) == SigInfo(c).nodes
SigEdges(c) == SigInfo(c).edges

(* ------------------------------------------------------------ machine code -- *)
CodeAt(c, a) == FirstOf(c.code, LAMBDA x : x.a = a)[1].hw
SecAt(c, a) == FirstOf(c.secs, LAMBDA s : s.lo <= a /\ a < s.hi)
(* size in bytes of the code at a: the symbol's, or, for assembler symbols      *)
(* without one, up to the next function, code region or the end of the section  *)
EffSize(c, a) ==
  LET sz == SizeAt(c, a) IN
  IF sz # 0 THEN sz
  ELSE LET nextF == {b \in Addrs(c) : b > a}
           lim == IF nextF = {} THEN SecAt(c, a)[1].hi ELSE Min({Min(nextF), SecAt(c, a)[1].hi})
           here == {t \in Range(c.tags) : t.a = a /\ t.k = "t"}
           later == {t \in Range(c.tags) : t.a > a}
           nt == IF later = {} THEN 0 ELSE Min({t.a : t \in later})
       IN IF here # {} /\ later # {} /\ nt < lim /\ (\E t \in later : t.a = nt /\ t.k = "t")
          THEN nt - a ELSE lim - a
Mc(c, a) == LET sz == EffSize(c, a)
            IN Analyze(SubSeq(CodeAt(c, a), 1, sz \div 2), a, Pools(c.tags), IsV7(c))
(* [a -> summary], computed once                                                *)
McAll(c) == IF IsThumb(c) THEN TLCEval([a \in Addrs(c) |-> Mc(c, a)]) ELSE <<>>
McEdges(c, mc) == IF ~IsThumb(c) THEN {} ELSE
   UNION {{<<F(a), F(t)>> : t \in mc[a].calls \cup mc[a].leaves} : a \in Addrs(c)}
McFails(c, mc) == IsThumb(c) /\ \E a \in Addrs(c) : \E t \in mc[a].calls \cup mc[a].leaves : t \notin Addrs(c)

(* --------------------------------------------------------- local stack use -- *)
Known(n) == [st |-> "known", n |-> n]
Unknown == [st |-> "unknown", n |-> 0]
Contradiction == [st |-> "fail", n |-> 0]
LocalAt(c, mc, a) ==
  LET rec == Recorded(c, a) IN
  IF ~IsThumb(c) THEN IF rec = <<>> THEN Unknown ELSE Known(rec[1])
  ELSE LET m == mc[a]
           asm == AsmAt(c, a)
           out == \E n \in Preferred(c, a) : IsOutlined(n)
       IN IF rec = <<>>
          THEN IF m.stack # <<>> THEN Known(m.stack[1]) ELSE IF m.mod THEN Unknown ELSE Known(0)
          ELSE IF m.stack # <<>>
          THEN IF m.stack[1] = rec[1] THEN Known(rec[1])
               ELSE IF asm THEN Known(m.stack[1])
               ELSE IF out /\ rec[1] = 0 THEN Known(m.stack[1])
               ELSE IF out /\ m.mod THEN Known(rec[1])
               ELSE Contradiction
          ELSE IF (rec[1] # 0) = m.mod THEN Known(rec[1])
               ELSE IF asm THEN IF m.mod THEN Unknown ELSE Contradiction
               ELSE Contradiction
LocalFails(c, mc) == \E a \in Addrs(c) : LocalAt(c, mc, a).st = "fail"

(* ---------------------------------------------------------- unknown callee -- *)
AskNodes(c, mc) ==
  LET sig == SigInfo(c) IN
  (IF HasUntyped(c) THEN sig.nodes ELSE sig.lonely)
  \cup (IF IsThumb(c) THEN {F(a) : a \in {b \in Addrs(c) : mc[b].ind /\ ~DefinedAt(c, b)}} ELSE {})

(* -------------------------------------------------------------- the graph -- *)
HasRecords(c) == \E a \in Addrs(c) : Recorded(c, a) # <<>>
MustFail(c, mc) == IrFails(c) \/ McFails(c, mc) \/ LocalFails(c, mc)
RealEdges(c, mc) == IrEdges(c) \cup McEdges(c, mc)
Edges(c, mc) == RealEdges(c, mc) \cup SigEdges(c)
ExtNodes(c, mc) == {e[2] : e \in {x \in RealEdges(c, mc) : x[2][1] = "x"}}
Nodes(c, mc) == {F(a) : a \in Addrs(c)} \cup ExtNodes(c, mc) \cup SigNodes(c)

(* ------------------------------------------------------------------ labels -- *)
NmOf(c, n) == LET w == FirstOf(c.nm, LAMBDA x : x.raw = n) IN IF w = <<>> THEN [raw |-> n, path |-> n, hash |-> ""] ELSE w[1]
LongLabel(c, n) == LET x == NmOf(c, n) IN IF x.hash = "" THEN x.path ELSE x.path \o "::h" \o x.hash
ShortLabel(c, n) == NmOf(c, n).path
AnyLabels(c, a) == UNION {{LongLabel(c, n), ShortLabel(c, n)} : n \in Range(NamesAt(c, a))}
=============================================================================
