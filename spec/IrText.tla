------------------------------- MODULE IrText -------------------------------
(* How LLVM prints call instructions, function headers and what stands around  *)
(* them (C11).  A line is built slot by slot, as the grammar of the language    *)
(* reference lists them; the first alternative of a slot is the plain one, and  *)
(* at most Dev slots deviate from it.  A complete line is a text together with   *)
(* what it means: a direct call, a call through a pointer, inline assembly or    *)
(* no call at all.  k = "gone" calls something that is not in the program.      *)
EXTENDS Common, Json, IOUtils
Dev == atoi(IOEnv.DEV)
Form == IOEnv.FORM          \* "call", "define", "noise"

I(n) == [k |-> "int", n |-> n]
P == [k |-> "ptr"]
Fl == [k |-> "float"]
Db == [k |-> "double"]
Va == [k |-> "va"]
Al(s) == [k |-> "alias", s |-> s, sn |-> s]
St(f) == [k |-> "st", f |-> f]
Ar(n, t) == [k |-> "arr", n |-> n, t |-> t]
Ve(n, t) == [k |-> "vec", n |-> n, t |-> t]

RECURSIVE TT(_)
TT(t) == CASE t.k = "int" -> "i" \o ToString(t.n)
           [] t.k \in {"ptr", "float", "double"} -> t.k
           [] t.k = "va" -> "..."
           [] t.k = "alias" -> "%\"" \o t.s \o "\""
           [] t.k = "arr" -> "[" \o ToString(t.n) \o " x " \o TT(t.t) \o "]"
           [] t.k = "vec" -> "<" \o ToString(t.n) \o " x " \o TT(t.t) \o ">"
           [] t.k = "st" -> IF t.f = <<>> THEN "{}" ELSE "{ " \o JoinStr([i \in DOMAIN t.f |-> TT(t.f[i])], ", ") \o " }"
Out(g) == IF g.out = <<>> THEN "void" ELSE TT(g.out[1])
FnTy(g) == Out(g) \o " (" \o JoinStr([i \in DOMAIN g.ins |-> TT(g.ins[i])], ", ") \o ")"
Variadic(g) == \E i \in DOMAIN g.ins : g.ins[i].k = "va"

(* ---------------------------------------------------------------- signatures -- *)
Shapes == <<
  [ins |-> <<>>, out |-> <<>>],
  [ins |-> <<I(32)>>, out |-> <<I(32)>>],
  [ins |-> <<P, I(32)>>, out |-> <<P>>],
  [ins |-> <<P>>, out |-> <<St(<<P, I(64)>>)>>],
  [ins |-> <<Fl, Db>>, out |-> <<Fl>>],
  [ins |-> <<I(1)>>, out |-> <<I(1)>>],
  [ins |-> <<Al("core::fmt::Arguments<'_>")>>, out |-> <<Al("S")>>],
  [ins |-> <<Ve(4, I(32)), Ar(2, I(8))>>, out |-> <<Ve(4, I(32))>>],
  [ins |-> <<P, Va>>, out |-> <<I(32)>>],
  [ins |-> <<P, Va>>, out |-> <<>>] >>

(* ------------------------------------------------------------------ callees -- *)
\* k: what the call is; t: text ("" stands for the name of the function)
Callees == <<
  [k |-> "direct", t |-> "@callee"], [k |-> "direct", t |-> "@\"callee\""], [k |-> "direct", t |-> "@\"calle\\65\""],
  [k |-> "indirect", t |-> "%p"], [k |-> "indirect", t |-> "%7"], [k |-> "indirect", t |-> "%_3.i-x"], [k |-> "indirect", t |-> "%\"q q\""],
  [k |-> "indirect", t |-> "inttoptr (i64 4660 to ptr)"],
  \* constant expressions, as LLVM printed them while pointers had types; a global without name is none of the program's
  [k |-> "direct", t |-> "bitcast (i8* @callee to void ()*)"], [k |-> "direct", t |-> "bitcast (i32 (i8*, { i32, [2 x i8] }*)* @\"callee\" to void (i8)*)"],
  [k |-> "direct", t |-> "bitcast ([0 x i32]* @callee to i32 ()*)"], [k |-> "direct", t |-> "bitcast (%\"a b\"* @callee to void ()*)"],
  [k |-> "direct", t |-> "bitcast (i8* getelementptr (i8, i8* @callee, i64 0) to void ()*)"], [k |-> "direct", t |-> "bitcast (void ()* bitcast (i8* @callee to void ()*) to void (i8)*)"],
  [k |-> "direct", t |-> "addrspacecast (ptr addrspace(1) @callee to ptr)"], [k |-> "direct", t |-> "getelementptr (i8, ptr @callee, i64 0)"],
  [k |-> "direct", t |-> "inttoptr (i64 ptrtoint (ptr @callee to i64) to ptr)"], [k |-> "direct", t |-> "dso_local_equivalent @callee"], [k |-> "direct", t |-> "no_cfi @callee"],
  [k |-> "indirect", t |-> "null"], [k |-> "indirect", t |-> "undef"], [k |-> "indirect", t |-> "poison"], [k |-> "indirect", t |-> "%callee"], [k |-> "indirect", t |-> "%\"@callee\""],
  [k |-> "gone", t |-> "bitcast (i8* @3 to void ()*)"], [k |-> "gone", t |-> "@3"],
  [k |-> "asm", t |-> "asm \"nop\", \"\""], [k |-> "asm", t |-> "asm sideeffect \"bl $0\", \"s,~{memory}\""],
  [k |-> "asm", t |-> "asm sideeffect alignstack inteldialect \"call x\", \"~{memory}\""], [k |-> "asm", t |-> "asm sideeffect unwind \"\\22;\\0A call void @before()\", \"\""] >>

(* ----------------------------------------------------------------- decoration -- *)
Tails == <<"", "tail ", "musttail ", "notail ">>
Fast == <<"", "fast ", "nnan ninf ", "reassoc nnan ninf nsz arcp contract afn ">>
Convs == <<"", "fastcc ", "coldcc ", "cc1023 ", "ghccc ", "preserve_mostcc ", "tailcc ", "swiftcc ", "swifttailcc ", "x86_64_sysvcc ", "arm_aapcscc ", "arm_aapcs_vfpcc ", "cxx_fast_tlscc ">>
RetAttrs == <<"", "noundef ", "zeroext ", "noalias noundef ", "align 4 ", "nonnull align 4 dereferenceable(8) ", "dereferenceable_or_null(16) ", "inreg ", "signext ",
              "nofpclass(nan) ", "\"k\"=\"v\" ", "\"key\" ">>
Spaces == <<"", "addrspace(0) ">>
FnAttrs == <<"", " #7", " nounwind", " nounwind \"a\"=\"b c\"", " memory(none)", " #7 noreturn", " memory(argmem: readwrite, inaccessiblemem: none)", " builtin allocsize(0)">>
Bundles == <<"", " [ \"deopt\"(i32 %x, i64 0) ]", " [ \"funclet\"(token %tok) ]", " [ \"unknown\"(), \"kcfi\"(i32 1234) ]">>
Mds == <<"", ", !dbg !12", ", !dbg !12, !noalias !13", ", !srcloc !5", ", !range !9, !noundef !5">>
Results == <<"%1", "%_5.0", "%call", "%-x$", "%\"a b\"", "%\"call\"">>
ArgAttrs == <<"", "noundef ", "nonnull align 4 ", "noalias nocapture noundef readonly align 8 dereferenceable(24) ", "byval([4 x i32]) align 4 ",
              "nocapture writeonly sret({ i32, ptr }) align 4 ", "sret(%\"core::option::Option<(i32, u8)>\") ", "inreg ", "swiftself ", "immarg ", "returned ",
              "\"k\"=\"v\" ", "elementtype(i32) ", "inalloca(%S) ", "preallocated({ [2 x i8] }) ", "byref(i64) ", "alignstack(8) ", "nofpclass(inf zero) ", "align 4 dereferenceable_or_null(12) nofree ">>
Vals(t) == CASE t.k = "int" /\ t.n = 1 -> <<"%b", "true", "false", "undef", "poison", "icmp eq (ptr @before, ptr null)">>
             [] t.k = "int" -> <<"0", "%x", "-7", "undef", "poison", "%\"a b\"", "ptrtoint (ptr @before to i32)", "add (i32 1, i32 ptrtoint (ptr @before to i32))", "4294967295">>
             [] t.k = "ptr" -> <<"null", "%p", "undef", "poison", "@before", "@\"x y(\"", "@0", "getelementptr (i8, ptr @G, i32 4)", "getelementptr inbounds ({ [4 x i8] }, ptr @G, i32 0, i32 0, i32 1)",
                                 "inttoptr (i64 16 to ptr)", "%\"call (x\"", "@G.call", "getelementptr inbounds (i8, ptr getelementptr (i8, ptr @G, i64 8), i64 4)", "blockaddress(@main, %bb1)",
                                 "dso_local_equivalent @before", "no_cfi @before">>
             [] t.k = "double" -> <<"%d", "2.500000e-01">>
             [] t.k = "float" -> <<"%f", "1.000000e+00", "0x7FF8000000000000", "-0.000000e+00", "undef", "poison">>
             [] t.k = "st" -> <<"%agg", "zeroinitializer", "undef", "{ ptr null, i64 1 }">>
             [] t.k = "alias" -> <<"%agg", "zeroinitializer", "undef", "poison">>
             [] t.k = "arr" -> <<"%arr", "zeroinitializer", "c\"a)\"", "c\"\\22)\"", "[i8 1, i8 2]", "poison">>
             [] t.k = "vec" -> <<"%vec", "zeroinitializer", "<i32 1, i32 2, i32 3, i32 4>", "poison">>
             [] OTHER -> <<"i32 0">>
(* what follows a variadic parameter list: the extra arguments                 *)
Extra == <<"", ", i32 5", ", ptr null, double 1.000000e+00", ", i32 noundef %x">>
(* the whole continuation of an invoke                                          *)
Conts == <<"\n          to label %bb1 unwind label %bb2", "\n          to label %\"a call\" unwind label %bb2">>

(* ---------------------------------------------------------------- call lines -- *)
Slots(shape) == LET g == Shapes[shape] IN
  [tail |-> 1 .. Len(Tails), inv |-> {1, 2}, fast |-> 1 .. Len(Fast), conv |-> 1 .. Len(Convs), ret |-> 1 .. Len(RetAttrs), sp |-> 1 .. Len(Spaces),
   long |-> {1, 2}, callee |-> 1 .. Len(Callees), res |-> 1 .. Len(Results), aa |-> 1 .. Len(ArgAttrs),
   val |-> IF g.ins = <<>> THEN {1} ELSE 1 .. Len(Vals(g.ins[1])), ex |-> IF Variadic(g) THEN 1 .. Len(Extra) ELSE {1},
   fa |-> 1 .. Len(FnAttrs), bu |-> 1 .. Len(Bundles), md |-> 1 .. Len(Mds), cont |-> 1 .. Len(Conts)]
Order == <<"callee", "inv", "tail", "fast", "conv", "ret", "sp", "long", "res", "aa", "val", "ex", "fa", "bu", "md", "cont">>
(* attributes make sense for some types only; the rest LLVM would not print     *)
PtrOnly == {3, 4, 5, 6, 7, 10, 13, 14, 15, 16, 19}
Sensible(shape, c) ==
  LET g == Shapes[shape] out == g.out arg == g.ins cal == Callees[c.callee] IN
  /\ (c.res > 1 => out # <<>>)
  /\ (c.fast > 1 => out # <<>> /\ out[1].k \in {"float", "double"})
  /\ (c.ret > 1 => out # <<>>)
  /\ (c.ret \in {4, 5, 6, 7} => out # <<>> /\ out[1].k = "ptr")
  /\ (c.ret \in {3, 9} => out # <<>> /\ out[1].k = "int")
  /\ (c.ret = 10 => out # <<>> /\ out[1].k = "float")
  /\ (c.inv = 2 => c.tail = 1)
  /\ (c.cont = 2 => c.inv = 2)
  /\ (c.aa > 1 => arg # <<>> /\ arg[1].k # "va")
  /\ (c.aa \in PtrOnly => arg[1].k = "ptr")
  /\ (c.aa \in {9, 11, 17} => FALSE)
  /\ (c.aa = 18 => arg[1].k = "float")
  /\ (c.aa \in {5, 14, 15, 6, 7} => c.val \in {1, 2, 3, 5, 7})
  /\ (c.long = 2 => Variadic(g))        \* LLVM prints the function type of variadic callees only
  /\ (Variadic(g) => c.long = 2)
  /\ (cal.k = "asm" => c.inv = 1 /\ c.conv = 1 /\ c.tail \in {1, 2} /\ ~Variadic(g) /\ c.sp = 1 /\ c.ret \in {1, 2} /\ shape \in {1, 2, 3})
  /\ (c.tail = 3 => FALSE)              \* musttail needs a caller of the same type; see Noise
  /\ (c.sp = 2 => FALSE)                \* addrspace(0) is not printed
  /\ (c.bu = 3 => c.inv = 1)
Deviates(s, v, shape) == IF s = "callee" THEN v # 1 /\ v # 4
                         ELSE IF s = "long" THEN FALSE ELSE v # 1
Arg(g, i, c) == IF g.ins[i].k = "va" THEN "" ELSE
                (IF i = 1 THEN "" ELSE ", ") \o TT(g.ins[i]) \o " " \o (IF i = 1 THEN ArgAttrs[c.aa] ELSE "") \o Vals(g.ins[i])[IF i = 1 THEN c.val ELSE 1]
RECURSIVE Cat(_, _)
Cat(ss, i) == IF i > Len(ss) THEN "" ELSE ss[i] \o Cat(ss, i + 1)
CallText(shape, c) ==
  LET g == Shapes[shape]
      cal == Callees[c.callee]
  IN "  " \o (IF g.out = <<>> THEN "" ELSE Results[c.res] \o " = ")
     \o Tails[c.tail] \o (IF c.inv = 2 THEN "invoke " ELSE "call ") \o Fast[c.fast] \o Convs[c.conv] \o RetAttrs[c.ret] \o Spaces[c.sp]
     \o (IF c.long = 2 THEN FnTy(g) ELSE Out(g)) \o " " \o cal.t
     \o "(" \o Cat([i \in DOMAIN g.ins |-> Arg(g, i, c)], 1) \o Extra[c.ex] \o ")" \o FnAttrs[c.fa] \o Bundles[c.bu]
     \o (IF c.inv = 2 THEN Conts[c.cont] ELSE "") \o Mds[c.md]

(* ------------------------------------------------------------ function headers -- *)
Linkages == <<"", "private ", "internal ", "available_externally ", "linkonce ", "weak ", "linkonce_odr ", "weak_odr ">>
Preempt == <<"", "dso_local ">>
Visib == <<"", "hidden ", "protected ">>
Params == <<"ptr %p, i32 %x", "ptr %0, i32 %1", "ptr noalias nocapture noundef readonly align 4 dereferenceable(24) %p, i32 noundef %x", "ptr byval([4 x i32]) align 4 %p, i32 %x",
            "ptr nocapture noundef writeonly sret(%\"core::fmt::Arguments<'_>\") align 4 %p, i32 %x", "ptr %\"a b\", i32 %x", "ptr %p, i32 %\"call\"", "ptr, i32", "ptr %p, i32 inreg \"k\"=\"v\" %x",
            "ptr nofree %p, i32 %x.call-1$">>
Unnamed == <<"", " unnamed_addr", " local_unnamed_addr">>
Tailers == <<"", " #0", " nounwind \"frame-pointer\"=\"all\"", " section \".text.startup\"", " partition \"p\"", " comdat", " align 2", " gc \"statepoint-example\"",
             " personality ptr @before", " prefix i32 4", " prologue i32 4", " !dbg !4512 !kcfi_type !5", " section \".text {\" align 4">>
DefSlots == [li |-> 1 .. Len(Linkages), pr |-> 1 .. Len(Preempt), vi |-> 1 .. Len(Visib), conv |-> 1 .. Len(Convs), ret |-> 1 .. Len(RetAttrs), out |-> 1 .. 4, nm |-> {1, 2, 3}, pa |-> 1 .. Len(Params),
             un |-> 1 .. Len(Unnamed), ta |-> 1 .. Len(Tailers)]
DefOrder == <<"li", "pr", "vi", "conv", "ret", "out", "nm", "pa", "un", "ta">>
DefOuts == <<"void", "i32", "{ ptr, i64 }", "ptr">>
DefSensible(c) == /\ (c.ret > 1 => c.out > 1) /\ (c.ret \in {4, 5, 6, 7} => c.out = 4) /\ (c.ret \in {3, 9} => c.out = 2) /\ c.ret # 10
                  /\ (c.li \in {2, 3} => c.vi = 1) /\ (c.li \in {2, 3} => c.pr = 1)
DefDeviates(s, v) == v # 1
Names == <<"@main", "@\"main\"", "@\"ma\\69n\"">>
DefText(c) == "define " \o Linkages[c.li] \o Preempt[c.pr] \o Visib[c.vi] \o Convs[c.conv] \o RetAttrs[c.ret] \o DefOuts[c.out] \o " " \o Names[c.nm] \o "(" \o Params[c.pa] \o ")"
              \o Unnamed[c.un] \o Tailers[c.ta] \o " {"
DefRet == <<"  ret void", "  ret i32 0", "  ret { ptr, i64 } undef", "  ret ptr null">>

(* ------------------------------------------------- what is no call, in a function -- *)
\* every line names functions of the program or the words the calls are recognized by
Noise == <<
  "  %v = load i32, ptr %p, align 4, !dbg !12", "  store volatile ptr @before, ptr %call, align 8", "  br i1 %c, label %call, label %invoke",
  "  br label %\"call void @before()\"", "\"call void @before()\":", "\"invoke\":                                         ; preds = %bb3, %start",
  "call:                                             ; preds = %bb3", "call.i:", "invoke.cont:                                      ; call void @before()",
  "42:                                               ; preds = %call", "-x$.1:", "bb7:                                              ; No predecessors!", "\"a;b\":", "\"x:\":", "tail:", "define:",
  "; call void @before()", ";   invoke void @before() to label %a unwind label %b",
  "  switch i8 %x, label %bb2 [\n    i8 0, label %call\n    i8 1, label %bb3\n  ]", "  switch i32 %call, label %bb2 [\n  ]", "  indirectbr ptr %p, [label %call, label %b]",
  "  %call = select i1 %b, ptr @before, ptr @after", "  %call.i = icmp eq ptr @before, null", "  %invoke = phi ptr [ @before, %call ], [ %call, %start ]", "  %\"call\" = add i32 %x, 1",
  "  %c1 = ptrtoint ptr @before to i64", "  %g = getelementptr inbounds i8, ptr @before, i64 4", "  %l = landingpad { ptr, i32 }\n          cleanup", "  %l2 = landingpad { ptr, i32 }\n          catch ptr @before\n          filter [1 x ptr] [ptr @after]",
  "  resume { ptr, i32 } %l", "  ret ptr @before", "  unreachable", "  fence seq_cst", "  %a1 = atomicrmw add ptr %p, i32 1 seq_cst, align 4", "  %x1 = cmpxchg ptr %p, i32 0, i32 1 acq_rel monotonic, align 4",
  "  %e = extractvalue { ptr, i32 } %call, 0", "  %i = insertvalue { ptr, i32 } poison, ptr @before, 0", "  %f1 = freeze ptr @before", "  %va = va_arg ptr %p, i32", "  %al = alloca [4 x i8], i32 %call, align 4",
  "  %cs = catchswitch within none [label %call] unwind to caller", "  %cp = catchpad within %cs [ptr @before, i32 0]", "  %cl = cleanuppad within none []", "  cleanupret from %cl unwind to caller", "  catchret from %cp to label %call",
  "  %s = addrspacecast ptr %p to ptr addrspace(1)", "  %b1 = bitcast i64 %x to double", "  %sh = shufflevector <4 x i32> %call, <4 x i32> poison, <4 x i32> <i32 0, i32 1, i32 2, i32 3>", "",
  "  store [5 x i8] c\"call(\", ptr %p, align 1", "  store ptr @\"x call y\", ptr %p", "  %tail = fneg float %f", "  store ptr getelementptr (i8, ptr @before, i64 1), ptr %p, align 8, !alias.scope !13",
  "  #dbg_value(ptr @before, !5, !DIExpression(), !12)" >>
\* between the functions
Items == <<
  "@s = private unnamed_addr constant [24 x i8] c\"  call void @before()\\0A}\\0A\", align 1", "@t = internal global ptr @before, section \".init_array\", align 8", "@\"call void\" = external global i32",
  "module asm \"call before\"", "module asm \"\\09bl before\"", "; call void @before()", "%call = type { ptr, i32 }", "%\"define void @x() {\" = type opaque", "@u = external thread_local(initialexec) global i32, align 4",
  "@v = weak_odr hidden unnamed_addr constant <{ ptr, [4 x i8] }> <{ ptr @before, [4 x i8] zeroinitializer }>, comdat, align 8", "$before = comdat any", "@llvm.used = appending global [1 x ptr] [ptr @before], section \"llvm.metadata\"",
  "@al = unnamed_addr alias void (), ptr @before", "@ifn = ifunc void (), ptr @before", "attributes #3 = { \"call\"=\"x\" }", "!7 = !{!\"call void @before()\"}", "!named = !{!7}", "declare void @llvm.dbg.declare(metadata, metadata, metadata) #4",
  "declare noundef i32 @unused(ptr noalias nocapture noundef readonly align 4 dereferenceable(24), i32 inreg) unnamed_addr #3", "declare void @llvm.memcpy.p0.p0.i64(ptr noalias nocapture writeonly, ptr noalias nocapture readonly, i64, i1 immarg) #9",
  "source_filename = \"call.rs\"", "target triple = \"x86_64-unknown-none\"", "@w = global i32 0, align 4, !dbg !12", "@0 = private constant <{ [0 x i8] }> zeroinitializer" >>
Plains == <<"  call void @before()", "  invoke void @before()\n          to label %bb1 unwind label %bb2", "  %9 = tail call i32 asm sideeffect \"nop\", \"=r\"()">>

(* ------------------------------------------------------------------ the machine -- *)
(* `at` is the slot being chosen, `left` how many more may deviate              *)
VARIABLES shape, at, left, c
vars == <<shape, at, left, c>>
Around == [n1 |-> DOMAIN Noise, pl |-> DOMAIN Plains, n2 |-> DOMAIN Noise]
ItSlots == [it |-> DOMAIN Items, i2 |-> DOMAIN Items]
SlotNames == CASE Form = "define" -> DefOrder [] Form = "noise" -> <<"n1", "pl", "n2">> [] Form = "item" -> <<"it", "i2">> [] OTHER -> Order
Alts(s) == CASE Form = "define" -> DefSlots[s] [] Form = "noise" -> Around[s] [] Form = "item" -> ItSlots[s] [] OTHER -> Slots(shape)[s]
Dev1(s, v) == CASE Form = "define" -> DefDeviates(s, v) [] Form \in {"noise", "item"} -> FALSE [] OTHER -> Deviates(s, v, shape)
Sens(x) == CASE Form = "define" -> DefSensible(x) [] Form \in {"noise", "item"} -> TRUE [] OTHER -> Sensible(shape, x)
Init == /\ shape \in (IF Form = "call" THEN DOMAIN Shapes ELSE {1})
        /\ at = 1 /\ left = Dev /\ c = [x \in {} |-> 0]
Choose_ == /\ at <= Len(SlotNames)
           /\ \E v \in Alts(SlotNames[at]) :
                /\ IF Dev1(SlotNames[at], v) THEN left > 0 /\ left' = left - 1 ELSE left' = left
                /\ (SlotNames[at] = "long" => (v = 2 <=> Variadic(Shapes[shape])))
                /\ c' = c @@ (SlotNames[at] :> v)
                /\ at' = at + 1
           /\ UNCHANGED shape
Complete == at > Len(SlotNames) /\ Sens(c)
Line == CASE Form = "define" -> [text |-> DefText(c), ret |-> DefRet[c.out], sig |-> [ins |-> <<P, I(32)>>, out |-> (<< <<>>, <<I(32)>>, <<St(<<P, I(64)>>)>>, <<P>> >>)[c.out]], plain |-> left = Dev]
          [] Form = "noise" -> [n1 |-> Noise[c.n1], pl |-> Plains[c.pl], asm |-> c.pl = 3, n2 |-> Noise[c.n2]]
          [] Form = "item" -> [it |-> Items[c.it], i2 |-> Items[c.i2]]
          [] OTHER -> [text |-> CallText(shape, c), k |-> Callees[c.callee].k, sig |-> Shapes[shape], plain |-> left = Dev /\ ~Variadic(Shapes[shape])]
Emit == Complete => PrintT("CASE " \o ToJson(Line))
Spec == Init /\ [][Choose_]_vars
=============================================================================
