----------------------------- MODULE ThumbStream -----------------------------
(* A compiler emitting one function, instruction by instruction.  Each letter    *)
(* says what it is (its halfwords, produced by the architecture's encodings) and *)
(* what it does (ghost effect); the decoder of Thumb.tla has to recover exactly   *)
(* the accumulated effects from the halfwords alone (C06 C08 C23).                *)
EXTENDS Thumb, Json, IOUtils
CONSTANTS N,        \* letters per function
          V7        \* ARMv7-M or ARMv6-M
VARIABLES hist,     \* names of the letters emitted so far
          hw, tags, \* code and mapping symbols so far
          pool,     \* the last letter was a literal pool
          eff       \* what the code does
EnvN == atoi(IOEnv.LETTERS)
EnvV7 == IOEnv.V7 = "1"
vars == <<hist, hw, tags, pool, eff>>

Base == 4096
Out == 3000         \* a function outside, reachable by every kind of branch but B<c> T1/CBZ
Pc == Base + 2 * Len(hw)

(* -------------------------------------------------------------- encodings -- *)
Mod(x, n) == x % n  \* TLA+'s % is a floor modulus, as two's complement wants
Fld(x, lo, n) == (Mod(x, 2^30) \div 2^lo) % 2^n
Sg1(x) == IF x < 0 THEN 1 ELSE 0
EncB1(cond, off) == <<53248 + 256 * cond + Fld(off, 1, 8)>>
EncB2(off) == <<57344 + Fld(off, 1, 11)>>
NotXor(i, s) == IF i = s THEN 1 ELSE 0
EncFar(off, top) == LET s == Sg1(off)
                        j1 == NotXor(Fld(off, 23, 1), s)
                        j2 == NotXor(Fld(off, 22, 1), s)
                    IN <<61440 + 1024 * s + Fld(off, 12, 10), top + 8192 * j1 + 2048 * j2 + Fld(off, 1, 11)>>
EncBL(off) == EncFar(off, 53248)
EncB4(off) == EncFar(off, 36864)
EncB3(cond, off) == <<61440 + 1024 * Sg1(off) + 64 * cond + Fld(off, 12, 6),
                      32768 + 8192 * Fld(off, 18, 1) + 2048 * Fld(off, 19, 1) + Fld(off, 1, 11)>>
EncCbz(off) == <<45312 + 512 * Fld(off, 6, 1) + 8 * Fld(off, 1, 5)>>

(* ---------------------------------------------------------------- letters -- *)
L(n, w, e) == [n |-> n, w |-> w, e |-> e]
Letters6 ==
  {L("nop", <<48896>>, None), L("bkpt", <<48640>>, None), L("udf", <<57086>>, None), L("svc", <<57088>>, None),
   L("push1", <<46096>>, Dec(4)), L("pushlr", <<46576>>, Dec(20)), L("subsp", <<45185>>, Dec(4)), L("addsp", <<45057>>, None),
   L("pop", <<48512>>, None), L("addspr", <<17573>>, SpAny), L("blx", <<18304>>, Ind), L("bxlr", <<18288>>, None), L("movpc", <<18055>>, Ind),
   L("dmb", <<62399, 36703>>, None),                                      \* F3BF 8F5F
   L("msr", <<62336, 34824>>, None),                                      \* F380 8808
   L("bl", EncBL(Out - Pc - 4), Call(Out)), L("b2", EncB2(Out - Pc - 4), Branch(Out)), L("bback", EncB1(0, -4), Branch(Pc))}
Letters7 ==
  {L("it", <<48904>>, None), L("cbz", EncCbz(0), Branch(Pc + 4)),
   L("movw", <<62016, 18304>>, None),                                     \* F240 4780: second half looks like BLX r0
   L("ldrw", <<63697, 45185>>, None),                                     \* F8D1 B081: second half looks like SUB SP, #4
   L("strw", <<63681, 59693>>, None),                                     \* F8C1 E92D: second half looks like a prefix
   L("vmrs", <<61169, 64016>>, None),                                     \* EEF1 FA10
   L("b4", EncB4(Out - Pc - 4), Branch(Out)), L("b3", EncB3(1, Out - Pc - 4), Branch(Out)),
   L("stmdb", <<59693, 16880>>, Dec(24)), L("stmdb0", <<59661, 16880>>, None),
   L("subwsp", <<62125, 3336>>, Dec(8)), L("subspc", <<62893, 32002>>, Dec(520)), L("subspr", <<60333, 3332>>, SpAny),
   L("vpush", <<60717, 35586>>, Dec(8)), L("strpre", <<63565, 48388>>, Dec(4)), L("strdpre", <<59757, 17666>>, Dec(8)),
   L("tbb", <<59615, 61441>>, Table)}
Letters == IF V7 THEN Letters6 \cup Letters7 ELSE Letters6
(* literal pools whose words look like code                                     *)
PoolWords == {<<"pool1", <<61440, 53249>>>>,   \* BL
              <<"pool2", <<59693, 45185>>>>,   \* a prefix, SUB SP
              <<"pool3", <<48896, 63487>>>>}   \* ends in a prefix

Init == /\ hist = <<>> /\ hw = <<>> /\ pool = FALSE /\ eff = None
        /\ tags = <<[a |-> Base, k |-> "t"]>>
Emit == \E l \in Letters :
          /\ hist' = Append(hist, l.n)
          /\ hw' = hw \o l.w
          /\ tags' = IF pool THEN Append(tags, [a |-> Pc, k |-> "t"]) ELSE tags
          /\ eff' = Join2(eff, l.e)
          /\ pool' = FALSE
Place == \E p \in PoolWords :
          /\ hist' = Append(hist, p[1])
          /\ hw' = hw \o p[2]
          /\ tags' = IF pool THEN tags ELSE Append(tags, [a |-> Pc, k |-> "d"])
          /\ pool' = TRUE
          /\ UNCHANGED eff
Next == Len(hist) < N /\ (Emit \/ Place)
Spec == Init /\ [][Next]_vars

(* the decoder never loses step, whatever comes before                          *)
InStep == Walk(hw, Base, 1, Pools(tags), V7, None) = eff
(* what may be concluded from it                                                *)
Sound == LET r == Analyze(hw, Base, Pools(tags), V7)
         IN /\ r.calls = eff.call
            /\ r.leaves \subseteq eff.br
            /\ Out \in eff.br => Out \in r.leaves
            /\ r.ind = eff.ind
            /\ r.mod = (eff.sp # "no")
            /\ r.stack # <<>> => r.stack[1] = eff.dec
Complete == Len(hist) = N => PrintT("CASE " \o ToJson(hist))

(* ------------------------------------------------- the branch encodings ----- *)
(* every sum or difference of two powers of two in the range of the encoding    *)
Walking(bits) == LET P == {0} \cup {2^i : i \in 1..(bits - 1)}
                 IN {x \in {p + q : p \in P, q \in P} \cup {p - q : p \in P, q \in P} \cup {-p - q : p \in P, q \in P} : x >= -(2^(bits - 1)) /\ x < 2^(bits - 1)}
Kinds == {<<"bl", 25>>, <<"b2", 12>>, <<"b1", 9>>} \cup (IF V7 THEN {<<"b3", 21>>, <<"b4", 25>>, <<"cbz", 7>>} ELSE {})
Offs(k) == IF k[1] = "cbz" THEN {x \in 0..126 : x % 2 = 0} ELSE Walking(k[2])
Far == 167772160
OffOK == \A k \in Kinds : \A off \in Offs(k) :
           LET w == CASE k[1] = "bl" -> EncBL(off) [] k[1] = "b2" -> EncB2(off) [] k[1] = "b1" -> EncB1(3, off)
                      [] k[1] = "b3" -> EncB3(5, off) [] k[1] = "b4" -> EncB4(off) [] OTHER -> EncCbz(off)
               e == IF Len(w) = 2 THEN Eff32(w[1], w[2], Far, V7) ELSE Eff16(w[1], Far, V7)
           IN e = IF k[1] = "bl" THEN Call(Far + 4 + off) ELSE Branch(Far + 4 + off)
ASSUME OffOK
ASSUME PrintT("OFFS " \o ToJson([k \in {x[1] : x \in Kinds} |-> SetToSeq(UNION {Offs(y) : y \in {z \in Kinds : z[1] = k}})]))
=============================================================================
