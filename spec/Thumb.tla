------------------------------- MODULE Thumb --------------------------------
(* What the Thumb machine code of one function says about calls and stack,    *)
(* after the ARMv6-M / ARMv7-M Architecture Reference Manuals (C06 C08 C23).   *)
(* A function is a sequence hw of halfwords at (even) address a; data is the   *)
(* set of half-open address intervals <<lo, hi>> that hold literal pools.      *)
EXTENDS Common

Bits(h, lo, n) == (h \div 2^lo) % 2^n
Bit(h, i) == Bits(h, i, 1)
SExt(x, n) == IF x >= 2^(n - 1) THEN x - 2^n ELSE x
RECURSIVE Pop(_)
Pop(x) == IF x = 0 THEN 0 ELSE (x % 2) + Pop(x \div 2)

(* A5.1: a halfword starting 0b11101, 0b11110 or 0b11111 is the first of two   *)
Is32(h) == Bits(h, 11, 5) \in {29, 30, 31}

None == [call |-> {}, br |-> {}, ind |-> FALSE, tbl |-> FALSE, sp |-> "no", dec |-> 0]
Call(t) == [None EXCEPT !.call = {t}]
Branch(t) == [None EXCEPT !.br = {t}]
Ind == [None EXCEPT !.ind = TRUE]
Table == [None EXCEPT !.tbl = TRUE]                  \* branches somewhere inside the function
Dec(n) == [None EXCEPT !.sp = "by", !.dec = n]      \* SP -= n
SpAny == [None EXCEPT !.sp = "any"]                 \* SP changes by a register amount

(* 16-bit instruction h at address pc                                          *)
Eff16(h, pc, v7) ==
  LET op8 == Bits(h, 8, 8) IN
  CASE Bits(h, 12, 4) = 13 /\ Bits(h, 8, 4) \notin {14, 15}        \* B<c> T1
         -> Branch(pc + 4 + SExt(2 * Bits(h, 0, 8), 9))
    [] Bits(h, 11, 5) = 28                                           \* B T2
         -> Branch(pc + 4 + SExt(2 * Bits(h, 0, 11), 12))
    [] v7 /\ Bits(h, 12, 4) = 11 /\ Bit(h, 10) = 0 /\ Bit(h, 8) = 1   \* CBZ, CBNZ
         -> Branch(pc + 4 + 64 * Bit(h, 9) + 2 * Bits(h, 3, 5))
    [] op8 = 71 /\ Bit(h, 7) = 1 /\ Bits(h, 0, 3) = 0 -> Ind         \* BLX Rm
    [] op8 = 70 /\ Bit(h, 7) = 1 /\ Bits(h, 0, 3) = 7                \* MOV PC, Rm; MOV PC, LR returns
         -> IF Bits(h, 3, 4) = 14 THEN None ELSE Ind
    [] op8 = 71 /\ Bit(h, 7) = 0 /\ Bits(h, 0, 3) = 0                \* BX Rm; BX LR returns
         -> IF Bits(h, 3, 4) = 14 THEN None ELSE Ind
    [] op8 \in {180, 181} -> Dec(4 * Pop(Bits(h, 0, 9)))            \* PUSH {.., LR}
    [] op8 = 176 /\ Bit(h, 7) = 1 -> Dec(4 * Bits(h, 0, 7))         \* SUB SP, #imm7*4
    [] op8 = 68 /\ Bit(h, 7) = 1 /\ Bits(h, 0, 3) = 5 -> SpAny       \* ADD SP, Rm
    [] OTHER -> None

ExpandImm(imm12) ==
  LET b == Bits(imm12, 0, 8) IN
  IF Bits(imm12, 10, 2) = 0
  THEN CASE Bits(imm12, 8, 2) = 0 -> b
         [] Bits(imm12, 8, 2) = 1 -> b * 65536 + b
         [] Bits(imm12, 8, 2) = 2 -> b * 16777216 + b * 256
         [] OTHER -> b * 16777216 + b * 65536 + b * 256 + b
  ELSE (128 + Bits(imm12, 0, 7)) * 2^(32 - Bits(imm12, 7, 5))

(* 32-bit instruction h, g at address pc                                       *)
Eff32(h, g, pc, v7) ==
  LET s == Bit(h, 10)
      j1 == Bit(g, 13)
      j2 == Bit(g, 11)
      i1 == IF j1 = s THEN 1 ELSE 0
      i2 == IF j2 = s THEN 1 ELSE 0
      far == SExt(s * 2^24 + i1 * 2^23 + i2 * 2^22 + Bits(h, 0, 10) * 2^12 + Bits(g, 0, 11) * 2, 25)
      cond == SExt(s * 2^20 + j2 * 2^19 + j1 * 2^18 + Bits(h, 0, 6) * 2^12 + Bits(g, 0, 11) * 2, 21)
      top == Bits(h, 11, 5)
  IN
  CASE top = 30 /\ Bits(g, 14, 2) = 3 /\ Bit(g, 12) = 1 -> Call(pc + 4 + far)                       \* BL T1
    [] v7 /\ top = 30 /\ Bits(g, 14, 2) = 2 /\ Bit(g, 12) = 1 -> Branch(pc + 4 + far)               \* B.W T4
    [] v7 /\ top = 30 /\ Bits(g, 14, 2) = 2 /\ Bit(g, 12) = 0 /\ Bits(h, 7, 3) # 7 -> Branch(pc + 4 + cond) \* B<c>.W T3
    [] v7 /\ Bits(h, 4, 12) = 3725 /\ Bits(g, 5, 11) = 1920 -> Table                                \* TBB, TBH
    [] v7 /\ h \in {59757, 59501} -> Dec(4 * Bits(g, 0, 8))                                        \* STRD .., [SP, #-imm]! / [SP], #-imm (E96D, E86D)
    [] v7 /\ h = 59693 /\ Bit(g, 15) = 0 /\ Bit(g, 13) = 0 -> Dec(4 * Pop(g))                       \* STMDB SP!, {..} (E92D)
    [] v7 /\ Bit(g, 15) = 0 /\ Bits(g, 8, 4) = 13 /\ Bits(h, 11, 5) = 30 /\ Bit(h, 9) = 0 /\ Bits(h, 5, 4) = 13 /\ Bits(h, 0, 4) = 13
         -> Dec(ExpandImm(s * 2048 + Bits(g, 12, 3) * 256 + Bits(g, 0, 8)))                          \* SUB{S}.W SP, SP, #const
    [] v7 /\ Bit(g, 15) = 0 /\ Bits(g, 8, 4) = 13 /\ Bits(h, 11, 5) = 30 /\ Bits(h, 4, 6) = 42 /\ Bits(h, 0, 4) = 13
         -> Dec(s * 2048 + Bits(g, 12, 3) * 256 + Bits(g, 0, 8))                                     \* SUBW SP, SP, #imm12
    [] v7 /\ Bits(h, 5, 11) = 1885 /\ Bits(h, 0, 4) = 13 /\ Bits(g, 8, 4) = 13 /\ Bit(g, 15) = 0 -> SpAny \* SUB.W SP, SP, Rm
    [] v7 /\ Bits(h, 7, 9) = 474 /\ Bits(h, 0, 6) = 45 /\ Bits(g, 8, 4) \in {10, 11} -> Dec(4 * Bits(g, 0, 8))   \* VPUSH
    [] v7 /\ h = 63565 /\ Bit(g, 11) = 1 /\ Bits(g, 8, 2) = 1 -> Dec(Bits(g, 0, 8))                 \* STR Rt, [SP, #-imm8]! / [SP], #-imm8 (F84D)
    [] OTHER -> None

Join2(x, y) == [call |-> x.call \cup y.call, br |-> x.br \cup y.br, ind |-> x.ind \/ y.ind, tbl |-> x.tbl \/ y.tbl,
                sp |-> IF x.sp = "any" \/ y.sp = "any" THEN "any" ELSE IF x.sp = "by" \/ y.sp = "by" THEN "by" ELSE "no",
                dec |-> x.dec + y.dec]

(* end of the literal pool that covers address x, or 0                          *)
PoolEnd(data, x) == LET D == {d \in data : d[1] <= x /\ x < d[2]} IN IF D = {} THEN 0 ELSE MaxSet({d[2] : d \in D})

RECURSIVE Walk(_, _, _, _, _, _)
Walk(hw, a, i, data, v7, acc) ==
  IF i > Len(hw) THEN acc
  ELSE LET pc == a + 2 * (i - 1)
           pe == PoolEnd(data, pc)
       IN IF pe # 0 THEN Walk(hw, a, i + (pe - pc) \div 2, data, v7, acc)
          ELSE IF Is32(hw[i])
               THEN IF i = Len(hw) THEN acc
                    ELSE Walk(hw, a, i + 2, data, v7, TLCEval(Join2(acc, Eff32(hw[i], hw[i + 1], pc, v7))))
               ELSE Walk(hw, a, i + 1, data, v7, TLCEval(Join2(acc, Eff16(hw[i], pc, v7))))

(* tags: sequence of [a, k] sorted by address; a literal pool runs from a "d"   *)
(* tag to the next "t" tag, or, failing that, without end                      *)
Pools(tags) == {<<t.a, LET Ts == {u.a : u \in {v \in Range(tags) : v.k = "t" /\ v.a > t.a}}
                       IN IF Ts = {} THEN 2147483000 ELSE Min(Ts)>> : t \in {v \in Range(tags) : v.k = "d"}}

(* summary of a function: [calls, leaves, ind, mod, stack] where stack is a     *)
(* sequence of 0 or 1 numbers (known when the code is straight-line)            *)
Analyze(hw, a, data, v7) ==
  LET w == Walk(hw, a, 1, data, v7, None)
      endA == a + 2 * Len(hw)
      inner == {t \in w.br : t >= a /\ t < endA}
  IN [calls |-> w.call, leaves |-> w.br \ inner, ind |-> w.ind, mod |-> w.sp # "no",
      stack |-> IF inner # {} \/ w.tbl \/ w.sp = "any" THEN <<>> ELSE <<w.dec>>]
=============================================================================
