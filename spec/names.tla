------------------------------- MODULE names -------------------------------
(* The finite part of the machine for sparse numbers: which names each number is differentiable with respect to. TLC   *)
(* enumerates every combination of name sets and every step out of it; the orchestrator turns the graph into histories  *)
(* which cover every step, runs them on the real code and has them judged by the Quint machine (machine.qnt).          *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS NR,          (* registers 0 .. NR-1                                                                          *)
          NN           (* names 0 .. NN-1                                                                              *)

VARIABLES held,        (* register -> set of names, or NONE: no number                                                 *)
          act

Regs == 0 .. NR - 1
Names == 0 .. NN - 1
NONE == {NN}
vars == <<held, act>>
Ops == {"add", "mul", "div", "fn2"}       (* sums and differences, products, quotients, atan2 and hypot                *)

Bound(r) == held[r] # NONE
RECURSIVE Code(_)
Code(s) == IF s = {} THEN 0 ELSE LET k == CHOOSE k \in s : TRUE IN 2^k + Code(s \ {k})
Shown(f) == [k \in 1 .. NR |-> IF f[k - 1] = NONE THEN 0 ELSE 1 + Code(f[k - 1])]
Get(d, s, a) == held' = [held EXCEPT ![d] = s] /\ act' = a
Stay(a) == UNCHANGED held /\ act' = a

Make(d, s) == Get(d, s, <<"make", d, Code(s)>>)
Un(d, a) == Bound(a) /\ Get(d, held[a], <<"un", d, a>>)
Op2(o, d, a, b) == Bound(a) /\ Bound(b) /\ Get(d, held[a] \union held[b], <<o, d, a, b>>)
Op3(d, a, b, c) == Bound(a) /\ Bound(b) /\ Bound(c) /\ Get(d, held[a] \union held[b] \union held[c], <<"fn3", d, a, b, c>>)
(* an in-place operator gives its target the names of both; the other keeps its own                                    *)
Inpl(o, a, b) == Bound(a) /\ Bound(b) /\ Get(a, held[a] \union held[b], <<o, a, b>>)
InplC(a) == Bound(a) /\ Stay(<<"inplc", a>>)
(* asking for names, known or not, and evaluating at increments that give more or fewer names changes nothing          *)
Ask(a) == Bound(a) /\ Stay(<<"ask", a>>)
Eval(a, s) == Bound(a) /\ Stay(<<"eval", a, Code(s)>>)
Forget(a) == Bound(a) /\ Get(a, NONE, <<"forget", a>>)

Init == held = [r \in Regs |-> NONE] /\ act = <<"reset">>
Next == \/ \E d \in Regs, s \in SUBSET Names : Make(d, s)
        \/ \E d, a \in Regs : Un(d, a)
        \/ \E d, a, b \in Regs : (\E o \in Ops : Op2(o, d, a, b)) \/ \E c \in Regs : Op3(d, a, b, c)
        \/ \E a, b \in Regs : \E o \in {"iadd", "imul", "idiv"} : Inpl(o, a, b)
        \/ \E a \in Regs : InplC(a) \/ Ask(a) \/ Forget(a)
        \/ \E a \in Regs, s \in SUBSET Names : Eval(a, s)
Spec == Init /\ [][Next]_vars

TypeOK == held \in [Regs -> (SUBSET Names) \union {NONE}]
(* names appear only by making a number with them or from an operand, and no name is lost by an operator               *)
Binds == {"make", "un", "fn3"} \union Ops
InPlace == {"iadd", "imul", "idiv"}
Frame == [][ \A r \in Regs : held'[r] # held[r] => act'[1] \in Binds \union InPlace \union {"forget"} /\ r = act'[2] ]_vars
From == [][ act'[1] \in (Binds \union InPlace) \ {"make"} =>
            LET given == {act'[k] : k \in 2 + (IF act'[1] \in InPlace THEN 0 ELSE 1) .. Len(act')} IN
            held'[act'[2]] = UNION {held[r] : r \in given} ]_vars

Situation == held
Emit == PrintT(<<"step", Shown(held), Shown(held), act', Shown(held'), Shown(held')>>)
=============================================================================
