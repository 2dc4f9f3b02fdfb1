------------------------------ MODULE sharing ------------------------------
(* Who shares what: the finite part of the machine (machine.qnt) that says which names and kept array views refer to   *)
(* one number object, and which sizes the objects have. Contents are left to the Quint machine. TLC enumerates every   *)
(* reachable situation up to renaming of objects and every step out of it; the orchestrator turns the graph into       *)
(* histories which cover every step, runs them on the real code and has them judged by the machine.                    *)
EXTENDS Naturals, FiniteSets, TLC

CONSTANTS NR,          (* registers 0 .. NR-1                                                                          *)
          NV,          (* kept array views NR .. NR+NV-1                                                               *)
          Sizes,       (* sizes of numbers; a single one: sizes do not matter                                          *)
          Aliases      (* may two registers be names of one object (Python)                                            *)

VARIABLES ref,         (* holder -> object, 0: nothing; objects are numbered in the order of their first holder        *)
          size,        (* object -> size, 0: no such object                                                            *)
          act          (* the step that led here, for the record                                                       *)

N == NR + NV
Holders == 0 .. N - 1
Regs == 0 .. NR - 1
Views == NR .. N - 1
vars == <<ref, size, act>>

Used(f) == {f[h] : h \in Holders} \ {0}
First(f, id) == CHOOSE h \in Holders : f[h] = id /\ \A g \in Holders : f[g] = id => h <= g
Rank(f, id) == Cardinality({j \in Used(f) : First(f, j) <= First(f, id)})
(* the situation with objects renumbered: those nobody refers to any more are gone                                     *)
CanonRef(f) == [h \in Holders |-> IF f[h] = 0 THEN 0 ELSE Rank(f, f[h])]
CanonSize(f, s) == [k \in 1 .. N |-> IF \E id \in Used(f) : Rank(f, id) = k THEN s[CHOOSE id \in Used(f) : Rank(f, id) = k] ELSE 0]
Become(f, s, a) == ref' = CanonRef(f) /\ size' = CanonSize(f, s) /\ act' = a
Stay(a) == UNCHANGED <<ref, size>> /\ act' = a

Bound(r) == ref[r] # 0
SizeOf(r) == size[ref[r]]
Fresh(d, z, a) == Become([ref EXCEPT ![d] = N + 1], size @@ (N + 1 :> z), a)
Viewed(r) == \E v \in Views : ref[v] = ref[r]

Make(d, z) == Fresh(d, z, <<"make", d, z>>)
Copy(d, s) == Bound(s) /\ Fresh(d, SizeOf(s), <<"copy", d, s>>)
Bind(d, s) == Aliases /\ d # s /\ Bound(s) /\ Become([ref EXCEPT ![d] = ref[s]], size, <<"bind", d, s>>)
Un(d, s) == Bound(s) /\ Fresh(d, SizeOf(s), <<"un", d, s>>)
(* numbers of different sizes do not mix: the call is refused and nothing happens                                      *)
Op2(d, a, b) == Bound(a) /\ Bound(b) /\
    IF SizeOf(a) = SizeOf(b) THEN Fresh(d, SizeOf(a), <<"op2", d, a, b>>) ELSE Stay(<<"no2", d, a, b>>)
Inpl(a, b) == Bound(a) /\ Bound(b) /\ Stay(<<IF SizeOf(a) = SizeOf(b) THEN "inpl" ELSE "noinpl", a, b>>)
InplC(a) == Bound(a) /\ Stay(<<"inplc", a>>)
Write(a) == Bound(a) /\ Stay(<<"write", a>>)
Resize(a, z) == Bound(a) /\ ~Viewed(a) /\ Cardinality(Sizes) > 1 /\ Become(ref, [size EXCEPT ![ref[a]] = z], <<"resize", a, z>>)
Pad(d, a, z) == Bound(a) /\ z >= SizeOf(a) /\ Cardinality(Sizes) > 1 /\ Fresh(d, z, <<"pad", d, a, z>>)
Hold(v, a) == Bound(a) /\ Become([ref EXCEPT ![v] = ref[a]], size, <<"hold", v, a>>)
Poke(v) == Bound(v) /\ Stay(<<"poke", v>>)
Forget(h) == Bound(h) /\ Become([ref EXCEPT ![h] = 0], size, <<"forget", h>>)

Init == ref = [h \in Holders |-> 0] /\ size = [k \in 1 .. N |-> 0] /\ act = <<"reset">>
Next == \/ \E d \in Regs, z \in Sizes : Make(d, z)
        \/ \E d, s \in Regs : Copy(d, s) \/ Bind(d, s) \/ Un(d, s) \/ Inpl(d, s)
        \/ \E d, a, b \in Regs : Op2(d, a, b)
        \/ \E a \in Regs : InplC(a) \/ Write(a)
        \/ \E a \in Regs, z \in Sizes : Resize(a, z)
        \/ \E d, a \in Regs, z \in Sizes : Pad(d, a, z)
        \/ \E v \in Views, a \in Regs : Hold(v, a)
        \/ \E v \in Views : Poke(v)
        \/ \E h \in Holders : Forget(h)
Spec == Init /\ [][Next]_vars

(* ---- checked by TLC on every situation and step                                                                     *)
TypeOK == ref \in [Holders -> 0 .. N] /\ size \in [1 .. N -> Sizes \union {0}]
(* objects exist exactly as long as something refers to them, numbered without gaps                                    *)
Alive == Used(ref) = 1 .. Cardinality(Used(ref)) /\ \A k \in 1 .. N : (size[k] # 0) = (k \in Used(ref))
NoAlias == Aliases \/ \A a, b \in Regs : a # b /\ Bound(a) => ref[a] # ref[b]
(* a step changes the binding of at most one holder, and the size of at most the object it names                       *)
Target(a) == IF a[1] \in {"make", "copy", "bind", "un", "op2", "pad", "hold", "forget"} THEN {a[2]} ELSE {}
Same(f, g, h, k) == (f[h] = f[k]) = (g[h] = g[k])
Frame == [][ /\ \A h, k \in Holders \ Target(act') : Same(ref, ref', h, k) /\ (ref[h] = 0) = (ref'[h] = 0)
             /\ \A h \in Holders \ Target(act') : ref[h] # 0 =>
                    (size'[ref'[h]] = size[ref[h]] \/ (act'[1] = "resize" /\ ref[h] = ref[act'[2]])) ]_vars
(* results and copies are new objects: nobody else refers to them                                                      *)
New == [][ act'[1] \in {"make", "copy", "un", "op2", "pad"} => \A h \in Holders : h # act'[2] => ref'[h] # ref'[act'[2]] ]_vars

Situation == <<ref, size>>
Flat(f) == [k \in 1 .. N |-> f[k - 1]]
Emit == PrintT(<<"step", Flat(ref), size, act', Flat(ref'), size'>>)
=============================================================================
