---- MODULE Scoped ----
(* All straight-line programs of nested scopes with scoped delegates, up to Len instructions, and what each must log.
   stack: the open scopes, innermost last: kind and the delegates constructed in it, in order.
   log: i: instruction i executes; 100*(n+1)+d: delegate d calls its function while n exceptions unwind;
        900: an exception is caught by a try scope (or the boundary of an unwind scope), 901: by the caller of the program.
   An unwind scope is a function that runs in a destructor while another exception unwinds.
   After an instruction that leaves scopes, control continues behind the outermost scope it left. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Length, Depth, Delegates
VARIABLES prog, stack, log, nd, done
Init == prog = <<>> /\ stack = <<[k |-> "program", ds |-> <<>>]>> /\ log = <<>> /\ nd = 0 /\ done = FALSE
Top == Len(stack)
Step == Len(prog) + 1
Calls(ds, base) == [i \in 1..Len(ds) |-> base + Reverse(ds)[i]]
Unwinding(st, h) == 100 * Cardinality({g \in 1..h : st[g].k = "unwind"})
RECURSIVE Unwind(_, _, _)          \* the calls made when the scopes above height h are left
Unwind(st, h, base) == IF Len(st) = h THEN <<>> ELSE Calls(st[Len(st)].ds, base + Unwinding(st, Len(st))) \o Unwind(SubSeq(st, 1, Len(st) - 1), h, base)
Nearest(kinds) == LET H == {h \in 1..Top : stack[h].k \in kinds} IN IF H = {} THEN 0 ELSE CHOOSE h \in H : \A g \in H : g <= h
Instr(i) == prog' = Append(prog, i)
Leave(h, base, more) == /\ log' = log \o <<Step>> \o Unwind(stack, h - 1, base) \o more
                        /\ stack' = SubSeq(stack, 1, h - 1) /\ done' = (h = 1) /\ UNCHANGED nd
Open == \E k \in {"block", "func", "try", "loop", "unwind"} :
  /\ Top < Depth /\ Instr(<<"open", k>>) /\ stack' = Append(stack, [k |-> k, ds |-> <<>>]) /\ log' = Append(log, Step) /\ UNCHANGED <<nd, done>>
Make == /\ nd < Delegates /\ nd' = nd + 1 /\ Instr(<<"make">>)
        /\ stack' = [stack EXCEPT ![Top].ds = Append(@, nd + 1)] /\ log' = Append(log, Step) /\ UNCHANGED done
Temp == /\ nd < Delegates /\ nd' = nd + 1 /\ Instr(<<"temp">>) /\ log' = log \o <<Step, 101 + nd + Unwinding(stack, Top)>> /\ UNCHANGED <<stack, done>>   \* lives for one statement
Close == Instr(<<"close">>) /\ Leave(Top, 100, <<>>)
Return == LET h == Nearest({"func", "unwind", "program"}) IN Instr(<<"return", h>>) /\ Leave(h, 100, <<>>)
Break == LET h == Nearest({"func", "unwind", "program", "loop"}) IN
  stack[h].k = "loop" /\ \E how \in {"break", "continue"} : Instr(<<how, h>>) /\ Leave(h, 100, <<>>)
Goto == \E h \in 2..Top : (\A g \in h..Top : stack[g].k \notin {"func", "unwind"}) /\ Instr(<<"goto", h>>) /\ Leave(h, 100, <<>>)
Throw == LET h == Nearest({"try", "unwind"}) IN
  Instr(<<"throw", h>>) /\ (IF h = 0 THEN Leave(1, 200, <<901>>) ELSE Leave(h, 200, <<900>>))
Next == ~done /\ Len(prog) < Length /\ (Open \/ Make \/ Temp \/ Close \/ Return \/ Break \/ Goto \/ Throw)
(* every delegate constructed so far has called its function exactly once, or is still in an open scope *)
Called(d) == Len(SelectSeq(log, LAMBDA x : x >= 100 /\ x < 900 /\ x % 100 = d))
InScope(d) == \E h \in 1..Top : \E i \in 1..Len(stack[h].ds) : stack[h].ds[i] = d
OncePerDelegate == \A d \in 1..nd : Called(d) = (IF InScope(d) THEN 0 ELSE 1)
Emit == done' /\ nd > 0 => PrintT("@E " \o ToJson([prog |-> prog', log |-> log']))
====
