---- MODULE Lifetime ----
(* Memory and object lifetimes as every container must use them.
   blk: the allocated blocks, each with its number of cells and the set of cells in which an object lives.
   tmp: the live objects outside of any block.
   A micro event is a tuple <<kind, block, cell, ...>>; block 0 stands for "no block" (a temporary).
     alloc b n | dealloc b n | ctor b i | copy b i sb si | move b i sb si | asg b i sb si | masg b i sb si | dtor b i
   Legal(e) says whether the event is allowed, BlkAfter/TmpAfter what it leads to. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES blk, tmp

HasBlock(b) == b \in DOMAIN blk
Live(b, i) == IF b = 0 THEN i \in tmp ELSE HasBlock(b) /\ i \in blk[b].live
Raw(b, i) == IF b = 0 THEN i # 0 /\ i \notin tmp ELSE HasBlock(b) /\ i < blk[b].n /\ i \notin blk[b].live

Micro == {"alloc", "dealloc", "ctor", "copy", "move", "asg", "masg", "dtor"}
Legal(e) ==
  CASE e[1] = "alloc"   -> ~HasBlock(e[2])
    [] e[1] = "dealloc" -> HasBlock(e[2]) /\ blk[e[2]].n = e[3] /\ blk[e[2]].live = {}   \* same size, nothing alive in it
    [] e[1] = "ctor"    -> Raw(e[2], e[3])
    [] e[1] \in {"copy", "move"}  -> Raw(e[2], e[3]) /\ Live(e[4], e[5])
    [] e[1] \in {"asg", "masg"}   -> Live(e[2], e[3]) /\ Live(e[4], e[5])
    [] e[1] = "dtor"    -> Live(e[2], e[3])
    [] OTHER -> FALSE
BlkAfter(e) ==
  CASE e[1] = "alloc" -> [k \in DOMAIN blk \cup {e[2]} |-> IF k = e[2] THEN [n |-> e[3], live |-> {}] ELSE blk[k]]
    [] e[1] = "dealloc" -> [k \in DOMAIN blk \ {e[2]} |-> blk[k]]
    [] e[1] \in {"ctor", "copy", "move"} /\ e[2] # 0 -> [blk EXCEPT ![e[2]].live = @ \cup {e[3]}]
    [] e[1] = "dtor" /\ e[2] # 0 -> [blk EXCEPT ![e[2]].live = @ \ {e[3]}]
    [] OTHER -> blk
TmpAfter(e) ==
  CASE e[1] \in {"ctor", "copy", "move"} /\ e[2] = 0 -> tmp \cup {e[3]}
    [] e[1] = "dtor" /\ e[2] = 0 -> tmp \ {e[3]}
    [] OTHER -> tmp
NoBlocks == [k \in {} |-> 0]
AllReleased == DOMAIN blk = {} /\ tmp = {}
====
