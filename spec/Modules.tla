---- MODULE Modules ----
(* What a program that imports modules can name.  xme passes on everything the others export. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Most                                 \* the greatest number of imports
Exports == [
  container |-> {"Array", "ArrayView", "LinkedList", "AlignedData", "Pair", "make_pair", "Tuple", "apply", "get", "swap", "tie", "make_tuple", "forward_as_tuple", "tuple_cat",
                 "as_bytes", "as_writable_bytes", "CAllocator", "CTupleLike", "CPairLike"},
  functional |-> {"bind_front", "bind_back", "Delegate"},
  iterators |-> {"ReverseIterator"},
  utility |-> {"forward_like"},
  math |-> {"pi", "e", "phi", "ln_ten", "ln_two", "sqrt_two", "sqrt_three", "Vector", "Matrix", "Quaternion", "perspective", "perspective_rh", "radians", "degrees",
            "sin", "cos", "tan", "sec", "csc", "cot", "arcsin", "arccos", "arctan",
            "bvec2", "bvec3", "bvec4", "ivec2", "ivec3", "ivec4", "uvec2", "uvec3", "uvec4", "vec2", "vec3", "vec4", "dvec2", "dvec3", "dvec4", "mat2", "mat3", "mat4", "dmat2", "dmat3", "dmat4"}]
Parts == DOMAIN Exports
Modules == Parts \cup {"xme"}
Reach(imports) == UNION {IF m = "xme" THEN UNION {Exports[p] : p \in Parts} ELSE Exports[m] : m \in imports}
VARIABLES imports, names
Init == imports = {} /\ names = {}
Import(m) == m \notin imports /\ Cardinality(imports) < Most /\ imports' = imports \cup {m} /\ names' = names \cup Reach({m})
Next == \E m \in Modules : Import(m)
Agree == names = Reach(imports) /\ ("xme" \in imports => \A m \in Modules : Reach({m}) \subseteq names)
Emit == PrintT("@E " \o ToJson([imports |-> imports', names |-> names']))
====
