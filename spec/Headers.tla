---- MODULE Headers ----
(* A translation unit includes headers one after the other; then every name that one of them is for can be used.
   Only what a header is for is asked of it; the parts of vector.hpp and matrix.hpp (vectors/..., matrices/...) offer nothing by themselves, but may come before or after. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Most
Containers == [
  aligned_data |-> {"AlignedData"}, array |-> {"Array"}, array_view |-> {"ArrayView", "as_bytes", "as_writable_bytes"}, concepts |-> {"CAllocator", "CTupleLike", "CPairLike"},
  linked_list |-> {"LinkedList"}, pair |-> {"Pair", "make_pair"}, spsc_queue |-> {"SPSCQueue"}, tuple |-> {"Tuple", "apply", "tie", "make_tuple", "forward_as_tuple", "tuple_cat", "get", "swap"}]
All(f) == UNION {f[x] : x \in DOMAIN f}
ScalarNames == {"sign"}
TrigNames == {"radians", "degrees", "sin", "cos", "tan", "sec", "csc", "cot", "arcsin", "arccos", "arctan"}
ConstantNames == {"pi", "e", "phi", "ln_ten", "ln_two", "sqrt_two", "sqrt_three"}
VectorNames == {"Vector", "lerp", "dot", "cross", "normalize", "reflect"}
MatrixNames == {"Matrix", "perspective", "perspective_rh", "ortho", "determinant", "transpose", "outer_product", "hadamard_product", "translate", "scale", "rotate"}
GlslNames == {"bvec2", "bvec3", "bvec4", "ivec2", "ivec3", "ivec4", "uvec2", "uvec3", "uvec4", "vec2", "vec3", "vec4", "dvec2", "dvec3", "dvec4", "mat2", "mat3", "mat4", "dmat2", "dmat3", "dmat4", "mix"}
Parts == {"math/vectors/vector2.hpp", "math/vectors/vector3.hpp", "math/vectors/vector4.hpp", "math/vectors/functions.hpp", "math/vectors/geometry.hpp",
          "math/matrices/functions.hpp", "math/matrices/matrix4x4.hpp", "math/matrices/perspective.hpp", "math/matrices/transformation.hpp"}
Offers ==
  [h \in {"container/" \o x \o ".hpp" : x \in DOMAIN Containers} |-> Containers[CHOOSE x \in DOMAIN Containers : h = "container/" \o x \o ".hpp"]]
  @@ ("container/container.hpp" :> All(Containers)) @@ ("container/container_policy.hpp" :> {"Capacity"}) @@ ("container/heap.hpp" :> {"Heap"}) @@ ("container/icontainer.hpp" :> {"IContainer"})
  @@ ("core/algorithm/find.hpp" :> {"find"}) @@ ("core/algorithm/reverse.hpp" :> {"reverse"}) @@ ("core/bit/has_single_bit.hpp" :> {"has_single_bit"})
  @@ ("core/concepts/arithmetic.hpp" :> {"CArithmetic"}) @@ ("core/concepts/different_from.hpp" :> {"CDifferentFrom"}) @@ ("core/concepts/concepts.hpp" :> {"CArithmetic", "CDifferentFrom"}) @@ ("core/concepts/constant_iterator.hpp" :> {"CConstantIterator"})
  @@ ("core/functional/bind.hpp" :> {"bind_front", "bind_back"}) @@ ("core/functional/delegate.hpp" :> {"Delegate"}) @@ ("core/functional/scoped_delegate.hpp" :> {"ScopedDelegate"})
  @@ ("core/iterators/const_iterator.hpp" :> {"ConstIterator"}) @@ ("core/iterators/iterator_traits.hpp" :> {"iter_const_reference_t"}) @@ ("core/iterators/reverse_iterator.hpp" :> {"ReverseIterator"})
  @@ ("core/type_traits/is_scoped_enum.hpp" :> {"is_scoped_enum"}) @@ ("core/type_traits/is_initializer_list.hpp" :> {"is_initializer_list"})
  @@ ("core/utility/to_unsigned.hpp" :> {"to_unsigned"}) @@ ("core/utility/forward_like.hpp" :> {"forward_like"})
  @@ ("hal/simd_detection.hpp" :> {"ESimd"}) @@ ("hal/std_detection.hpp" :> {"XME_LIBSTD_GCC"}) @@ ("hal/platform_macros.hpp" :> {"XME_PLATFORM_LINUX"}) @@ ("hal/architecture_detection.hpp" :> {"XME_ARCH_X86"})
  @@ ("hal/compiler_detection.hpp" :> {}) @@ ("hal/linux/platform_macros.hpp" :> {"DLLEXPORT"}) @@ ("hal/platform.hpp" :> {"get_environment_variable"}) @@ ("hal/linux/platform.hpp" :> {"get_environment_variable"}) @@ ("hal/shared_library.hpp" :> {"SharedLibrary"})
  @@ ("setup.hpp" :> {"XME_INLINE"}) @@ ("ranges/destroy.hpp" :> {"destroy_a"}) @@ ("ranges/uninitialized.hpp" :> {"uninitialized_copy_a", "destroy_a"})
  @@ ("math/constants.hpp" :> ConstantNames) @@ ("math/scalars/functions.hpp" :> ScalarNames) @@ ("math/scalars/trigonometry.hpp" :> TrigNames \cup {"pi"})
  @@ ("math/vector.hpp" :> VectorNames) @@ ("math/matrix.hpp" :> MatrixNames \cup VectorNames) @@ ("math/quaternion.hpp" :> {"Quaternion"}) @@ ("math/glsl_mapping.hpp" :> GlslNames)
  @@ ("math/math.hpp" :> ScalarNames \cup TrigNames \cup ConstantNames \cup VectorNames \cup MatrixNames \cup {"Quaternion"} \cup GlslNames)
  @@ [h \in Parts |-> {}]
H == DOMAIN Offers
Reach(s) == UNION {Offers[s[i]] : i \in 1..Len(s)}
VARIABLES seq, names
Init == seq = <<>> /\ names = {}
Include(h) == /\ Len(seq) < Most /\ \A i \in 1..Len(seq) : seq[i] # h
              /\ seq' = Append(seq, h) /\ names' = names \cup Offers[h]
Next == \E h \in H : Include(h)
(* what can be used depends on which headers are included, not on their order, and the summaries offer everything they summarize *)
Agree == names = Reach(seq)
ASSUME /\ \A x \in DOMAIN Containers : Containers[x] \subseteq Offers["container/container.hpp"]
       /\ \A h \in H : (\E p \in {"math/constants.hpp", "math/vector.hpp", "math/matrix.hpp", "math/quaternion.hpp", "math/glsl_mapping.hpp"} : h = p) => Offers[h] \subseteq Offers["math/math.hpp"]
Emit == PrintT("@E " \o ToJson([seq |-> seq', names |-> names']))
====
