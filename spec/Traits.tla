---- MODULE Traits ----
(* The type predicates over a grammar of types.  A type is a base, a qualification ("", "const", "volatile", "const volatile")
   and a reference ("", "&", "&&"). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Deep                                 \* whether to ask for more combinations
Unsigned == {"bool", "unsigned char", "char8_t", "char16_t", "char32_t", "unsigned short", "unsigned", "unsigned long", "unsigned long long"}
Signed == {"signed char", "char", "wchar_t", "short", "int", "long", "long long"}                \* char and wchar_t on x86-64 Linux
Integral == Signed \cup Unsigned
Floating == {"float", "double", "long double"}
UnderlyingTypes == {"", "bool", "char", "unsigned char", "int", "long", "unsigned long long", "char16_t"}
Enums == {[k |-> k, u |-> u] : k \in {"enum", "enum class"}, u \in UnderlyingTypes}
Others == {"Class", "Convertible", "Union", "int*", "void*", "std::nullptr_t", "int[3]", "int Class::*", "FnPtr", "Lambda", "std::initializer_list<int>", "std::vector<int>", "EnumPtr", "Wrap<Scoped>"}
Bare == {"void", "int()", "int[]"}             \* not used with qualifiers or references
Cvs == {"", "const", "volatile", "const volatile"}
Refs == {"", "&", "&&"}
Type(b, cv, ref) == [b |-> b, cv |-> cv, ref |-> ref]
Bases == Integral \cup Floating \cup Others
AllTypes == {Type(b, cv, ref) : b \in Bases, cv \in Cvs, ref \in Refs} \cup {Type(b, "", "") : b \in Bare}
EnumTypes == {[e |-> e, cv |-> cv, ref |-> ref] : e \in Enums, cv \in Cvs, ref \in Refs}
FewTypes == {Type(b, cv, ref) : b \in {"int", "long", "Class", "int*"} \cup IF Deep THEN {"unsigned", "std::vector<int>", "float"} ELSE {}, cv \in {"", "const"} \cup (IF Deep THEN {"volatile"} ELSE {}), ref \in Refs}
Plain(t) == t.cv = "" /\ t.ref = ""
Stripped(t) == Type(t.b, "", "")
Arith(t) == [floating |-> t.ref = "" /\ t.b \in Floating, integral |-> t.ref = "" /\ t.b \in Integral, signed |-> t.ref = "" /\ t.b \in Signed,
             unsigned |-> t.ref = "" /\ t.b \in Unsigned, arithmetic |-> t.ref = "" /\ t.b \in Floating \cup Integral, scoped |-> FALSE]
EnumArith(t) == [floating |-> FALSE, integral |-> FALSE, signed |-> FALSE, unsigned |-> FALSE, arithmetic |-> FALSE, scoped |-> t.ref = "" /\ t.e.k = "enum class"]
(* Tuple-like: a size, an element type and a way to get each element *)
Library == {"std::tuple", "std::pair", "std::array", "xme::Tuple", "xme::Pair"}
SizesOf(k) == IF k \in {"std::pair", "xme::Pair"} THEN {2} ELSE IF k = "xme::Tuple" THEN 1..4 ELSE 0..4
ElementsOf(k) == IF k = "std::array" THEN {"int", "std::string", "MoveOnly"} ELSE {"int", "std::string", "MoveOnly", "int&", "const int&", "const int", "int&&"}
TupleTypes == UNION {{[k |-> k, n |-> n, el |-> el, cv |-> cv, ref |-> ref] : n \in SizesOf(k), el \in ElementsOf(k), cv \in {"", "const"}, ref \in Refs} : k \in Library}
(* A class with n claimed elements of which element b (0: none) misses something *)
Homemade == {[size |-> s, n |-> n, bad |-> b, miss |-> m, cv |-> cv, ref |-> ref] : s \in {"right", "absent", "underived"}, n \in 0..3, b \in 0..3,
             m \in {"element", "get", "type"}, cv \in {"", "const"}, ref \in IF Deep THEN Refs ELSE {"", "&"}}
HomemadeTypes == {h \in Homemade : h.bad <= h.n /\ (h.bad = 0 => h.miss = "get")}
HomemadeLike(h) == h.size = "right" /\ h.bad = 0
(* Allocators *)
AllocTypes == [value : BOOLEAN, size : BOOLEAN, diff : BOOLEAN, allocate : {"right", "absent", "void*", "const", "static", "noexcept"}, deallocate : {"right", "absent", "unary", "static", "noexcept"}, ref : {"", "&"}]
AllocLike(a) == a.value /\ a.size /\ a.diff /\ a.allocate \in {"right", "static", "noexcept"} /\ a.deallocate \in {"right", "static", "noexcept"} /\ a.ref = ""
(* Iterators by what they give *)
IterTypes == [ref : {"int", "int&", "const int&", "int&&", "const int&&", "Proxy"}, shape : {"input", "forward", "random", "no increment", "no dereference"}, cv : {"", "const"}]
ConstIter(i) == i.shape \in {"input", "forward", "random"} /\ i.cv = "" /\ i.ref \in {"int", "const int&", "const int&&"}
VARIABLE case
Init == \/ \E t \in AllTypes : case = [k |-> "type", t |-> t, r |-> Arith(t)]
        \/ \E t \in EnumTypes : case = [k |-> "enum", t |-> t, r |-> EnumArith(t)]
        \/ \E t \in AllTypes : (t.b # "std::initializer_list<int>" \/ Plain(t)) /\ case = [k |-> "list", t |-> t, r |-> t.b = "std::initializer_list<int>"]
        \/ \E t, u \in FewTypes : case = [k |-> "different", t |-> t, u |-> u, r |-> t # u, self |-> Stripped(t) # u]
        \/ \E t \in TupleTypes : case = [k |-> "tuple", t |-> t, r |-> TRUE, pair |-> t.n = 2]
        \/ \E h \in HomemadeTypes : case = [k |-> "homemade", t |-> h, r |-> HomemadeLike(h), pair |-> HomemadeLike(h) /\ h.n = 2]
        \/ \E t \in AllTypes : t.b # "std::initializer_list<int>" /\ case = [k |-> "nontuple", t |-> t, r |-> FALSE]
        \/ \E a \in AllocTypes : case = [k |-> "allocator", t |-> a, r |-> AllocLike(a)]
        \/ \E i \in IterTypes : case = [k |-> "iterator", t |-> i, r |-> ConstIter(i)]
Next == FALSE /\ UNCHANGED case
Laws == case.k = "type" => (case.r.arithmetic <=> (case.r.floating \/ case.r.integral)) /\ (case.r.integral <=> (case.r.signed \/ case.r.unsigned)) /\ ~(case.r.signed /\ case.r.unsigned)
Emit == PrintT("@E " \o ToJson(case))
====
