---- MODULE Detect ----
(* What a program is compiled for, and what the library's macros say of it.
     platform   the operating system;  arch  the processor;  compiler, library, standard  what compiles it, which standard library and language standard
   A fact is a macro that is true (the PLATFORM and ARCH ones are always defined, as true or false) or defined (the others).
   Nothing is said of 64-bit ARM: whether it counts as ARM is left open. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Platforms == {"linux", "windows", "apple", "freebsd", "none"}
Archs == {"i386", "x86_64", "arm", "aarch64", "riscv64", "ppc64", "s390x", "mips64", "wasm32"}
Compilers == {"gcc", "clang"}
Libraries == {"gnu", "llvm", "none"}
Standards == {20, 23}
VARIABLE t
Init == t \in [platform : Platforms, arch : Archs, compiler : Compilers, library : Libraries, standard : Standards]
Next == UNCHANGED t
True(x) ==
  (CASE x.platform = "linux" -> {"XME_PLATFORM_LINUX"} [] x.platform = "windows" -> {"XME_PLATFORM_WINDOWS"} [] x.platform = "apple" -> {"XME_PLATFORM_APPLE"} [] OTHER -> {})
  \cup (CASE x.arch \in {"i386", "x86_64"} -> {"XME_ARCH_X86"} [] x.arch = "arm" -> {"XME_ARCH_ARM"} [] OTHER -> {})
Defined(x) ==
  {IF x.compiler = "gcc" THEN "XME_COMPILER_GCC" ELSE "XME_COMPILER_CLANG"}
  \cup (CASE x.library = "gnu" -> {"XME_LIBSTD_GCC"} [] x.library = "llvm" -> {"XME_LIBSTD_CLANG"} [] OTHER -> {})
  \cup {IF x.standard >= 23 THEN "XME_CPP23" ELSE "XME_CPP20"}
AllTrue == {"XME_PLATFORM_LINUX", "XME_PLATFORM_WINDOWS", "XME_PLATFORM_APPLE", "XME_ARCH_X86", "XME_ARCH_ARM"}
AllDefined == {"XME_COMPILER_GCC", "XME_COMPILER_CLANG", "XME_LIBSTD_GCC", "XME_LIBSTD_CLANG", "XME_CPP20", "XME_CPP23"}
One(S, x) == Cardinality(S \cap x) <= 1
(* each question has at most one answer, and the standard and the compiler always have one *)
Laws == /\ One({"XME_PLATFORM_LINUX", "XME_PLATFORM_WINDOWS", "XME_PLATFORM_APPLE"}, True(t)) /\ One({"XME_ARCH_X86", "XME_ARCH_ARM"}, True(t))
        /\ Cardinality({"XME_COMPILER_GCC", "XME_COMPILER_CLANG"} \cap Defined(t)) = 1 /\ One({"XME_LIBSTD_GCC", "XME_LIBSTD_CLANG"}, Defined(t))
        /\ Cardinality({"XME_CPP20", "XME_CPP23"} \cap Defined(t)) = 1 /\ True(t) \subseteq AllTrue /\ Defined(t) \subseteq AllDefined
Open(x) == IF x.arch = "aarch64" THEN {"XME_ARCH_ARM"} ELSE {}
(* how symbols leave a library: by the attribute of the platform *)
Export(x) == CASE x.platform = "windows" -> "dllexport" [] x.platform = "linux" -> "visible" [] OTHER -> "unspecified"
Emit == PrintT("@E " \o ToJson([t |-> t, true |-> True(t), false |-> (AllTrue \ True(t)) \ Open(t), defined |-> Defined(t), undefined |-> AllDefined \ Defined(t), export |-> Export(t)]))
====
