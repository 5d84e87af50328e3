prop("P01", "Pinned in-place construction cannot be subverted by safe code",
 "A value that must not move is, through safe code, only ever created in place by an initializer, seen through pinned references, and never moved, overwritten, duplicated or unpinned afterwards; access never outlives the storage that holds it. Types declared recursively pinned are never freely movable, are built with every field initialized exactly once with a matching initializer, project only to equally pinned, equally visible, equally short-lived fields, and have no destructor that sees them unpinned. Whatever would break this is only reachable through code marked unsafe, and all ordinary uses stay accepted.",
 ["programs"], "every safe client program of the in-place construction library and its derive/attribute macros",
 "A test is one client program that compiles; the claim is about programs that must not compile, none of which the test suite contains.",
 ["support/ctor.rs", "support/ctor_proc_macros.rs"],
 [("RvalueReference/ConstRvalueReference/ByValue, Slot, emplace!/ctor!/mov!, Emplace", "support/ctor.rs"), ("#[recursively_pinned], project!, CtorFrom derive", "support/ctor_proc_macros.rs")],
 WT, note=WN)
prop("P03", "Upcasts follow declared inheritance and preserve mutability, pin, lifetime",
 "A reference, pinned reference or pointer to a C++ class is only converted to one of its declared base classes, never sideways or downwards. The result has the same mutability, is pinned whenever the source was pinned, and a converted reference lives no longer than the source. Converting raw pointers, dereferencing their result, and declaring inheritance need code marked unsafe.",
 ["programs"], "every safe client program and every pair of classes",
 "The tests only contain conversions that are allowed; the property is about those that must be rejected.",
 ["support/oops.rs"], [("Inherits, Upcast, UnsafeUpcast", "support/oops.rs")], WT, note=WN)
prop("P04", "C++ reference wrappers are nullable-free, lifetime-bound and access-checked",
 "The wrapper types for C++ references carry the lifetime and mutability of what they refer to: they are never made from a shorter-lived, null or less mutable source, or turned into a longer-lived, more mutable or safe Rust reference, without code marked unsafe. Copying is possible only for shared access, and wrappers cross threads only when their referent may. They have exactly the layout of a non-null pointer.",
 ["programs"], "every safe client program and referent type",
 "Tests exercise allowed conversions of a few types; forbidden programs do not compile and so cannot be tests.",
 ["support/cref.rs"], [("CRef, CMut and their conversions", "support/cref.rs")], WT, note=WN)
prop("P05", "Forward-declared types convert only between the same named C++ type",
 "An incomplete (forward-declared) type is identified by the fully qualified name it stands for: pointers, references, pinned references and containers of it convert to and from the complete type of the same name, and never to a type with another name or between two complete types. Conversions preserve mutability, pinning and lifetime, and never produce an unpinned mutable reference. An incomplete value can never be created, moved, sized or dropped by safe code.",
 ["programs"], "every safe client program and pair of names",
 "Tests contain conversions that must work; those that must be rejected cannot be part of a compiling test suite.",
 ["support/forward_declare.rs", "support/forward_declare_proc_macros.rs"],
 [("Incomplete, IncompleteCast, Symbol types", "support/forward_declare.rs"), ("symbol!", "support/forward_declare_proc_macros.rs")], WT, note=WN)
prop("P06", "Type-erased futures stay Send, pinned, single-owner and lifetime-bound",
 "Only a real future that may be sent to another thread can be erased, and the erased forms may in turn be sent; an erased future is only polled through a pin and by its single owner, is never forged, cloned or reachable from outside, and never outlives what the original future borrows. Polling into a raw output or waker pointer needs code marked unsafe. A unit future wrapper accepts only unit-output futures, and taking its future out consumes the wrapper.",
 ["programs"], "every safe client program and future type",
 "Tests poll a handful of valid futures; misuse must fail to compile and so cannot be a test.",
 ["support/rs_std/erased_future.rs", "support/rs_std/dyn_erased_future.rs", "support/rs_std/dyn_future.rs"],
 [("ErasedFuture (sealed)", "support/rs_std/erased_future.rs"), ("DynErasedFuture", "support/rs_std/dyn_erased_future.rs"), ("DynFuture", "support/rs_std/dyn_future.rs")], WT, note=WN)
prop("P07", "Bridged values, C++ indexing and deletion are typed, owned and unsafe-gated",
 "Encoding a value for the other language consumes it and accepts exactly the value type of its wire format (optionals, tuples and callables mapping position by position, with the wire size being the sum of the parts); decoding, raw encoding, callable relocation and declaring a wire format need code marked unsafe, and encoder positions cannot be forged. An element obtained through C++-style indexing keeps its container borrowed, exclusively and through a pin when mutable. Deleting through a raw pointer and claiming C++ delete semantics need code marked unsafe, and recovering an unnameable type from a function accepts only capture-free witnesses of exactly that type.",
 ["programs"], "every safe client program, wire format and container type",
 "Tests round-trip a few well-typed values; ill-typed or double uses must not compile.",
 ["support/crubit_bridge_rust/src/bridge.rs", "support/rs_std/dyn_callable.rs", "support/operator.rs", "support/decltype_cast.rs"],
 [("CrubitAbi, TransmuteAbi, OptionAbi, tuples", "support/crubit_bridge_rust/src/bridge.rs"), ("DynCallableAbi, manager", "support/rs_std/dyn_callable.rs"), ("CcIndex, CcIndexMut, Delete", "support/operator.rs"), ("decltype_cast", "support/decltype_cast.rs")], WT, note=WN)
WG = "abstract interpretation of the generator's MIR: the token templates it emits are computed for every valuation of the predicates it branches on, and compared by a rule"
prop("P13", "C++ and Rust sides of every thunk agree on the calling convention",
 "For any parameter or return type - primitive, pointer, struct, array, tuple and its elements, bridged type, future - and any feature set, the generated C++ declaration, the generated C++ call, the Rust thunk signature and the Rust thunk body pass it the same way: by value, through a pointer to the object, as an encoded buffer, or as an array of element pointers. A thunk that constructs an object (Default, Clone, From/Into) either returns it by value or writes it to the object under construction, and the C++ constructor that calls it does the same.",
 ["inputs", "configurations"], "every signature: all combinations of kind, bridging, C-ABI compatibility, drop glue and feature flags per position",
 "The four generators branch on the same predicates independently; tests sample a few types and compare text of one side, a mismatch for another combination only shows as memory corruption in the linked program.",
 ["cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs", "cc_bindings_from_rs/generate_bindings/generate_function.rs", "cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs", "cc_bindings_from_rs/generate_bindings/lib.rs"],
 [("generate_thunk_decl, generate_thunk_impl", "cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs"), ("generate_thunk_call, cc_param_to_c_abi, cc_return_value_from_c_abi", "cc_bindings_from_rs/generate_bindings/generate_function.rs"), ("constructors from Default/Clone/From/Into thunks", "cc_bindings_from_rs/generate_bindings/lib.rs")],
 WG, note="Predicate results (kind, bridged, C-ABI compatible, needs drop, features) are enumerated, not derived from rustc; loops over parameters are summarised per element; nesting of tuples is unrolled once.")
prop("P16", "C++ special members follow the Rust type's traits",
 "For every Rust struct, enum and union and for rs_std::Option, Result, Tuple and Vec, whatever combination of drop glue, Copy, Clone, Default and Unpin the type has: a type with drop glue has a destructor that drops it (every element of a tuple) exactly once, and no other type has one; copies are trivial for Copy types, go through Clone otherwise, and are deleted when there is neither; a type is moved trivially only without drop glue and by swapping with a default value only when it is Default and Unpin, otherwise moves copy or are deleted. A special member that is defaulted is asserted to be trivial in the header, and every member, assertion and thunk generated for a type reaches the emitted code.",
 ["inputs", "configurations"], "every combination of traits of the type",
 "Tests have one type for a few of the combinations and compare text; a wrong choice compiles and shows as a double drop, a leak or a bitwise copy of an owner at run time.",
 ["cc_bindings_from_rs/generate_bindings/lib.rs", "cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs", "cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs", "cc_bindings_from_rs/generate_bindings/database/adt_core_bindings.rs"],
 [("generate_adt, generate_trait_thunks", "cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs"), ("generate_default_ctor, copy_ctor_style_to_snippets, move_ctor_style_to_snippets", "cc_bindings_from_rs/generate_bindings/lib.rs"), ("CopyCtorStyle, MoveCtorStyle", "cc_bindings_from_rs/generate_bindings/database/adt_core_bindings.rs"), ("specialize_option, specialize_result, specialize_tuple, specialize_vec", "cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs")],
 WG, note="The trait predicates are enumerated, not derived from rustc. Members with other templates (converting constructors, operators) are only followed into the class, not judged.")
prop("P18", "Generated code transfers ownership across the boundary exactly once",
 "An argument whose type needs dropping is moved out of the C++ object into storage that C++ never destroys (or moved into the encoding), and the Rust thunk takes it out exactly once; a result is written, never assigned, into uninitialised storage by Rust and taken out by C++ exactly once. This also holds for the elements of tuples and arrays and for every kind of bridging.",
 ["inputs", "configurations"], "every signature with types that have drop glue",
 "A double drop or leak only shows at run time for the particular combination of kind, bridging and drop glue, of which tests contain a few.",
 ["cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs", "cc_bindings_from_rs/generate_bindings/generate_function.rs"],
 [("cc_param_to_c_abi, cc_return_value_from_c_abi", "cc_bindings_from_rs/generate_bindings/generate_function.rs"), ("convert_value_from_c_abi_to_rust, write_rs_value_to_c_abi_ptr", "cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs")],
 WG, note="Bounds as for P13.")
prop("P15", "Generated classes assert and reproduce the Rust layout",
 "For every Rust struct, union and enum that gets a C++ class of its own, the header asserts the size and alignment of the class and the offset of every field that is not zero-sized, and the Rust half asserts the size, the alignment and the offset of every public field, each with the number from rustc's layout; the payload of a repr(C) enum is asserted to start after the tag. In a struct or union every such field is either a member of its own C++ type with the field's own access, or private bytes exactly filling its place if its type is not supported; gaps between fields of a struct are filled with private bytes.",
 ["inputs", "configurations"], "every combination of kind of type, repr, supported or not, public or not, with or without padding, for any two consecutive fields",
 "Layouts are rustc's choice and change with the type, the compiler and the target; tests compile a few types on one target. A missing assertion is invisible until bindings and crate disagree, and then reads and writes the wrong bytes.",
 ["cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs"],
 [("generate_adt, generate_fields, AdtFieldGenerator", "cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs")],
 WG, note="Assertions and members of one field are read off the emitted token templates; access is followed over any two consecutive fields.")
prop("P32", "rs_std Option, Result, Vec and Tuple follow rustc's layout",
 "For rs_std::Option and rs_std::Result, whichever tag encoding and niche rustc picked, the generated accessors agree with Rust: is_none and has_value hold exactly for the tag values Rust uses for that variant, setting a variant writes exactly that tag (nothing where the payload's niche holds it), the tag is read and written at its offset in native byte order, and payload pointers point at that variant's payload with its type. A Vec's data and size are its pointer and length; every element of a Tuple is constructed, converted and destroyed once, at its own offset with its own type. The C++ type has the size and alignment of the Rust type and is generated from the layout of that very type.",
 ["inputs", "configurations"], "both containers and encodings, each untagged variant, both byte orders, symbolic discriminants, niches, offsets and sizes",
 "rustc chooses encodings, niches and field order per type and target; tests compile a few payload types on one target and do not run the C++ side.",
 ["cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs"],
 [("specialize_option, specialize_result, specialize_vec, specialize_tuple, compute_vec_layout_offsets", "cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs")],
 WG, note="What rustc's layout queries return is trusted; literal_of_tag_ty is taken to print the value truncated to the tag's type.")
WI = "object-lifetime typestate over the compiler's IR: witness instantiations of the headers are compiled to LLVM IR and every control-flow path is run through a construct/move/relocate/destroy automaton"
prop("P31", "C++ support types construct, move and destroy every value exactly once",
 "Slot, Movable, rs_std Option and Result, the bridging codecs, MemSwap, move-assign-or-reconstruct, DynCallable and DynErasedFuture only construct over raw storage, only use, move from or destroy live objects, and destroy or hand over each object exactly once - from every state (empty, holding, moved-from) and for copyable, move-only, unassignable and relocatable types, self-assignment included. The value ends up where the operation says, has_value and operator bool agree with what is held, and moving never copies. An Option's none tag is never written over, nor read against, a live payload.",
 ["inputs", "histories"], "every value type with non-trivial special members and every reachable state of the wrapper",
 "The cargo tests never run these headers with counting types, and a leak or double destruction shows only for particular states and type traits.",
 ["support/internal/slot.h", "support/movable.h", "support/bridge.h", "support/rs_std/option.h", "support/rs_std/result.h", "support/internal/move_assign.h", "support/internal/memswap.h", "support/rs_std/dyn_callable.h", "support/rs_std/dyn_erased_future.h"],
 [("Slot, Slot<std::array>", "support/internal/slot.h"), ("Movable", "support/movable.h"), ("TransmuteAbi, TupleAbi, PairAbi, OptionAbi, BoxedAbi", "support/bridge.h"), ("OptionBase", "support/rs_std/option.h"), ("ResultBase", "support/rs_std/result.h"), ("DynCallable, DynCallableAbi", "support/rs_std/dyn_callable.h"), ("DynErasedFuture", "support/rs_std/dyn_erased_future.h")],
 WI, note="One witness type per combination of special members; wrapper states are built by constructors and moves. Special members of the held type are opaque, assumed not to throw, and to write only their own object.")
WR = "cross-language agreement over both compilers' IR: the stores of one side's encoder are matched symbolically against the loads of the other side's decoder, and symbols, layouts and vtable entries are compared declaration against definition"
prop("P08", "The Rust and C++ halves of every support-library protocol agree",
 "A value encoded by the Rust CrubitAbi codecs (transmute, tuple, option, and their compositions, DynCallable included) is decoded by the C++ codecs with every part intact and the same buffer size, and the reverse. Every C function that a Rust support crate and a C++ support header share has the same parameters and result on both sides, and slice, str, char and FFI slice views have the same layout. Each operation of a Rust Waker made over a C++ waker calls the C++ method that stands for it exactly once; polling an erased future only borrows the waker, and writes the output exactly when it reports ready.",
 ["inputs", "configurations"], "every value of every composed wire format, every waker operation",
 "Each half is compiled and tested on its own; nothing in the cargo tests links the C++ headers with the Rust crates, so a changed offset, size, flag or entry point compiles everywhere and corrupts memory in the user's program.",
 ["support/crubit_bridge_rust/src/bridge.rs", "support/bridge.h", "support/rs_std/dyn_callable.rs", "support/rs_std/dyn_callable.h", "support/rs_std/dyn_erased_future.rs", "support/rs_std/dyn_future.rs", "support/rs_std/erased_future.rs", "support/rs_std/waker.cc", "support/rs_std/cpp_waker.cc", "support/rs_std/slice_ref.h", "support/rs_std/str_ref.h", "support/rs_std/lossy_formatter_for_bindings.rs", "common/ffi_types.rs"],
 [("CrubitAbi impls", "support/crubit_bridge_rust/src/bridge.rs"), ("TransmuteAbi, TupleAbi, PairAbi, OptionAbi", "support/bridge.h"), ("RS_STD_WAKER_VTABLE", "support/rs_std/dyn_erased_future.rs"), ("RS_STD_CPP_WAKER_VTABLE", "support/rs_std/dyn_future.rs"), ("poll_erased", "support/rs_std/erased_future.rs"), ("FfiU8Slice, FfiU8SliceBox", "common/ffi_types.rs")],
 WR, note="21 composed formats with up to 12 parts and every combination of present and absent options; x86-64 layout; the values of the parts are symbolic.")
WO = "interprocedural taint analysis over the generator's MIR: every traversal of a hash table is followed through adapters, collections, closures, loops, calls and memoised queries to where its order is erased or escapes"
prop("P11", "Output never depends on hash iteration order or other run-to-run state",
 "No hash-map or hash-set iteration order reaches the emitted header, the emitted Rust file or the metadata, nor decides which of several elements is chosen or in what order errors and items appear: whatever is iterated is sorted or collected into an ordered or unordered container first. The generator consults no clock, random or per-process hash state, process or thread id, or address. The order used to sort generated items compares every field by which their equality tells them apart.",
 ["inputs", "histories"], "every crate and every run of the generator on it",
 "A test compares one run with one golden text; an order dependence needs several entries in one table and shows in some runs only.",
 ["cc_bindings_from_rs/generate_bindings/lib.rs", "cc_bindings_from_rs/generate_bindings/database/code_snippet.rs", "cc_bindings_from_rs/toposort.rs", "common/code_gen_utils.rs"],
 [("generate_crate, forward declarations, NodeSortKey", "cc_bindings_from_rs/generate_bindings/lib.rs"), ("CcPrerequisites, ExternCDecl", "cc_bindings_from_rs/generate_bindings/database/code_snippet.rs"), ("format_cc_includes, NamespacedTokens", "common/code_gen_utils.rs")],
 WO, note="rustc's own queries are taken to be deterministic; the order of directory listings and of elements whose sort keys tie is not decided.")
WZ = "abstract interpretation: the generator's MIR per valuation of a parameter, and the C++ check's LLVM IR in a zone (difference-bound) domain"
prop("P19", "Aliasing mutable references never reach Rust from generated C++ calls",
 "Whenever a Rust function has a mutable reference parameter (self included) and at least one other reference parameter, the generated C++ code checks, before it calls the Rust thunk and however the result is returned, that no memory range of a mutable reference overlaps the range of another mutable reference or of a shared reference to a type that is neither zero-sized nor has interior mutability. The check aborts exactly when two such non-empty ranges overlap; the range of a reference, pointer, slice or string is all of the bytes it refers to. References that Rust allows to alias are not checked.",
 ["inputs", "configurations"], "every signature (any number and kind of reference parameters, any way of returning) and every address and length of the arguments",
 "Aliasing depends on run-time addresses and on how many references there are; the tests compare the text of a few calls and never run the check.",
 ["cc_bindings_from_rs/generate_bindings/generate_function.rs", "support/internal/check_no_mutable_aliasing.h", "support/internal/check_no_mutable_aliasing.cc", "support/rs_std/slice_ref.h", "support/rs_std/str_ref.h"],
 [("generate_thunk_call, refs_to_check_for_aliasing", "cc_bindings_from_rs/generate_bindings/generate_function.rs"), ("CheckNoMutableAliasing, PtrLike", "support/internal/check_no_mutable_aliasing.h"), ("HasMutableAliasingSpans", "support/internal/check_no_mutable_aliasing.cc")],
 WZ, note="The C++ check is analysed for up to 5 mutable and 5 shared arguments; std::sort is replaced by a simple sort through the same comparator; addresses are taken not to wrap around. References inside other types are not checked by crubit and not covered.")
WC = "abstract interpretation of the LLVM IR clang makes of the headers (interval sets, bit provenance, loop invariants at cut points, zero/non-zero pointers); compile-fail witnesses with valid twins"
prop("P09", "C++ char_, StrRef and SliceRef only ever hold values that are valid in Rust",
 "char_::from_u32 and the compile-time constructors of char_ accept exactly the Unicode scalar values and keep the value; len_utf8 and encode_utf8 give exactly its UTF-8 encoding, write nothing else and abort when the buffer is too small. StrRef::FromUtf8 and the compile-time constructors of StrRef accept exactly the strings that are valid UTF-8, read only the bytes of the string, and keep its address and length. Every SliceRef and StrRef, however it was constructed, stores a non-null aligned address and the given length (a null pointer becomes the empty slice), gives both back through its accessors, and two of them are equal exactly when their contents are; a constructor that would let a run-time or invalid value through unchecked, or a mutable slice be made from constant data, does not compile.",
 ["inputs"], "every 32-bit value, buffer length, string of any length and content, address and length",
 "The tests try a few characters and strings; surrogates, overlong forms, truncations and lengths fill a space no sample covers, and a program that must not compile is in no test.",
 ["support/rs_std/char.h", "support/rs_std/char.cc", "support/rs_std/str_ref.h", "support/rs_std/slice_ref.h", "support/rs_std/internal/is_utf8.h"],
 [("char_", "support/rs_std/char.h"), ("encode_utf8", "support/rs_std/char.cc"), ("IsUtf8, IsUtf8Char", "support/rs_std/internal/is_utf8.h"), ("StrRef", "support/rs_std/str_ref.h"), ("SliceRef", "support/rs_std/slice_ref.h")],
 WC, note="libstdc++ layouts of span, vector, string_view and string; string addresses are taken to be non-null; slices of elements are analysed for a null and a non-null address and lengths 0 to 8 and beyond.")
WB = "abstract interpretation: the generator's MIR gives the emitted text, which is compiled with the support headers; every IR path of every accessor is analysed for all values of tag, index and length"
prop("P10", "Absent Option/Result values and out-of-range Vec elements are never read",
 "In every build mode, operator*, operator-> and the conversion to std::optional of rs_std::Option, and operator*, operator->, value(), error() and err() of rs_std::Result, give access to the payload exactly when the tag says that it is the one present, and abort otherwise (the conversion is then empty). Vec's operator[] gives element i exactly when i is less than size() and aborts otherwise; begin() and end() delimit exactly the elements. An IteratorAdapter calls next() once when it is made and once per increment, equals the end exactly when the last next() gave nothing, and operator* gives the last item or does not return.",
 ["inputs"], "every tag value, tag encoding, index, length, value category and constness, with and without NDEBUG",
 "Tests call a few accessors on present values and in one build mode; a missing check shows only on an absent value or an index at the edge.",
 ["support/rs_std/option.h", "support/rs_std/result.h", "support/rs_std/iterator_adapter.h", "support/internal/check.h", "cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs"],
 [("OptionBase", "support/rs_std/option.h"), ("ResultBase", "support/rs_std/result.h"), ("IteratorAdapter", "support/rs_std/iterator_adapter.h"), ("CRUBIT_CHECK", "support/internal/check.h"), ("Vec accessors", "cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs")],
 WB, note="iter_move of an adapter at its end and Vec's data() have the preconditions of their std counterparts and are not claimed.")
WD = "abstract interpretation: the generator's MIR gives the trait/operator table and the emitted text; the text is compiled against opaque models and every IR path compared with what the Rust trait means"
prop("P34", "C++ operators, ordering, printing and loops mean what the Rust traits mean",
 "Every C++ operator generated from a Rust operator trait (Index, IndexMut, PartialEq, Neg, Not, the arithmetic, bit and shift operators and their compound assignments) has the name that stands for that trait and calls that trait's method. operator<=> generated from Ord and PartialOrd compares the object with its argument in this order, once, through that trait, and gives less, equal (or equivalent), greater and unordered exactly when Rust says Less, Equal, Greater and None; a partial order is not exposed as a stronger one. AbslStringify and operator<< write the whole Display string to their sink exactly once; begin() and into_iter() iterate over the object itself through the IntoIterator implementation of exactly that kind of access (const, mutable, consuming), and begin() of an iterator advances that iterator in place.",
 ["inputs"], "every operator trait, every outcome of a comparison, every kind of access",
 "The stable tests contain no operator, comparison, Display or loop at all beyond golden text, and a wrong pairing or a folded outcome still compiles.",
 ["cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs"],
 [("generate_trait_operator_impls", "cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs"), ("generate_ord_impls, generate_partial_ord_impls", "cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs"), ("generate_display_impl", "cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs"), ("generate_begin_and_end_for_type", "cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs")],
 WD, note="How operands are passed is P13's; which of several colliding overloads is kept is not decided. The text of each operator is compiled against model types.")
WO2 = "typestate analysis (uninitialised / live / moved out) of the compiler's drop-elaborated MIR along every path, unwind edges included; user constructors, callbacks and destructors may return, fail or panic; local calls are followed"
prop("P02", "In-place construction makes and drops each value once, panics included",
 "Every constructor of the in-place construction library (the Ctor implementations and the expansion of ctor! with its field guards) leaves its destination initialised exactly when it returns Ok, and empty - everything it had already built dropped exactly once - when it returns Err or a constructor or callback it calls panics. construct, emplace into Box, Rc, Arc and Slot, assign and reconstruct never construct over a live value, never drop, return or expose one that is not live, and never release memory or return while abandoning a live one; reconstruct and abort_on_unwind never let a panic escape. A Slot is marked occupied exactly while it holds a live value, at every exit of every method, also when the old value's destructor or the new value's constructor panics.",
 ["inputs", "crash_points"], "every path through every constructor, every point at which user code may fail or panic, every state of a slot",
 "Tests run the successful paths and a few errors; a panic between two steps of an initialisation is never exercised, and its effect is a double drop or a leak.",
 ["support/ctor.rs", "support/ctor_proc_macros.rs"],
 [("Ctor implementations, construct, reconstruct, abort_on_unwind, Slot, Emplace, Assign, macro_internal::init_field", "support/ctor.rs"), ("ctor!", "support/ctor_proc_macros.rs")],
 WO2, note="Destructors of captured arguments (not of the value under construction) are assumed not to panic. What safe client code may do with the results is P01's.")
prop("P35", "Constants and enumerators have exactly their Rust value and type in C++",
 "A Rust constant, or an enumerator of a Rust enum exposed as a C++ enum, appears in C++ under its own name with the C++ type of its Rust type and a literal that denotes exactly its value: every value of every integer type including both extremes, bool and the C types of ffi_11; every finite float (as a literal of its own type); every str with its exact bytes and length, embedded NULs and following digits included. A value without a C++ literal (an infinity, a NaN, a pointer) gets no binding instead of a wrong one. The C++ type printed for each Rust primitive has its size and its signedness.",
 ["inputs"], "every value of every primitive type (partitioned into intervals and float shapes), every string",
 "Tests convert a handful of values; the literal rules differ at the extremes, for whole floats, for infinities and for strings with NULs.",
 ["cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs", "cc_bindings_from_rs/generate_bindings/lib.rs", "cc_bindings_from_rs/generate_bindings/format_type.rs"],
 [("scalar_value_to_string, generate_cpp_enum", "cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs"), ("generate_const", "cc_bindings_from_rs/generate_bindings/lib.rs"), ("format_ty_for_cc (primitives)", "cc_bindings_from_rs/generate_bindings/format_type.rs")],
 WD, note="The decimal text Rust's formatting and apfloat produce for a number is trusted to round-trip.")
WE = "abstract interpretation of the compiler's MIR, calls into rustc uninterpreted, under every valuation of the facts that decide exposure (visibility, name, resolution, stability, attributes, outcome, granted features): effects that a valuation forbids must be unreachable, those it requires must be on every path"
prop("P36", "Only public, stable, permitted items are bound; failures are reported",
 "A definition found in a module gets a path (and, if it is a module, enum or trait, its children are traversed) exactly when it is public, named other than `_`, a definition that is neither foreign nor a constructor, and not unstable (name-clashing SIMD items and std::os aside). Of these, exactly the ones that are not do_not_bind, not from an ignored file, and canonical in this crate are generated; public, stable associated functions and constants likewise, also of stable trait items only; and nothing whose required crubit features are not all granted is emitted. An item that cannot be bound is never dropped silently: its error is reported and takes its place in the header, it is fatal exactly when the item is must_bind, and after a fatal error cc_bindings_from_rs fails without writing any output file.",
 ["inputs"], "every combination of visibility, name, resolution, kind, stability, attributes, features and generation outcome",
 "Tests generate a few public items; what must not be exposed, and what must fail, is mostly not exercised.",
 ["cc_bindings_from_rs/generate_bindings/lib.rs", "cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs", "cc_bindings_from_rs/generate_bindings/database/code_snippet.rs", "cc_bindings_from_rs/lib.rs", "common/error_report.rs"],
 [("public_paths_by_def_id, formatted_items_in_crate, generate_item, generate_unsupported_def", "cc_bindings_from_rs/generate_bindings/lib.rs"), ("generate_associated_item", "cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs"), ("resolve_feature_requirements", "cc_bindings_from_rs/generate_bindings/database/code_snippet.rs"), ("run_with_tcx", "cc_bindings_from_rs/lib.rs"), ("FatalErrors", "common/error_report.rs")],
 WE, note="Which of several public paths is canonical, and which features a construct requires, are not decided here.")
prop("P37", "A field is accessible from C++ exactly when it is public and stable",
 "A data member of a generated struct, union or enum variant is declared under public access exactly when its Rust field is public and not unstable; the bytes that stand in for a field of an unsupported type, and padding, are always private. No C++ constructor from a variant's fields is generated when one of them is not public and stable, or when the field list is non_exhaustive; no conversion treats a type as a newtype of a field that is not public and stable; no enumerator of a cpp_enum is made from a constant that is not public and stable.",
 ["inputs"], "every sequence of field visibilities, stabilities and supported or unsupported types",
 "A wrong access specifier appears only after particular sequences of public, private, padded and unsupported fields, and does not change layout or behaviour.",
 ["cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs", "cc_bindings_from_rs/generate_bindings/lib.rs"],
 [("field_def_is_pub_and_stable", "cc_bindings_from_rs/generate_bindings/lib.rs"), ("AdtFieldGenerator, CcFieldVisState, generate_variant_ctor, is_newtype_relationship, generate_cpp_enum", "cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs")],
 WE)
WX = "must-analysis on the compiler's MIR: the C++ names a generator function writes are read off its compiled quotations; the headers certainly recorded on every path that produces text are propagated through summaries of callees and to every caller and entry point"
prop("P33", "Generated headers include what declares the names the generator writes",
 "Whenever the generator itself writes into a generated header a name from its vocabulary of the C++ standard library (such as std::array, std::int8_t, std::move, std::strong_ordering, std::string_view, offsetof) or of Crubit's support library (names in crubit::, rs_std:: and rs::, CRUBIT_ and crubit_ macros), a header that declares that name is recorded among the includes on every path that produces the text. Every recorded specialization of rs_std::Option, Result, Tuple or Vec is recorded together with the support header that declares its template, which exists.",
 ["inputs"], "every function that writes text and every path through it and its callers",
 "Tests look for fragments of the header and end-to-end tests include other headers first, so a missing include shows up only when a header with just that construct is included first.",
 ["cc_bindings_from_rs/generate_bindings/format_type.rs", "cc_bindings_from_rs/generate_bindings/generate_function.rs", "cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs", "cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs", "cc_bindings_from_rs/generate_bindings/database/code_snippet.rs", "common/code_gen_utils.rs"],
 [("format_ty_for_cc", "cc_bindings_from_rs/generate_bindings/format_type.rs"), ("CcInclude", "common/code_gen_utils.rs"), ("RsStdTemplateSpecialization::support_header", "cc_bindings_from_rs/generate_bindings/database/code_snippet.rs")],
 WX, note="Assumes that recorded includes reach the header (P38). Names in C++ text taken from user attributes are the user's headers' concern; std::get, std::make_tuple and rs_std::StrRef written for a value are covered where its type is formatted.")
WY = "dataflow on the compiler's MIR: backward slices (through closures and callees) of what is merged, ordered and emitted, with must-pass conditions over every path and every iteration of the assembling loop; partial drops of snippets whose tokens were moved out"
prop("P38", "What a piece of C++ text needs is never lost on its way into the header",
 "The prerequisites recorded with a piece of generated C++ text (includes, definitions, forward declarations, features, specializations, lazily needed specializations) survive: merging prerequisites, taking or appending a snippet, collecting or prepending snippets and weakening definitions to forward declarations keep every kind of them, and no function that passes prerequisites on uses a snippet's tokens and drops its prerequisites. When the header is assembled, the includes of every item and of the implementation details are emitted; a forward declaration is generated for everything an item needs forward-declared unless an earlier item declared it; every definition and specialization an item needs is an ordering constraint unless it is not generated here or is the item itself; every specialization recorded anywhere, by specializations too, is generated; and forward declarations come first.",
 ["inputs"], "every kind of prerequisite, every path of the merging functions, every iteration of the assembly",
 "A lost prerequisite breaks only headers in which nothing else happens to need it; tests look at fragments of the output of small inputs.",
 ["cc_bindings_from_rs/generate_bindings/database/code_snippet.rs", "cc_bindings_from_rs/generate_bindings/lib.rs"],
 [("CcPrerequisites, CcSnippet, ApiSnippets", "cc_bindings_from_rs/generate_bindings/database/code_snippet.rs"), ("generate_crate, generate_specializations_fixpoint", "cc_bindings_from_rs/generate_bindings/lib.rs")],
 WY, note="That the sort itself respects its constraints is not decided. A forward declaration of a C++ enum returns text only, without the prerequisites of its underlying type, which come with its definition.")

LIBS = "its sources need Clang/LLVM development libraries (and a recent abseil) that are not installed, so no resolved program can be obtained here; "
for _id, _t, _s, _r, _f in [
 ("P40", "Inferred lifetimes are sound", "A lifetime the analysis infers for a C++ function never lets Rust use a reference after what it refers to has ended.", LIBS + "and the claim is about the semantics of arbitrary analysed C++ programs, beyond a static argument over the analyser's own source", ["lifetime_analysis"]),
 ("P41", "Nullability verification misses no violation it is specified to report", "A dereference of a nullable pointer, or a nullable value passed where nonnull is required, is reported.", LIBS + "and soundness of a dataflow analysis over arbitrary C++ programs is not decidable by inspecting its transfer functions one by one", ["nullability"]),
 ("P42", "Rust bindings of C++ declarations are faithful", "A C++ declaration imported by rs_bindings_from_cc gets a Rust binding with its layout, calling convention and ownership, or none.", LIBS + "only its collect_instantiations part builds", ["rs_bindings_from_cc"]),
 ("P43", "Every generated header and crate compiles", "For every supported Rust crate the generated C++ and Rust compile.", "quantifies over all Rust crates and both compilers' acceptance; no static argument over the generator in reach bounds that (P13, P15, P33 and P38 decide parts of it)", ["cc_bindings_from_rs"]),
]:
    prop(_id, _t, _s, ["inputs"], "every input program", "Inputs are programs; tests sample a few.", _f, [(_t, _f[0])], "none")
    na(_id, _r)
