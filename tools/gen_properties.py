import json
D='funcmap_derive/src/'; L='funcmap/src/'
def P(id,title,stmt,over,q,why,files,mech,obs,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    return {"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a}
impls=[L+'impls_core.rs',L+'impls_alloc.rs',L+'impls_std.rs',L+'array.rs']
props=[
P("C01","Provided mappings transform each element once, in order, shape preserved",
 "For every standard-library type the crate supports out of the box that keeps its elements by position (arrays, boxes, cells, options, results, polls, control-flow values, bounds, ranges, vectors, deques, linked lists and the owning iterators of these), mapping calls the closure exactly once per contained value of the selected type parameter, in the container's own order (range start before end). The result has the same variant, length and positions, with each value replaced by what the closure returned for it, and everything of the other type parameters unchanged. This holds for the infallible mapping and for a fallible mapping whose closure never fails, whatever sequence of operations produced the container (including partially consumed iterators and wrapped-around deques).",
 ["inputs","histories"],"every supported positional container, every construction history and element count, every element identity",
 "The tests map one- and two-element containers of unit values and almost only with the infallible trait, so order, positions, partially consumed iterators and wrap-around states are never distinguished.",
 impls,[("per-type implementations of the two traits",L+"impls_*.rs"),("fallible array mapping",L+"array.rs")],["return value","sequence of closure calls"]),
P("C02","Provided mappings of keyed, set and heap containers rebuild correct ones",
 "Mapping a set, heap, map key, map value or owning iterator of one of these calls the closure exactly once for every contained value of the selected type parameter and yields a fully functional container of the same kind holding exactly the mapped contents: entries keep their key/value pairing, heaps keep every element, ordered containers are ordered by the new values. When several new keys or set elements compare equal they collapse to one, and for maps the value of the one visited last is kept. Ordered maps and sets are visited in ascending order; mapping map values never changes keys.",
 ["inputs","histories"],"every map, set, heap and owning iterator over one, every construction history, every assignment of new keys including order-reversing and merging ones",
 "The tests use a single entry, so pairing, re-ordering, merging and multiplicity are unobservable in them.",
 [L+'impls_alloc.rs',L+'impls_std.rs'],[("collecting into a new container",L+"impls_alloc.rs, impls_std.rs")],["return value","sequence of closure calls"]),
P("C03","Provided fallible mappings stop at the first failure and return that error",
 "For every standard-library type supported out of the box, a fallible mapping succeeds if and only if every closure call succeeded. Otherwise it returns precisely the error of the first failing call in visiting order, and the closure is not called again after it failed.",
 ["inputs","fault_sequences"],"every supported container and construction history, every pattern of closure successes and failures",
 "Existing tests check fallible mapping only for three array cases and derived structs; the other fallible implementations are never run with a failing closure.",
 impls,[("per-type fallible implementations",L+"impls_*.rs"),("fallible array mapping",L+"array.rs")],["return value","sequence of closure calls"]),
P("C04","Every value is dropped exactly once whether mapping succeeds, fails or panics",
 "Whatever the closure does at each call (returns a value, returns an error, panics), every value that was in the container before the mapping, every value the closure produced and every error is dropped exactly once overall and never used after being dropped. No value is leaked, duplicated or lost, for the provided implementations and for derived ones alike.",
 ["inputs","fault_sequences","histories"],"every supported container and derived type, every closure outcome (success, error, panic) at every call",
 "Drop accounting is tested only for one array length with three fixed outcomes.",
 impls+[D+'map.rs',D+'derive.rs'],[("guard that cleans up the partially filled target array",L+"array.rs"),("ownership transfer through standard iterators",L+"impls_*.rs")],["destructor calls of tracked values"],
 [("init_until_idx","how much of the target array is initialised",L+"array.rs")]),
P("C05","Fallible mapping with a never-failing closure equals infallible mapping",
 "For every provided implementation and every type deriving both traits, the fallible mapping with a closure that always succeeds returns success with exactly the value the infallible mapping returns for the same input and closure. Both call the closure with the same values in the same order, select the same type parameter for the same marker and have the same result type.",
 ["inputs","programs"],"every supported or derived type for every type parameter, every value, every closure",
 "Tests never run both traits on the same value; the two are implemented separately for every standard type and generated by separate code paths.",
 impls+[D+'derive.rs',D+'derivable.rs',D+'map.rs'],[("parallel implementations",L+"impls_*.rs"),("trait-dependent code generation",D+"derivable.rs")],["return values","sequence of closure calls"]),
P("C06","Functor laws hold",
 "Mapping the identity function returns an equal value, and mapping a composition g after f gives the same result as mapping f and then mapping g. This holds for every provided implementation and every derived one, for the infallible and the fallible trait, as long as the functions do not merge distinct map keys or set elements.",
 ["inputs","programs"],"every supported or derived type and type parameter, every value, every pair of composable (key-injective) functions",
 "No test states either law; the documentation promises both.",
 impls+[D+'map.rs'],[("per-type implementations",L+"impls_*.rs"),("structural code generation",D+"map.rs")],["return values compared by full observable state"]),
P("C07","Mapping over different type parameters is independent and commutes",
 "For a type with several type parameters, mapping over one of them changes only the values of that parameter. Mapping over two different parameters with functions that do not merge distinct map keys or set elements gives the same result in either order; fallible mappings agree on the successful result, and on the error when a single value makes its closure fail.",
 ["inputs","programs","fault_sequences"],"every provided or derived type with at least two type parameters, every value, every pair of parameters, every closure outcome in which at most one value fails",
 "Tests map one parameter at a time on a handful of fixed types.",
 impls+[D+'derive.rs',D+'map.rs',D+'input.rs'],[("one implementation per type parameter marker",D+"derive.rs"),("markers of provided implementations",L+"impls_*.rs")],["return values"]),
P("C08","Array mapping is memory safe for every length, element layout and outcome",
 "Mapping an array, fallibly or infallibly, never reads uninitialised memory, never accesses memory out of bounds, never violates alignment or aliasing rules and never frees anything twice, for every array length, every size and alignment of the source, target and error types (including zero-sized ones) and every outcome of every closure call, including panics, also when arrays are nested.",
 ["inputs","fault_sequences"],"every array length (including zero), source/target/error layout and position and kind of a failing call",
 "Unsafe code is exercised with lengths 0 and 3 of one element type and without a memory-safety monitor.",
 [L+'array.rs',L+'impls_core.rs'],[("drop guard and initialisation index",L+"array.rs"),("special case for length zero",L+"array.rs")],["memory accesses of the mapping (monitored)","return value"],
 [("init_until_idx","how much of the target array is initialised",L+"array.rs")]),
P("C09","Derived mapping transforms exactly the occurrences of the mapped parameter",
 "For a non-recursive struct or enum with supported field types, the derived mapping replaces every value of the mapped type parameter, at every nesting depth inside arrays, tuples, parenthesised types and named generic types, by the closure's result for it, exactly once each. The variant and every field, and every value whose type does not involve the parameter, stay as they were. The closure is called in the declaration order of the fields; inside one generic type that mentions the parameter in several arguments, argument by argument.",
 ["programs","inputs"],"every struct and enum definition built from supported field types, every value of it, every type parameter",
 "Tests cover a few dozen fixed field types with one value each and unit element types, so swapped fields, wrong argument positions and omitted or doubled occurrences at depth are not observable in general.",
 [D+'map.rs',D+'derive.rs',D+'syn_ext.rs'],[("structural recursion over the field type",D+"map.rs"),("dependency test and substitution of the parameter",D+"syn_ext.rs"),("pattern and constructor generation",D+"derive.rs")],["return value","sequence of closure calls"]),
P("C10","Derived fallible mapping returns the first error in field order",
 "For every type deriving the fallible trait, the mapping succeeds exactly when all closure calls succeed. Otherwise it returns the error of the first failing call, where calls are made in the declaration order of the fields and elements, and makes no further calls.",
 ["programs","inputs","fault_sequences"],"every derivable definition, every value, every pattern of closure successes and failures",
 "Only a few structs with fixed failing positions are tested.",
 [D+'map.rs',D+'derive.rs',D+'derivable.rs'],[("error propagation in generated code",D+"derivable.rs"),("field order of generated constructor",D+"derive.rs")],["return value","sequence of closure calls"]),
P("C11","Each mapped parameter gets exactly one implementation with the right marker",
 "Deriving generates one implementation per type parameter, selected by a marker whose number is the parameter's position among type and const parameters (lifetimes not counted), and no implementation for any other marker. Its result type is the same type with exactly that parameter replaced, all other parameters, const values and lifetimes kept. Uses of other generic types as field types address their parameters by the same numbering.",
 ["programs"],"every list of lifetime, const and type parameters (in any legal order, with defaults), every marker number, both traits",
 "Tests check a few fixed parameter lists and never the absence of implementations.",
 [D+'input.rs',D+'derive.rs',D+'map.rs',D+'syn_ext.rs'],[("numbering of type-like parameters",D+"input.rs"),("source and target argument lists",D+"derive.rs"),("numbering of arguments of nested types",D+"map.rs")],["trait implementations visible to the compiler","type of the result"]),
P("C12","Derived implementations apply exactly when the required bounds hold",
 "A derived implementation compiles and is available for a source and target type exactly when both satisfy the bounds and where clauses the definition puts on the parameter, every nested generic type that must be mapped is itself mappable between those types with the expected result, and the remaining field types are sized. Type recursion aside, if a nested type is not mappable for some types, the definition still compiles and simply has no implementation for those. Opt-outs of sizedness on the mapped parameter do not make the derive fail, and nothing beyond these conditions is demanded.",
 ["programs","inputs"],"every placement and kind of bound (inline, where clause, relating parameters, higher-ranked, associated types, lifetimes, sizedness opt-outs), every combination of types that do or do not satisfy them",
 "Tests check positive cases for fixed bounds; that nothing more (or less) is required is not checked over combinations.",
 [D+'derive.rs',D+'predicates.rs',D+'syn_ext.rs',D+'map.rs'],[("substitution of the parameter in bounds and predicates",D+"syn_ext.rs"),("deduplicated predicates",D+"predicates.rs"),("bounds for nested types",D+"map.rs")],["trait implementations visible to the compiler"]),
P("C13","Supported definitions are accepted, unsupported ones rejected where they occur",
 "Every struct or enum whose fields use the mapped parameter only through arrays, tuples of any length, parentheses and mappable named generic types is accepted by both derive macros. Every use of the parameter inside another kind of type (reference, pointer, slice, function type, trait object, associated type, ...), every union, and every item without type parameters is rejected by a compile error pointing at the offending code of the definition. The macros never panic and never accept such a use silently.",
 ["programs"],"every supported and unsupported type form, at every nesting position and in every kind of item, for both traits",
 "The compile-fail tests fix one position per unsupported form; acceptance tests fix a few dozen definitions.",
 [D+'map.rs',D+'input.rs',D+'derive.rs',D+'result.rs'],[("case analysis over type syntax",D+"map.rs"),("input validation",D+"input.rs")],["compiler diagnostics and their positions"]),
P("C14","All problems of a definition are reported in one compilation",
 "When a definition has several problems of the same kind (malformed or duplicate options, unknown or unsuitable parameters and misplaced helper attributes, or unsupported bounds and field types), every one of them is reported at its own place in a single compilation and by each derive macro. Problem-free parts of the definition are not blamed.",
 ["programs"],"every subset of injected problems in a definition, for both traits",
 "The compile-fail tests fix a few combinations.",
 [D+'result.rs',D+'input.rs',D+'opts.rs',D+'derive.rs'],[("error accumulation",D+"result.rs")],["compiler diagnostics and their positions"]),
P("C15","Generated code does not depend on the names chosen by the user",
 "Deriving works, with the same behaviour, whatever names the definition and its surroundings use for the type, its type, const and lifetime parameters, fields, variants, referenced types, traits and modules. Names that coincide with those the generated code introduces for itself, with standard prelude names, with the crate's own names or with raw identifiers do not conflict or get captured. The generated code does not rely on anything being imported.",
 ["programs"],"every name from a set covering all names generated code uses or could choose, in every role, and every combination of taken parameter names",
 "Tests cover a few fixed collisions; the choice of fresh names depends on the set of all names in the definition.",
 [D+'ident_collector.rs',D+'derive.rs',D+'map.rs',D+'input.rs'],[("collecting identifiers and choosing unused ones",D+"ident_collector.rs"),("absolute paths and hygienic spans in generated code",D+"derive.rs, map.rs")],["whether the program compiles","return value"],
 [("set of reserved identifiers","names that must not be chosen",D+"ident_collector.rs")]),
P("C16","Options select exactly the requested implementations",
 "The option listing parameters makes the derive generate implementations for exactly the listed type parameters, regardless of how the list is split over several attributes or ordered and with the marker numbers unchanged; without it all type parameters are mapped. The crate-path option makes generated code refer to the crate only through that path. Duplicate parameters, duplicate crate paths, unknown, lifetime or const parameters, empty or malformed options and options on fields or variants are rejected with a compile error; attributes of other tools are ignored.",
 ["programs","configurations"],"every subset and arrangement of listed parameters over attributes, every crate path form, every malformed or misplaced option",
 "Tests fix a few arrangements and never check the absence of implementations.",
 [D+'opts.rs',D+'input.rs'],[("option parsing and merging",D+"opts.rs"),("selection of mapped parameters",D+"input.rs")],["trait implementations visible to the compiler","compiler diagnostics"]),
P("C17","Types with a destructor cannot be derived",
 "Deriving either trait for a type that implements a destructor itself is always a compile error that names the conflict at the type, whatever its shape, parameters and bounds, even when no field would have to be moved out. Types whose fields have destructors but which have none themselves are accepted.",
 ["programs"],"every shape of type (unit-like, tuple, named, enum), parameter list, destructor bounds, and either trait",
 "One fixed struct per trait is tested.",
 [D+'derive.rs',L+'lib.rs'],[("marker trait with a blanket implementation for destructors",L+"lib.rs"),("generated marker implementation",D+"derive.rs")],["compiler diagnostics"]),
P("C18","Expansion is deterministic",
 "Deriving for the same definition always produces token-for-token the same implementations and the same error messages in the same order. The result does not depend on hash seeds, repetition, the position among other derives or which other definitions were expanded before.",
 ["programs","schedules"],"every definition with several parameters, bounds, options or errors, every iteration order of hash-based collections, every order of expansion",
 "A single run sees a single hash seed; a dependence on iteration order shows up only in some runs.",
 [D+'ident_collector.rs',D+'input.rs',D+'opts.rs',D+'predicates.rs'],[("insertion-ordered sets and maps",D+"predicates.rs, opts.rs"),("hash sets used for membership only",D+"ident_collector.rs, input.rs")],["expanded code","compiler diagnostics"]),
P("C19","Each feature configuration builds and provides exactly its documented types",
 "The crate builds with no features, with the allocation feature alone and with the standard-library feature, and provides both traits for exactly the core types, additionally the allocating types, and additionally the hash containers, respectively. Without the standard-library feature it does not link the standard library. For each provided type there is an implementation for every type parameter it can be mapped over and the result type is the same type with that parameter replaced.",
 ["configurations"],"every feature configuration, every supported standard type, every parameter marker, both traits, deriving in crates with and without the standard library",
 "Tests always run with all default features.",
 [L+'lib.rs']+impls[:3],[("conditional compilation of implementation modules",L+"lib.rs")],["whether the configuration builds","trait implementations visible to the compiler"]),
P("C20","Derives work identically in every language edition",
 "A definition that is legal in several editions of the language derives and behaves the same in all of them. Crates of any supported edition can derive the traits, including when names that became keywords later are used as raw or plain identifiers.",
 ["configurations","programs"],"every edition, every definition of the enumerated space",
 "One small file per old edition is tested.",
 [D+'derive.rs',D+'map.rs',D+'ident.rs'],[("edition-independent absolute paths",D+"derive.rs, ident.rs")],["whether the program compiles","return value"]),
P("C21","Derived code raises no compiler warnings of its own",
 "Deriving the traits never causes a compiler lint to fire that does not fire for the same definition without the derives, whatever lints the user enables and whatever deprecated, non-idiomatic, uninhabited or unusual items the definition uses. In particular a crate that turns warnings into errors keeps compiling.",
 ["programs","configurations"],"every definition of the enumerated space with all stable lints enabled",
 "A few fixed definitions with a few lints denied are tested.",
 [D+'derive.rs'],[("lint attributes on generated items",D+"derive.rs")],["compiler diagnostics"]),
P("C22","Explicit-marker mapping equals plain mapping and markers are closed",
 "The methods that name the marker explicitly behave exactly like the plain ones for the same marker: same result, same closure calls, same errors. A marker can only be one of the crate's own zero-value marker types, user code cannot add others, naming a marker the type has no implementation for does not compile, and the named marker alone determines which parameter is mapped.",
 ["programs","inputs"],"every provided or derived type, marker number, value and closure outcome",
 "One example per trait is tested, and nothing checks that wrong or foreign markers are rejected.",
 [L+'lib.rs'],[("default methods",L+"lib.rs"),("sealed marker trait",L+"lib.rs")],["return values","compiler diagnostics"]),
]
for p in props:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
    assert p['statement'].count('. ')<=2,(p['id'],p['statement'].count('. '))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in props))
print(len(props))
