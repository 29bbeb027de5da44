import json
O="ordinal-map/src/"
def P(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    return d
props=[
P("C01","Scalar key types number their values one-to-one",
 "For bool, char, every supported integer and non-zero integer type, comparison results and the uninhabited type, every value converts to a number below the type's declared value count, and converting that number back yields the same value. Every number below the count converts to some value whose number it is, and every number at or above the count, up to the largest machine word, converts to nothing. Neither conversion ever panics or overflows.",
 ["inputs"],"all values of each scalar key type, and all machine-word numbers passed to the reverse conversion",
 "Tests enumerate the small types, but for 32/64-bit types and for out-of-range numbers they probe only the count itself and usize::MAX; everything between (for example numbers above 2^32 for char) is untested.",
 [O+"ordinal/impls/primitive.rs",O+"ordinal/impls/non_zero.rs",O+"ordinal/impls/char.rs",O+"ordinal/impls/ordering.rs",O+"ordinal/impls/std.rs"],
 [("integer impls",O+"ordinal/impls/primitive.rs"),("non-zero impls",O+"ordinal/impls/non_zero.rs"),("surrogate gap skipping",O+"ordinal/impls/char.rs"),("Ordering table",O+"ordinal/impls/ordering.rs"),("Infallible",O+"ordinal/impls/std.rs")],
 observe=["Ordinal::ordinal","Ordinal::from_ordinal","Ordinal::ORDINAL_SIZE"]),
P("C02","Compound key types number their values one-to-one",
 "For optional, result, either, boxed, fixed-array and tuple keys built from any component key types that themselves number their values one-to-one, the compound's numbering is one-to-one onto zero up to its declared value count, conversion back inverts it, and numbers at or above the count convert to nothing. This includes components with no values at all and zero-length arrays and tuples. Neither conversion panics or overflows for a type that builds.",
 ["inputs","programs"],"all component key types (including empty ones), all compound values, all machine-word numbers, tuple arities 0..16, all array lengths",
 "The component type is a type parameter; tests instantiate a handful of tiny components, tuples only up to arity 3 and arrays only up to length 2.",
 [O+"ordinal/impls/std.rs",O+"ordinal/impls/either.rs",O+"ordinal/impls/boxed.rs",O+"ordinal/impls/array.rs",O+"ordinal/impls/tuple.rs","ordinal-map-derive/src/ordinal.rs"],
 [("Option/Result",O+"ordinal/impls/std.rs"),("Either",O+"ordinal/impls/either.rs"),("mixed-radix array loop",O+"ordinal/impls/array.rs"),("generated tuple impls","ordinal-map-derive/src/ordinal.rs impl_ordinal_for_tuple_n")],
 observe=["Ordinal::ordinal","Ordinal::from_ordinal","Ordinal::ORDINAL_SIZE"]),
P("C03","Derived key types number their values one-to-one",
 "For every struct or enum on which the derive builds, whatever the number, kind and types of its fields and variants, the generated numbering is one-to-one onto zero up to the declared value count, the declared count is the true number of values, conversion back inverts it, and larger numbers convert to nothing. Variants or fields whose type has no values are handled like any other. Neither conversion panics or overflows.",
 ["programs","inputs"],"all derivable struct/enum shapes over arbitrary component key types; all their values; all machine-word numbers",
 "The derive is a program generator: tests cover eleven small fixed types, none with more than two fields or three variants, none generic, none with an empty variant.",
 ["ordinal-map-derive/src/ordinal.rs"],
 [("size expression algebra","ordinal-map-derive/src/ordinal.rs SizeExpr"),("struct numbering","ordinal-map-derive/src/ordinal.rs struct_ordinal/struct_from_ordinal"),("enum offsets","ordinal-map-derive/src/ordinal.rs EnumGen")],
 observe=["derived Ordinal::ordinal","derived Ordinal::from_ordinal","derived Ordinal::ORDINAL_SIZE"]),
P("C04","Numbering agrees with the natural order of values",
 "For every provided key type and every derived one, a value that compares less than another has the smaller number: scalars numerically, none before some, ok before err, left before right, arrays, tuples and fields lexicographically with the first component most significant, and enum variants in declaration order whatever their explicit discriminants.",
 ["inputs","programs"],"all pairs of values of all provided and derivable key types",
 "Order is a relation over pairs of values of unboundedly many types; tests compare adjacent values of a few small types.",
 [O+"ordinal/impls/primitive.rs",O+"ordinal/impls/non_zero.rs",O+"ordinal/impls/char.rs",O+"ordinal/impls/std.rs",O+"ordinal/impls/array.rs","ordinal-map-derive/src/ordinal.rs"],
 [("documented contract",O+"ordinal/traits.rs"),("Horner scheme, first field most significant","ordinal-map-derive/src/ordinal.rs struct_ordinal")],
 observe=["Ordinal::ordinal"]),
P("C05","Key types with too many values fail to build instead of wrapping",
 "A result, either, array, tuple or derived key type whose number of values does not fit in a machine word can never be converted to or from numbers at run time: a program that does so is rejected at build time, and never computes a wrapped, duplicate or out-of-range number.",
 ["programs"],"all instantiations of result, either, array, tuple and derived key types whose value count overflows a machine word",
 "The failing programs must not compile, so no unit test can contain them; the guard is a lazily evaluated constant that each conversion must mention.",
 ["ordinal-map-derive/src/ordinal.rs",O+"ordinal/impls/std.rs",O+"ordinal/impls/either.rs",O+"ordinal/impls/array.rs"],
 [("size constant is forced inside each conversion","ordinal-map-derive/src/ordinal.rs check_overflow/check_zero_size")],
 observe=["build result","Ordinal::ordinal","Ordinal::from_ordinal"]),
P("C06","Total maps give every key its own value cell",
 "In both total map types, lookup, mutable lookup, indexing and insertion for a key reach the cell of exactly that key: a value written for a key is what every later read of that key returns, insertion returns the value it replaced, and no operation on one key changes what another key maps to. The reported length is always the number of possible keys and emptiness is exactly that length being zero.",
 ["inputs","histories"],"all key types, all keys, all values and all histories of operations",
 "The two total map types have no unit tests at all beyond one doc example.",
 [O+"map/total/map.rs",O+"map/total/array_map.rs"],
 [("cell index is the key's number",O+"map/total/map.rs get/get_mut/insert/Index"),("same, array-backed",O+"map/total/array_map.rs")],
 state=[("map","one cell per key, in ordinal order",O+"map/total/map.rs")],
 observe=["OrdinalTotalMap","OrdinalTotalArrayMap"]),
P("C07","Building and transforming total maps keeps each value with its key",
 "Constructing a total map from a function calls it exactly once per key in ascending order and stores each result under the key it was called with; a fallible constructor stops at the first error and returns it. Building from an array, taking reference views, zipping two maps, mapping values and extracting the values all keep every value associated with the same key.",
 ["inputs","programs"],"all key types, all initialiser and mapping functions, all contents",
 "Quantifies over caller-supplied functions and every key; there is one doc test with three keys and none of zip, map, as_ref, as_mut, try_new or from_array.",
 [O+"map/total/map.rs",O+"map/total/array_map.rs",O+"array_builder.rs",O+"array_from_iter.rs",O+"array_as_mut.rs"],
 [("try_new loops",O+"map/total/map.rs try_new"),("ArrayBuilder push order",O+"array_builder.rs"),("zip/map/as_mut",O+"map/total/array_map.rs")],
 observe=["OrdinalTotalMap::{new,try_new,default}","OrdinalTotalArrayMap::{new,try_new,from_array,as_ref,as_mut,zip,map,map_values,into_values}"]),
P("C08","Sparse maps behave as a finite partial function",
 "Starting from empty, insert, remove, lookup, mutable lookup, membership test, length, emptiness, the entry interface and collecting from pairs all agree with the mathematical partial map from keys to values: a key is present exactly when it was inserted and not since removed, later inserts win, replaced or removed values are returned, and operations on one key never affect another. Membership, lookup, length and iteration never disagree about which keys are present.",
 ["inputs","histories"],"all key types including empty ones, all keys, values and operation histories",
 "Tests only ever insert random u8 keys and then read; removal, membership, entries, emptiness and mixed histories are never exercised.",
 [O+"map/map.rs",O+"map/array_map.rs",O+"map/entry.rs"],
 [("optional cell per key",O+"map/map.rs"),("array-backed variant",O+"map/array_map.rs"),("entry typestate",O+"map/entry.rs"),("lazy allocation of all cells",O+"map/map.rs init_full_map")],
 state=[("map","either unallocated (empty) or one optional cell per key",O+"map/map.rs")],
 observe=["OrdinalMap","OrdinalArrayMap","Entry","VacantEntry","OccupiedEntry"]),
P("C09","Draining, clearing and retaining remove exactly the right entries",
 "Draining yields every present entry once with its own key and leaves the map empty however far and from whichever ends the drain was consumed before being dropped; clearing leaves the map empty. Retaining calls the predicate exactly once per present entry with that entry's key and value, removes exactly the entries it rejects and keeps all others, including changes the predicate made to kept values.",
 ["inputs","histories"],"all contents, all consumption patterns of the drain, all predicates",
 "Drain and clear have no test; retain is sampled with a pure predicate on u8 keys only.",
 [O+"map/iter.rs",O+"map/map.rs",O+"map/array_map.rs"],
 [("drain iterator and its drop",O+"map/iter.rs Drain"),("retain loop",O+"map/array_map.rs retain"),("clear",O+"map/map.rs clear")],
 observe=["OrdinalMap::{drain,clear}","OrdinalArrayMap::{drain,clear,retain}","Drain"]),
P("C10","Map iteration yields each entry once, in key order, from both ends",
 "Every iterator of every map type (shared, mutable, owning, keys, values) yields exactly the entries present, each exactly once and paired with its own key, in ascending key-number order from the front and descending from the back, under any interleaving of front and back steps; once the ends meet it keeps returning nothing. Mutable iterators give access to the very cells of the map, and iterating a borrowed or mutable view changes no entry by itself.",
 ["inputs","histories"],"all map contents, all interleavings of next and next_back, all key types",
 "Tests only collect a sparse map forward once; backward and mixed stepping, total-map iterators, keys, values and mutable iterators are untested.",
 [O+"map/enumerate.rs",O+"map/iter.rs",O+"map/total/iter.rs",O+"map/map.rs",O+"map/array_map.rs",O+"map/total/map.rs",O+"map/total/array_map.rs"],
 [("key counter paired with slice position",O+"map/enumerate.rs"),("skip vacant cells",O+"map/iter.rs"),("total iterators",O+"map/total/iter.rs")],
 state=[("next","number of the key of the front-most remaining cell",O+"map/enumerate.rs")],
 observe=["map::{Iter,IterMut,Keys,Values,ValuesMut,IntoIter,IntoIterArray}","map::total::{Iter,IterMut,IntoIter,IntoIterArray}"]),
P("C11","Iterators never misreport how many elements remain",
 "For every iterator in the library that offers an exact length, that length and both bounds of its size hint equal the number of elements it will still yield, at every point of its consumption from either end. For every other iterator the lower bound never exceeds and the upper bound, if given, is never less than the number it will still yield; every specialised counting or last-element method agrees with stepping through the iterator.",
 ["inputs","histories"],"all iterators, all contents, every intermediate consumption state",
 "Only the 64-element set iterator's length is sampled; every other length and hint in intermediate states is untested.",
 [O+"map/enumerate.rs",O+"map/iter.rs",O+"map/total/iter.rs",O+"set/iter.rs",O+"set/set64.rs",O+"values.rs"],
 [("size_hint/len implementations",O+"map/iter.rs"),("total iterators",O+"map/total/iter.rs"),("popcount",O+"set/set64.rs"),("range length",O+"values.rs")],
 observe=["Iterator::size_hint","ExactSizeIterator::len","Iterator::count","Iterator::last"]),
P("C12","Sets behave as mathematical sets",
 "In all three set types an element is contained exactly when it was inserted (or collected, or the set was built as the full set), insertion returns true exactly when the element was absent, inserting one element never changes the membership of another, and a new or default set contains nothing. Two sets of the comparable type are equal exactly when they have the same members; the full set has every value of the key type as a member, for every key type the set type accepts, up to and including 64 values.",
 ["inputs","histories"],"all key types (sizes 0, 1, 63, 64, 65, beyond), all elements, all insertion histories",
 "Tests use one four-valued enum and two 8/16-bit types; the boundary sizes 0 and 64 and equality are never reached.",
 [O+"set/set.rs",O+"set/set64.rs",O+"set/array.rs",O+"set/set_ref.rs",O+"set/set_mut.rs"],
 [("bit addressing",O+"set/set_ref.rs contains"),("bit setting",O+"set/set_mut.rs insert"),("single-word set",O+"set/set64.rs"),("small/large representation",O+"set/set.rs")],
 state=[("words","bit n of the word array is membership of the value numbered n",O+"set/set_ref.rs")],
 observe=["OrdinalSet","OrdinalSet64","OrdinalArraySet"]),
P("C13","Set iteration yields exactly the members, in order, from both ends",
 "Iterating a set yields exactly its members, each once, in ascending number order from the front and descending from the back, under any interleaving of front and back steps, and afterwards keeps returning nothing. Iterating does not change the set.",
 ["inputs","histories"],"all set contents, all interleavings of next and next_back, all key types",
 "Only full forward and full reverse sweeps of small sets are sampled; mixed stepping is not.",
 [O+"set/iter.rs",O+"set/set64.rs",O+"values.rs"],
 [("filter all values by membership",O+"set/iter.rs"),("lowest/highest set bit removal",O+"set/set64.rs Iter64")],
 observe=["set::Iter","set::Iter64"]),
P("C14","Enumerating a key type yields every value once, in order",
 "The all-values iterator of any key type yields every value of the type exactly once in ascending number order from the front and descending from the back, under any interleaving, then keeps returning nothing; a clone continues independently from the same position. It never panics for a key type that numbers its values one-to-one, and asking a total map for its keys gives the same enumeration.",
 ["inputs","histories"],"all key types, all interleavings of stepping and cloning",
 "Tests enumerate a few small types forward; interleavings and arbitrary key types are not covered.",
 [O+"values.rs",O+"ordinal/traits.rs",O+"map/total/map.rs",O+"map/total/array_map.rs"],
 [("range over ordinals",O+"values.rs OrdinalValues"),("all_values",O+"ordinal/traits.rs")],
 observe=["Ordinal::all_values","OrdinalValues","OrdinalTotalMap::keys","OrdinalTotalMap::into_keys"]),
P("C15","Containers with a wrong size parameter cannot be used",
 "A program that creates an array-backed map or set whose size parameter does not match its key type, or a single-word set for a key type with more than 64 values, by any public constructor, and uses it, is rejected at build time. With the matching size parameter the same program builds.",
 ["programs"],"all public constructors and uses of the size-parameterised containers, all mismatching sizes",
 "Rejected programs cannot be part of a compiling test suite; the one attempt in the tests is commented out.",
 [O+"map/total/array_map.rs",O+"map/array_map.rs",O+"set/array.rs",O+"set/set64.rs"],
 [("compile-time size assertion",O+"map/total/array_map.rs ASSERT"),("same for sets",O+"set/array.rs ASSERT"),("64 limit",O+"set/set64.rs ASSERT")],
 observe=["build result"]),
P("C16","Heap use follows the documented allocation discipline",
 "Array-backed maps, array-backed sets, the single-word set and all their iterators never allocate heap memory. The growable sparse map and set allocate nothing when created, looked up, removed from, iterated, drained or cleared; only a first insertion (or entry access) or cloning may allocate, later ones do not, and sets over at most 64 values never allocate.",
 ["inputs","histories"],"all key types, all operation histories",
 "No test observes allocation; the guarantee is over every path of every operation.",
 [O+"map/map.rs",O+"map/array_map.rs",O+"map/total/array_map.rs",O+"array_builder.rs",O+"set/set.rs",O+"set/set64.rs",O+"set/array.rs"],
 [("lazy init guarded by emptiness",O+"map/map.rs init_full_map"),("small/large set",O+"set/set.rs"),("in-place array building",O+"array_builder.rs")],
 observe=["global allocator calls"]),
P("C17","Every value is owned exactly once",
 "Every value moved into a container, array builder or iterator is either handed back to the caller exactly once or dropped exactly once, never both, never twice and never leaked, also when a caller-supplied function fails or panics half-way through construction or an iterator is dropped half-consumed. No operation reads uninitialised or already moved memory.",
 ["inputs","histories","fault_sequences"],"all value types with destructors, all contents, every failure or panic point in caller-supplied functions",
 "Requires observing destructors on every panic and early-exit path; tests use plain integers and never fail mid-construction.",
 [O+"array_builder.rs",O+"array_from_iter.rs",O+"array_as_mut.rs",O+"map/total/array_map.rs",O+"map/total/map.rs",O+"map/iter.rs"],
 [("initialised prefix counter and drop",O+"array_builder.rs"),("all unsafe code is here",O+"array_builder.rs")],
 state=[("filled","exactly the cells below this count are initialised",O+"array_builder.rs")],
 observe=["Drop of values","ArrayBuilder"]),
P("C18","Valid use never panics, in debug or release builds",
 "With key types that number their values one-to-one, and caller code that does not itself panic, no public operation of any map, set, iterator or atomic cell panics, overflows arithmetic, indexes out of bounds or trips an internal assertion, in builds with or without debug checks. This includes key types with zero, one, exactly 64 and more values, and containers that were never inserted into.",
 ["inputs","histories","configurations"],"all key types, contents and operation histories, debug and release builds",
 "Panic sites are reached only for particular key-type sizes and states (for example iterating a set over an empty key type) that no test instantiates.",
 [O+"map/map.rs",O+"map/array_map.rs",O+"map/total/map.rs",O+"map/total/array_map.rs",O+"map/enumerate.rs",O+"set/set.rs",O+"set/set64.rs",O+"set/set_ref.rs",O+"set/set_mut.rs",O+"values.rs",O+"atomic.rs"],
 [("unwrap of reverse conversion is in range",O+"map/enumerate.rs"),("word count assertion",O+"set/set_ref.rs"),("shift widths",O+"set/set64.rs")],
 observe=["panics"]),
P("C19","The atomic cell is one atomic step per operation, with the caller's ordering",
 "The atomic cell always holds a valid value: load returns a value some store, exchange or the constructor put there. Each load, store and compare-exchange performs exactly one atomic access, using the memory orderings the caller asked for in their own roles; compare-exchange succeeds exactly when the current value equals the expected one, never spuriously, installs the new value only then, and returns the previous value as success or failure accordingly.",
 ["schedules","inputs"],"all interleavings of threads, all values, all memory orderings",
 "One single-threaded doc example with relaxed ordering; weak orderings, spurious failure and torn read-modify-write only show under concurrency or on weaker hardware.",
 [O+"atomic.rs"],
 [("single hardware atomic per call",O+"atomic.rs")],
 state=[("atomic","ordinal of the current value",O+"atomic.rs")],
 observe=["AtomicOrdinal::{new,load,store,compare_exchange}"]),
P("C20","Clones are equal and independent",
 "Cloning a map or set gives a container with the same keys, each mapped to a clone of its value, and cloning an iterator gives one that yields the same remaining elements from both ends; the original is not changed and later changes to either copy do not affect the other. Default containers are the same as newly created ones, with every value of a total map set to the value type's default.",
 ["inputs","histories"],"all contents and all intermediate iterator states",
 "No test clones a container or an iterator at all.",
 [O+"map/map.rs",O+"map/array_map.rs",O+"map/total/map.rs",O+"map/total/array_map.rs",O+"map/iter.rs",O+"map/total/iter.rs",O+"map/enumerate.rs",O+"set/set.rs",O+"set/set64.rs",O+"set/array.rs",O+"set/iter.rs",O+"values.rs"],
 [("Clone impls copy storage and position",O+"map/enumerate.rs"),("storage clones",O+"map/map.rs")],
 observe=["Clone::clone","Default::default"]),
P("C21","Derive accepts arbitrary names, generics and macro contexts",
 "The derive builds for every struct or enum whose field types are key types, whatever its fields and variants are called (including names the generated code uses itself), whatever visibility, lifetimes, const or trait-bounded type parameters and where-clauses it has, and whether it is written directly or produced by a declarative macro. Names in scope at the use site never change what the generated code means.",
 ["programs"],"all derivable type definitions and their surrounding scopes",
 "Quantifies over programs; tests use eleven hand-written types with plain names and no generics or macros.",
 ["ordinal-map-derive/src/ordinal.rs"],
 [("local variable names in generated code","ordinal-map-derive/src/ordinal.rs struct_from_ordinal"),("paths in generated code","ordinal-map-derive/src/ordinal.rs derive_ordinal")],
 observe=["build result of derive users"]),
P("C22","Point operations take constant time",
 "Lookup, mutable lookup, indexing, membership, insertion, removal and entry access on any map or set, and load, store and compare-exchange on the atomic cell, do an amount of work independent of the number of possible keys and of stored elements, apart from the key's own conversion and the one-time allocation on first insertion.",
 ["inputs"],"all key types, however many values they have, and all contents",
 "Tests check results, not cost; a linear scan gives the same answers.",
 [O+"map/map.rs",O+"map/array_map.rs",O+"map/total/map.rs",O+"map/total/array_map.rs",O+"set/set.rs",O+"set/set64.rs",O+"set/array.rs",O+"set/set_ref.rs",O+"set/set_mut.rs",O+"atomic.rs"],
 [("direct indexing by number",O+"map/map.rs"),("bit addressing",O+"set/set_ref.rs")],
 observe=["work done per operation"]),
P("C23","The type system confines borrows, mutation and threads",
 "Safe code cannot obtain two live mutable references to the same cell, keep a reference beyond the container's lifetime or across its mutation, duplicate a mutable or draining iterator, or move or share between threads a container whose keys or values do not allow it. Conversely containers, iterators and the atomic cell of thread-safe types can be moved and shared between threads, and read-only views are covariant in lifetimes.",
 ["programs"],"all safe client programs",
 "Programs that must be rejected cannot appear in a compiling test suite, and auto-trait or variance regressions break no existing test.",
 [O+"map/iter.rs",O+"map/total/iter.rs",O+"map/entry.rs",O+"map/map.rs",O+"map/total/map.rs",O+"set/iter.rs",O+"set/set.rs",O+"atomic.rs",O+"values.rs"],
 [("lifetimes on iterator and entry types",O+"map/iter.rs"),("auto traits through fields",O+"atomic.rs")],
 observe=["build result"]),
P("C24","Debug output shows exactly the contents and consumes nothing",
 "Debug-formatting a map, set or iterator lists exactly the entries or elements present or still to be yielded, each with its own key, in ascending order, and formatting leaves the container or iterator unchanged. The atomic cell prints its current value.",
 ["inputs","histories"],"all contents and all intermediate iterator states",
 "Only the all-values iterator's own format is tested.",
 [O+"map/map.rs",O+"map/array_map.rs",O+"map/total/map.rs",O+"map/total/array_map.rs",O+"map/iter.rs",O+"map/total/iter.rs",O+"set/set.rs",O+"set/set64.rs",O+"set/set_ref.rs",O+"set/iter.rs",O+"values.rs",O+"atomic.rs"],
 [("Debug impls delegate to iteration over a shared view",O+"map/iter.rs")],
 observe=["Debug::fmt"]),
]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in props))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props: jsonschema.validate(p,s)
print(len(props))
