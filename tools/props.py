#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))
I="inputs";H="histories";F="fault_sequences";S="schedules";C="configurations"

p("C01","String views compare by content, totally ordered, same in C and C++",
  "For any two string views (including null and empty ones, and ones which overlap or share memory), comparison is zero exactly when they have the same length and bytes, and otherwise its sign is that of the lexicographic order of their bytes taken as unsigned, a proper prefix coming first. Equality and the C++ operators ==, != and < agree with it, and the order is antisymmetric and transitive.",
  [I],"every pair/triple of views over arbitrary bytes and arbitrary positions in shared or separate buffers, up to the stated length",
  "x-sv samples a handful of literals; aliasing views, embedded zeros, bytes >= 0x80 and prefix relations are not covered.",
  ["code/dnmx/bits/sv.h"],[("dnmx_sv_cmp / dnmx_sv_eq","code/dnmx/bits/sv.h"),("dnmx_sv operators","code/dnmx/bits/sv.h")],["dnmx_sv_cmp","dnmx_sv_eq","operator== != <"])
p("C02","String-view construction, length, prefix and character search are exact",
  "A view made from pointers, length, C string, literal or std::string_view denotes exactly those characters (a null C string gives a null view), and its null, empty and length queries say so. starts_with answers true exactly when the prefix characters begin the view; find_first and find_last return the address of the first or last occurrence inside the view, or null when there is none; none of them reads outside the view or the given C string.",
  [I],"every view content, searched character and prefix up to the stated length, including null and empty views",
  "Tests try a few strings; absent characters, embedded zeros, occurrences at the ends and reads past the view need all inputs.",
  ["code/dnmx/bits/sv.h"],[("dnmx_make_sv_*","code/dnmx/bits/sv.h"),("dnmx_sv_starts_with/find_first/find_last","code/dnmx/bits/sv.h")],["dnmx_sv_* functions"])
p("C03","Canonical mixin order is a strict total order by priority, name, id",
  "The canonical order of mixins compares order priority first (smaller first), then name (by content), then id; for distinct mixins exactly one of a<b and b<a holds, no mixin precedes itself, and the relation is transitive.",
  [I],"every pair and triple of mixin infos with arbitrary 32-bit priorities, names and ids",
  "Tests have a few hand-picked mixins; extreme priorities, names sharing storage and equal names need all values.",
  ["code/dnmx/mixin_info.h","code/dnmx/bits/sv.h"],[("dnmx_mixin_canonical_order","code/dnmx/mixin_info.h")],["dnmx_mixin_canonical_order"])
p("C04","External mixin buffers fit the owner pointer and the aligned mixin",
  "For every mixin size and power-of-two alignment, setting them records size and alignment unchanged and yields a buffer size, alignment and mixin offset such that in a buffer so aligned the mixin is aligned, lies wholly inside the buffer, and is preceded by room for a correctly aligned pointer inside the buffer, without waste beyond one alignment (or one pointer). A freshly made mixin info is unregistered, has empty contents, and has buffer values of an empty mixin.",
  [I],"every 32-bit size and power-of-two alignment for which the sum does not overflow",
  "The unit test checks a few sizes; the relation must hold for all sizes and alignments.",
  ["code/dnmx/mixin_info.h"],[("dnmx_set_mixin_info_size_and_alignment","code/dnmx/mixin_info.h"),("dnmx_make_mixin_info","code/dnmx/mixin_info.h")],["dnmx_mixin_info fields"])
p("C05","Common mixin functions act on exactly the mixin's bytes",
  "The common init, copy, move, compare and equality functions of the library zero, copy, move (leaving the source zeroed), order (as unsigned bytes) and equate exactly the mixin's size in bytes, report success, and touch no byte outside; the no-op variants change nothing and compare equal. The info initialisers pick, for each operation a type offers, a function with that operation's effect, and leave null an operation the type lacks.",
  [I],"every mixin size up to the bound, every content of source and target",
  "Tests use one or two structs; off-by-one sizes and leftover source contents need all sizes and contents.",
  ["code/dnmx/mixin_common_funcs.c","code/dnmx/mixin_common_funcs.h","code/dnmx/mixin_info_util.h","code/dynamix/mixin_info_util.hpp"],[("dnmx_mixin_common_*_func","code/dnmx/mixin_common_funcs.c"),("common_init_mixin_info","code/dynamix/mixin_info_util.hpp")],["mixin info function pointers"])
p("C06","Size rounding and the fallback memory resource honour size and alignment",
  "Rounding a size up to a multiple gives the smallest multiple not below the size. The library's own memory resource (used where std::pmr is missing) returns memory of at least the asked size at the asked alignment or throws bad_alloc when the system has none, frees exactly what it gave out, and equals only itself; its allocator forwards sizes and alignments unchanged.",
  [I,F,C],"every size and multiple in range; every power-of-two alignment up to the bound; allocation failing or not; std::pmr present or replaced",
  "Tests check six constants of the rounding; the fallback resource is not even compiled by the tests here.",
  ["code/dynamix/alloc_util.hpp","code/dynamix/compat/pmr/memory_resource.cpp","code/dynamix/compat/pmr/memory_resource.hpp","code/dynamix/compat/pmr/allocator.hpp"],[("next_multiple","code/dynamix/alloc_util.hpp"),("default_resource","code/dynamix/compat/pmr/memory_resource.cpp")],["next_multiple","memory_resource::allocate"])
p("C07","Deferred construction forwards every argument once, in order, unchanged",
  "Constructing a value from a tuple of arguments constructs exactly one object at the given address, passing the tuple's elements in order with their value and value category (an rvalue tuple moves its values, an lvalue tuple copies them, references stay references to the original object).",
  [I],"all argument values, tuples of 0 to 4 elements mixing values, lvalue and rvalue references, const and move-only types",
  "The unit test tries single values of two shapes; order and category must hold for all values and shapes.",
  ["code/dynamix/bits/make_from_tuple.hpp","code/dynamix/object_mutate_ops.hpp"],[("make_from_tuple","code/dynamix/bits/make_from_tuple.hpp")],["make_from_tuple"])
p("C08","Message result combinators fold results as documented",
  "Fed any sequence of results, boolean_and yields their conjunction and asks to stop exactly when a false was seen, boolean_or yields the disjunction and asks to stop exactly when a true was seen, sum yields the sum, and mean yields the sum divided by the announced number of results; sum and mean never ask to stop. After reset and a new announcement a combinator behaves as new.",
  [I,H],"every sequence of results and resets up to the stated length, every integer result value in range",
  "No test that can run here covers them; sequences with resets and early stops need all histories.",
  ["v1compat/code/dynamix/v1compat/combinators.hpp"],[("combinators","v1compat/code/dynamix/v1compat/combinators.hpp")],["add_result","result","reset"])
p("C09","Info and settings builders record exactly what was asked",
  "The mixin, feature and domain-settings builders and the perk literals produce infos whose fields are exactly those asked for (last call wins), with documented defaults elsewhere: bid and priority from the first perks that set them else 0, features in call order with their payloads, stored names independent of the caller's buffer, rules making the mixin a dependency unless overridden afterwards. Registering built data with a domain registers the mixin together with its rules, and unregistering removes both.",
  [I,H],"every perk value combination, builder call sequences up to the bound, every settings combination",
  "Tests check single examples of each builder call; combinations of perks and call orders are not covered.",
  ["code/dynamix/mixin_info_data.hpp","code/dynamix/mixin_info_data.cpp","code/dynamix/mixin_info_data_literals.hpp","code/dynamix/feature_info_data.hpp","code/dynamix/domain_settings_builder.hpp","code/dynamix/common_feature_info.hpp"],[("mixin_info_data_builder","code/dynamix/mixin_info_data.hpp"),("builder_perks","code/dynamix/mixin_info_data_literals.hpp"),("domain_settings_builder","code/dynamix/domain_settings_builder.hpp")],["built info structs"])
p("C10","One type per mixin sequence",
  "Asking a domain for a type gives a type with exactly the requested mixins in the requested order (when no rule changes them); equal sequences always give the same type object, different sequences different ones, and the empty sequence gives the domain's empty type, whatever was asked before. The number of types counts exactly the distinct non-empty sequences alive.",
  [I,H],"every history of type requests over a pool of mixins up to the stated lengths",
  "Tests request a fixed set of types in a fixed order; identity must hold for every history and order.",
  ["code/dynamix/domain.cpp","code/dynamix/type.hpp"],[("domain::get_type","code/dynamix/domain.cpp")],["domain::get_type","domain::num_types"],[("m_types","existing types by mixins","code/dynamix/domain.cpp"),("m_type_queries","query cache","code/dynamix/domain.cpp")])
p("C11","A canonicalizing domain gives the same type for any mixin order",
  "In a domain that canonicalizes types, requesting the same set of mixins in any order gives the same type, whose mixins are sorted by canonical order; a domain without that setting keeps the requested order.",
  [I,C],"every permutation and every priority/name assignment of up to the stated number of mixins, with and without user mutation rules",
  "Tests check one example; the sort must hold for every order, priority and name.",
  ["code/dynamix/domain.cpp","code/dnmx/mixin_info.h"],[("canonicalize rule","code/dynamix/domain.cpp"),("dnmx_mixin_canonical_order","code/dnmx/mixin_info.h")],["type::mixins"])
p("C12","Type and object lookups agree with the mixin list",
  "For every type and object, has/lacks, index-of and mixin getters by info, id, name or index answer exactly according to the type's mixin list: the index of the mixin's position, the address of that mixin in the object, or none (null) for anything not in the list, out of range, unregistered or unknown; traits (constructible, copyable, comparable) hold exactly when every mixin supports them.",
  [I],"every mixin set and id gap, every looked-up id (including invalid and out of range ones), name and index; every combination of available functions",
  "Tests look up a few names in a few types; sparse ids, holes and boundary ids need all inputs.",
  ["code/dynamix/type.cpp","code/dynamix/type.hpp","code/dynamix/object.cpp","code/dynamix/domain.cpp"],[("sparse_mixin_indices","code/dynamix/domain.cpp"),("type::index_of","code/dynamix/type.cpp")],["type::has/index_of","object::get*"])
p("C13","Invalid type requests are rejected and leave no trace",
  "A request naming a mixin that is unregistered, registered elsewhere, or listed twice, or whose features clash where clashes are not allowed, or whose mutation belongs to another domain, fails with an error and leaves the domain's types, queries and later results as they were. Running out of memory at any allocation during a request likewise fails cleanly, leaks nothing, and a later request succeeds.",
  [I,F],"every position of the offending mixin in lists up to the bound; failure of any single allocation made by the request",
  "Tests trigger one failure per kind; position and allocation failure points are not enumerated.",
  ["code/dynamix/domain.cpp"],[("get_type checks","code/dynamix/domain.cpp"),("create_type","code/dynamix/domain.cpp")],["domain::get_type","num_types","num_type_queries"])
p("C14","Feature providers are ranked by bid, priority, then mixin order",
  "For every feature of a type the providers are exactly those mixins' declarations, ordered by higher bid first, then lower priority number, then later mixin first, each with the payload and mixin position that declared it; the end of the top-bid group is exact; a feature nobody provides has no providers. Two providers with equal bid and priority are an error exactly when the feature forbids clashes; implements means strongly provided or having a default payload.",
  [I],"every assignment of 32-bit bids and priorities, provider subsets and clash settings within the stated number of mixins and features",
  "Tests use a dozen hand-picked bids and priorities; the sort and grouping must hold for all of them.",
  ["code/dynamix/domain.cpp","code/dynamix/type.cpp","code/dnmx/basic_type.h","code/dynamix/type-c.cpp"],[("ftable construction","code/dynamix/domain.cpp")],["type::ftable_at","implements*"])
p("C15","A unicast message runs exactly the top provider, or the default, or throws",
  "Calling a unicast message on an object runs exactly once the top-ranked provider on the object's own mixin with the caller's arguments and returns its result; with no provider the default implementation is run on the object; with neither a feature error is thrown and nothing runs.",
  [I],"every bid/priority assignment, presence of a default, object type and argument value within the bound",
  "Tests check fixed bid tables.",
  ["code/dynamix/msg/msg_caller.hpp","code/dynamix/domain.cpp"],[("msg_caller::call_unicast","code/dynamix/msg/msg_caller.hpp")],["message call results and calls made"])
p("C16","A multicast message runs every top bidder once, in order",
  "Calling a multicast message runs every provider with the highest bid exactly once and no other, higher priority number first and among equals in mixin order, and returns the result of the last one run; results given to a combinator are those, in that order, with their count announced before, and no provider runs after the combinator asks to stop; without providers the default runs, else a feature error is thrown.",
  [I],"every bid/priority assignment and result value within the stated number of mixins",
  "Tests check fixed tables; ordering and early stop must hold for all assignments.",
  ["code/dynamix/msg/msg_caller.hpp","code/dynamix/domain.cpp","v1compat/code/dynamix/v1compat/combinators.hpp"],[("msg_caller::call_multicast / call_with_v1_combinator","code/dynamix/msg/msg_caller.hpp")],["calls made and result"])
p("C17","Next-implementer and next-bidder walks follow the ranking to its end",
  "From any provider of a feature, the next implementer is the one ranked right after it, and the next bidder set is exactly the group with the next lower bid; both are none for the last, for a mixin that does not provide the feature or is not in the type. The message helpers call exactly those, in multicast order for sets, and throw a feature error when there is none.",
  [I],"every bid/priority assignment, feature and starting mixin within the bound",
  "Tests walk a few chains.",
  ["code/dynamix/type.cpp","code/dynamix/msg/next_impl.hpp"],[("find_next_implementer / find_next_bidder_set","code/dynamix/type.cpp"),("call_next_*","code/dynamix/msg/next_impl.hpp")],["type::find_next_*","call_next_*_msg"])
p("C18","Registered infos are found by id and name; ids are unique and stable",
  "After any history of registrations and unregistrations of mixins, features and type classes, each registered info has an id no other registered info of its kind has, is found by that id and by its name, and keeps its id until unregistered; unregistered infos are not found and have no id; registering a mixin also registers its features; registering again what is registered is an error which changes nothing.",
  [H],"every sequence of register/unregister operations over a pool of infos up to the stated length",
  "Tests and fuzzers follow particular histories; slot reuse after holes needs all of them.",
  ["code/dynamix/domain.cpp","code/dynamix/domain-c.cpp"],[("register_*/unregister_*","code/dynamix/domain.cpp")],["domain::get_mixin_info/get_feature_info/get_type_class"])
p("C19","A failed registration or unregistration leaves domain and info unchanged",
  "Registering an info which has an empty or duplicate name where the settings forbid it, belongs to another domain, or (type classes, rules) lacks its function, and unregistering an info of another domain, fails with a domain error and changes neither that info nor what else the domain contains (features which a mixin brought along before it was refused stay registered). The same holds for the info when memory runs out during registration.",
  [I,F,C],"every settings combination, kind of info, name relation and single allocation failure",
  "Tests trigger each error once with a pristine domain.",
  ["code/dynamix/domain.cpp"],[("register_*/unregister_* checks","code/dynamix/domain.cpp")],["domain queries after the error"])
p("C20","Unregistering a mixin and garbage collection drop exactly the affected types",
  "Unregistering a mixin removes exactly the types that contain it, and collecting garbage removes exactly the types no object has; every other type stays at its address with its contents, and a removed type can be requested again when its mixins are registered. The per-type object count equals the number of live objects with mixins of that type.",
  [H],"every history of type creation, object creation/mutation/destruction, unregistration and collection up to the stated length",
  "Tests run one or two such histories.",
  ["code/dynamix/domain.cpp","code/dynamix/object_mutation.cpp","code/dynamix/type.cpp"],[("garbage_collect_types / unregister_*","code/dynamix/domain.cpp"),("num_objects counter","code/dynamix/type.cpp")],["num_types","type::num_objects","domain_traverse"])
p("C21","Mutation rules run in order to a fixed point on every new request",
  "A type request starts by dropping dependency mixins, then applies all active rules ordered by priority and then name, repeatedly until a whole round changes nothing, and gives the type of that result; a rule error or exception fails the request with that error and creates nothing, and rules that have not settled after one round more than there are rules, or after six rounds, fail it with an error.",
  [I,H],"every rule priority/name assignment and every small rule behaviour (symbolic rule tables) within the bound",
  "Tests have a few fixed rules; interaction order and termination must hold for all rule sets.",
  ["code/dynamix/domain.cpp"],[("apply_mutation_rules","code/dynamix/domain.cpp")],["domain::get_type result and rule call log"])
p("C22","Caching never shows: a request depends only on the current rules and infos",
  "After any history of requests, rule additions and removals (counted: a rule is active while added more often than removed), registrations, unregistrations and collections, a type request gives what a fresh domain with the same current rules and registrations would give, for rules whose effect depends only on the mixins of the request.",
  [H],"every operation history up to the stated length over a pool of rules and mixins",
  "Tests check one addition and one removal.",
  ["code/dynamix/domain.cpp"],[("m_type_queries invalidation","code/dynamix/domain.cpp"),("rule reference counts","code/dynamix/domain.cpp")],["domain::get_type","num_mutation_rules"])
p("C23","The provided mutation rules do what their names say",
  "attaches-to and also-adds add their mixin exactly when the primary is present and never twice; the v1 rules likewise: mutually exclusive leaves of its list only the last one added, mandatory adds if missing, deprecated removes, substitute replaces, one-shot and standing dependency rules add or remove their list as the master appears; rules added to a domain can be removed by their id.",
  [I,H],"every initial mixin list and rule configuration within the bound",
  "The v1 rules are not compiled by the tests here; the others are tried on one type each.",
  ["code/dynamix/common_mutation_rules.hpp","v1compat/code/dynamix/v1compat/mutation_rules.cpp","v1compat/code/dynamix/v1compat/common_mutation_rules.hpp","v1compat/code/dynamix/v1compat/domain.cpp"],[("apply_basic_mixin_dep","code/dynamix/common_mutation_rules.hpp"),("v1 rules","v1compat/code/dynamix/v1compat/mutation_rules.cpp")],["resulting types"])
p("C24","Type mutations behave as edits of an ordered mixin list",
  "add appends, add_if_lacking appends only what is missing, remove drops the mixin and reports whether it was there, to_back makes it the last, dedup keeps the last of duplicates and the order of the rest, and the has/lacks/implements queries reflect the current list, in C++ and C, by info and by name; unknown names raise an error (or null in the safe variants) and change nothing.",
  [H],"every sequence of operations up to the stated length from every starting type, over a pool of mixins and unknown names",
  "Tests run fixed sequences.",
  ["code/dynamix/type_mutation.cpp","code/dynamix/type_mutation.hpp","code/dynamix/type_mutation-c.cpp"],[("type_mutation ops","code/dynamix/type_mutation.cpp")],["type_mutation::mixins"])
p("C25","Object memory: mixins aligned, disjoint, inside their buffers, owner known",
  "In every object each mixin lies at an address aligned as declared, wholly inside memory the object allocated with at least the declared alignment, overlapping no other mixin nor bookkeeping, and the owner lookup from a mixin address gives its object, at construction time and after any mutation or move of the object.",
  [I,H],"every size, power-of-two alignment and internal/external kind of up to the stated number of mixins; object creation, mutation and move",
  "Tests use a handful of struct sizes; padding arithmetic must hold for all size/alignment mixes.",
  ["code/dynamix/domain.cpp","code/dynamix/object_mutation.cpp","code/dynamix/object_of.hpp","code/dnmx/object_mixin_data.h","code/dynamix/object.cpp"],[("object buffer layout","code/dynamix/domain.cpp"),("allocate_mixin_data","code/dynamix/object_mutation.cpp")],["mixin addresses, allocations"])
p("C26","Every mixin is constructed once and destroyed once",
  "Over any life of an object - creation, mutations, resets, clears, copies, moves, destruction - each mixin a type gains is constructed exactly once with the function appropriate to the operation, in mixin order, before any use, and destroyed exactly once when it leaves or the object dies, with relocation of an internal mixin counting as move-construction and destruction; afterwards no memory is leaked.",
  [H],"every sequence of object operations up to the stated length over types with internal and external mixins",
  "Tests follow a few sequences.",
  ["code/dynamix/object_mutation.cpp","code/dynamix/object.cpp"],[("object_mutation","code/dynamix/object_mutation.cpp")],["mixin init/destroy calls","allocator balance"])
p("C27","Mutation keeps the state and identity of mixins that stay",
  "When an object changes type, mixins in both types keep their state and are not re-initialised, whatever their old and new positions; external ones keep their address; new mixins get their initialisation and removed ones are destroyed; and the object ends with exactly the requested type and that type's mixins.",
  [I,H],"every pair of source and target types over a mixin pool with arbitrary kinds and contents",
  "Tests check a few type pairs.",
  ["code/dynamix/object_mutation.cpp","code/dynamix/object.cpp"],[("object_mutation constructor/finalize","code/dynamix/object_mutation.cpp")],["mixin contents and addresses after mutation"])
p("C28","A failing object operation leaves the object as it was and leaks nothing",
  "If a mutation, reset or object creation fails at any point - an initialiser reports an error or throws, an allocation fails, a mixin cannot be default-constructed - the error reaches the caller, already built new mixins are destroyed, all memory taken is returned, object counts are restored, and an existing object keeps its type and all its mixins with their state and stays usable.",
  [F],"every single failure point of mutations, resets and creations over a mixin pool with arbitrary kinds",
  "Tests inject a few failures.",
  ["code/dynamix/object_mutation.cpp","code/dynamix/object.cpp"],[("object_mutation::rollback","code/dynamix/object_mutation.cpp"),("~object_mutation","code/dynamix/object_mutation.cpp")],["object state, allocator balance, num_objects after failure"])
p("C29","Every buffer goes back to the allocator it came from, with equal parameters",
  "Object and type buffers and external mixins come from the allocator given to the object or domain, or from the mixin's own allocator when it has one, asked with at least the declared size and alignment, and each is returned exactly once to that same allocator with the same address, size and alignment, in every history including failures and moves.",
  [H,F],"every choice of object, domain and mixin allocators, mixin kinds and operation sequences up to the bound",
  "Tests use counting allocators on a few flows.",
  ["code/dynamix/object_mutation.cpp","code/dynamix/type.cpp","code/dynamix/domain.cpp","code/dynamix/mixin_allocator-c.cpp"],[("allocate/deallocate pairs","code/dynamix/object_mutation.cpp"),("type::allocate_object_buffer","code/dynamix/type.cpp")],["allocator calls"])
p("C30","Mutation operations build the type and initialise as asked",
  "mutate, mutate_to and gradual mutation with any combination of add, add with arguments or function, remove and to-back operations, by type, info or name, give the object the type obtained by applying the operations in order to its current type (then rules), and each newly added mixin is initialised exactly once by the operation that gave arguments or function for it, or else by default; operations on mixins that do not end up new are not run.",
  [I,H],"every combination and order of operations up to the bound from every starting type",
  "Tests use a few op combinations.",
  ["code/dynamix/mutate.hpp","code/dynamix/mutate_to.hpp","code/dynamix/mutate_ops.hpp","code/dynamix/mutate_to_ops.hpp","code/dynamix/object_mutate_ops.hpp","code/dynamix/mutate-c.cpp","code/dynamix/object_mutation.hpp"],[("mutate / mutate_to","code/dynamix/mutate_to.hpp")],["object type and initialiser calls"])
p("C31","Sealed objects cannot change shape",
  "After sealing, every operation that would change the object's type or replace its mixins (mutation, reset, clear, copying into it from another type, move-assignment into it) fails with an object error and leaves it untouched, while reads, comparisons and same-shape operations still work; moving an object transfers the seal to the destination, copying does not.",
  [H],"every operation applied to sealed and unsealed objects of every type in the pool",
  "Tests try each once.",
  ["code/dynamix/object.cpp","code/dynamix/object_mutation.cpp"],[("m_sealed checks","code/dynamix/object.cpp")],["object operations on sealed objects"])
p("C32","Copies equal their source; copy failures are reported before damage",
  "A copy has the source's type, its own storage and mixins copy-constructed from the source's, and the source is unchanged; copy_from gives the target the source's type, copy-assigning common mixins in place, copy-constructing new ones and destroying the rest. If the type cannot be copied an object error is thrown before anything is touched, and if a copy function fails the error reaches the caller, nothing leaks and both objects stay valid with their types unchanged.",
  [I,F],"every pair of types over the pool, mixin contents, missing functions and failing copy points",
  "Tests check a few pairs.",
  ["code/dynamix/object.cpp","code/dynamix/object_mutation.cpp"],[("object::copy / copy_from","code/dynamix/object.cpp")],["object state after copy"])
p("C33","Matching copy and move affect exactly the common mixins",
  "copy_matching_from and move_matching_from assign every mixin present in both objects from the other object's and touch nothing else, keeping both types; if some common mixin cannot be assigned (nor, for moves when asked, re-initialised by move) an object error is thrown; an object matched with itself stays as it is.",
  [I],"every pair of types, mixin contents, available functions and fallback flag",
  "Tests check one or two pairs.",
  ["code/dynamix/object.cpp"],[("copy_matching_from / move_matching_from","code/dynamix/object.cpp")],["mixin contents"])
p("C34","Moving an object transfers everything and leaves the source empty",
  "Move construction and assignment (with equal allocators) give the destination the source's type, allocator, seal and the very same mixins at the same addresses, owned by the destination, destroy what the destination had, and leave the source empty and usable in its domain; self-move changes nothing; move-assigning between unequal allocators throws and changes nothing.",
  [H],"every pair of source and destination types and allocators within the pool",
  "Tests move a couple of objects.",
  ["code/dynamix/object.cpp"],[("object::usurp","code/dynamix/object.cpp")],["object state after move"])
p("C35","Type and object comparison are consistent with equality",
  "Type comparison is 0 only for the same type, antisymmetric and transitive, and within a domain follows the lexicographic canonical order of the mixins. Object equality is true exactly for the same object or same type with all mixins equal (by their equality function, else their comparison); object comparison orders by type, then by the first mixin that differs, is 0 exactly when none differs, and throws when a needed comparison is missing.",
  [I],"every pair/triple of types over the pool and every mixin content; every availability of equality/comparison functions",
  "Tests compare a few objects.",
  ["code/dynamix/type.cpp","code/dynamix/object.cpp"],[("type::compare","code/dynamix/type.cpp"),("object::equals/compare","code/dynamix/object.cpp")],["compare results"])
p("C36","The C interface mirrors the C++ one and never lets an exception out",
  "Every C function has the effect and result of its C++ counterpart, and where that throws, reports failure by its return value (false, null or an error code) without an exception crossing it and with the same unchanged state.",
  [I,F],"every C entry point over valid, unknown and failing arguments from the pool, including allocation and initialiser failures",
  "Tests use the C interface on success paths.",
  ["code/dynamix/domain-c.cpp","code/dynamix/object-c.cpp","code/dynamix/type-c.cpp","code/dynamix/type_mutation-c.cpp","code/dynamix/mutate-c.cpp","code/dynamix/mixin_allocator-c.cpp"],[("catch-all wrappers","code/dynamix/*-c.cpp")],["C function returns"])
p("C37","Concurrent use of a domain is linearizable",
  "When threads concurrently request types, register and look up infos, add or remove rules and collect garbage, every call's result and the final state are those of some one-at-a-time order of the calls; the same sequence gives the same type in all threads, and no rule change is lost to a request that ran beside it.",
  [S],"every schedule of the stated small thread programs at lock and atomic granularity",
  "The multi-threaded test samples a few schedules of one program.",
  ["code/dynamix/domain.cpp"],[("data_mutex sections","code/dynamix/domain.cpp")],["results of concurrent calls"],[("m_types/m_type_queries","shared under locks","code/dynamix/domain.cpp")])
p("C38","Dumps and traversals show exactly what is there, end, and change nothing",
  "A domain traversal visits every registered mixin, feature, type class, active rule (with how often it was added), stored type and stored request exactly once, mixins and features in order of ids and rules in their order; its counts agree with the domain's. A debug dump of an info, type, object or domain with any flags names exactly what the flags ask for, in that order and with the values which are there, with balanced quotes; it ends (no lock is taken twice by one thread), creates no type or object and leaves the domain usable.",
  [I,S],"every value of the infos' fields, every flag combination, registries with and without gaps, rules added any number of times, types and requests from the pool",
  "The dump is only looked at by eye and for one domain.",
  ["code/dynamix/dbg_dmp.cpp","code/dynamix/domain_traverse.cpp","code/dynamix/domain.cpp"],[("dbg_dmp","code/dynamix/dbg_dmp.cpp"),("domain_traverse","code/dynamix/domain_traverse.cpp")],["what is written to the stream, in order","what the traversal's functions are called with"])
p("C39","Infos cross shared-library boundaries with one identity",
  "Mixins, features and domains declared exported have one info instance across the program and its shared libraries, and unloading a plugin unregisters what it registered.",
  [C],"every split of declarations over shared libraries",
  "Tests load one plugin.",
  ["code/dynamix/declare_mixin.hpp","code/dynamix/define_mixin.hpp","code/dnmx/api.h"],[("symbol export macros","code/dnmx/api.h")],["addresses of infos across modules"])
p("C40","A type is of a class exactly when the class says so",
  "Asking a type or object whether it is of a class, by the class, by its name or by a declared class, gives what that class's match function says about that type, now; a name nobody registered is a type error; classes need no registration to be asked directly, and types may be made before or after a class is registered.",
  [I],"every set of registered classes with any names, every type, every answer",
  "Tests ask a few fixed classes.",
  ["code/dynamix/type.cpp","code/dynamix/object.cpp","code/dynamix/domain.cpp"],[("type::is_of","code/dynamix/type.cpp"),("register_type_class","code/dynamix/domain.cpp")],["is_of results"])
p("C41","The v1 interface keeps its promises on top of version 2",
  "A v1 message declared and defined by the macros is a feature of its name in the one canonicalizing v1 domain; calling it runs exactly the providers its bids and priorities select (all top bidders for a multicast, the top one for a unicast), on their mixins, with the caller's arguments unchanged; combinators see each result once in order; next-bidder calls run the next lower group; bids and priorities are recorded however the perks nest; defaults run where nobody provides. A v1 mixin definition records what it lists (messages, bound functions, name, user data, dependency) and is registered while the program runs. v1 objects copy, move, answer implements, copyable and is_a, and are found from their mixins, as version 2 objects are.",
  [I],"every bid and priority, every order of adding, every subset of mixins, every argument value, for the stated messages",
  "The v1 tests call a few messages with constant bids.",
  ["v1compat/code/dynamix/v1compat","v1compat/gen","code/dynamix/msg"],[("message macros","v1compat/gen/arity_message_macros_template"),("feature_parser","v1compat/code/dynamix/v1compat/define_mixin.hpp"),("object","v1compat/code/dynamix/v1compat/object.cpp")],["message calls","infos of the v1 domain","v1 object functions"])
p("C42","Global definitions are in force from their initialisation to the end of the program",
  "A domain, mixin, message or type class defined by the macros has one info in the whole program, as given by its builder, whatever the order in which source files are initialised; a domain exists whenever anything asks for it; a mixin (with its features and rules) and a class are registered from the initialisation of their definition, and unregistered in the reverse order when the program ends, also if the program unregistered some itself, with nothing left allocated.",
  [H,I],"both orders of two source files, every point between two definitions at start and end, every value given to the builders",
  "Tests run with one order and do not look after main.",
  ["code/dynamix/define_domain.hpp","code/dynamix/define_mixin.hpp","code/dynamix/define_type_class.hpp","code/dynamix/globals.hpp","code/dynamix/mixin_info_data.cpp"],[("mixin_info_data_instance","code/dynamix/define_mixin.hpp"),("registered_type_class_instance","code/dynamix/define_type_class.hpp")],["what is registered between any two definitions and after main"])
p("C43","Errors are of the right class and say what they are about",
  "A call which is refused or fails throws a domain, type, object or feature error (each a dynamix::exception and a runtime_error) according to what was asked, whose message begins with the domain's name, quotes the infos and the list of mixins it is about, and shows the code a user function gave; exceptions of user functions reach the caller as they are.",
  [I],"every way in which a registration, request, edit or object operation is refused, with any names",
  "Tests look at the class of a few errors and never at the texts.",
  ["code/dynamix/throw_exception.cpp","code/dynamix/exception.hpp"],[("dynamix::throw_exception","code/dynamix/throw_exception.cpp")],["class and text of exceptions"])
p("C44","Piecewise object mutations do each mixin once and end applied or undone",
  "However a mutation of an object is divided into pieces (next mixin, up to an index, new ones, at an index, by default), each mixin of the target is constructed if new or updated if common exactly once, in mixin order, by the function of the piece which reached it (the rest by default, common ones otherwise untouched), with the right arguments; going back in order is an object error. A piece which fails leaves the mutation usable; a mutation ends applied (also by hand, then nothing which happens later undoes it) or, after an exception or rolling back, with the object as it was but for updates made.",
  [H,I],"every sequence of pieces, every pair of types, failure of any function at any point, caught or not",
  "Tests perform a single mutation in one piece.",
  ["code/dynamix/object_mutation.hpp","code/dynamix/object_mutation.cpp"],[("object_mutation","code/dynamix/object_mutation.hpp")],["functions called, object state"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
