import os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + '/h')
PROPS = {}
def H(name, src=None, **k): return dict(name=name, src=src or name + '.cpp', **k)
def P(id, *hs, **k): PROPS[id] = dict(harnesses=list(hs), **k)

SVC = [V + '/h/sv_c.c']
P('C01', H('c01', lib=SVC, reach=['end', 'null', 'long'], bounds='two views of up to 4 (thorough 7) bytes each, any contents, in separate, shared or overlapping memory, null or empty; views of 127..257 bytes which differ at most at one of two places'),
  outside='longer views with more than one differing byte')
P('C02', H('c02', lib=SVC, reach=['end', 'make', 'prefix', 'find'], bounds='views and C strings of up to 4 (thorough 7) bytes, any contents, any searched character; each in a block of its own so that a read outside is seen'))
P('C03', H('c03', reach=['end'], bounds='three mixins with any 32-bit order priority and id, names of up to 2 (thorough 3) arbitrary bytes, in separate or in the same memory'))

def pmr_fallback(repo, d):
    """a copy of pmr.hpp with the library's own resource switched on, and everything which finds it by a relative include"""
    import shutil, re
    shutil.copytree(repo + '/code/dynamix', d + '/dynamix'); shutil.copytree(repo + '/code/dnmx', d + '/dnmx')
    f = d + '/dynamix/compat/pmr/pmr.hpp'; s = open(f).read()
    open(f, 'w').write(s + '\n#undef DYNAMIX_HAS_PMR\n#define DYNAMIX_HAS_PMR 0\n')
INFOC = ['funcs', V + '/h/info_c.c']
P('C04', H('c04', lib=INFOC, bounds='every 32-bit size and power-of-two alignment whose sum fits 32 bits, and both zero; any buffer address below 2^48'))
P('C05', H('c05', lib=INFOC, reach=['end', 'large', 'pick', 'c'], bounds='mixins of 0..8 (thorough 24) arbitrary bytes between guard bytes; sizes 64, 255, 256, 257, 290 with four arbitrary bytes; ten representative types for the C++ initialiser, both C initialisers'))
P('C06', H('c06a', prep=pmr_fallback, reach=['end', 'round', 'alloc', 'bad_alloc', 'forward'], bounds='rounding: all 8-bit sizes and multiples, all 32-bit sizes with 16 multiples (results which fit 32 bits); resource: any 64-bit size, alignments 2^0..2^12 (thorough 2^20); allocator: any 64-bit size and alignment', ),
  assumptions=['aligned_alloc and free are replaced by functions which record their arguments'])
P('C07', H('c07', bounds='tuples of up to ten elements of ten kinds, any 32-bit values'))
P('C08', H('c08', bounds='sequences of up to 5 (thorough 9) results twice over with a reset between; bool, int, pointer, class, 8/32/64-bit integers with any values which do not overflow; doubles from four values'))

L = ['lib']
P('C10', H('c10', lib=L, bounds='three registered mixins in two registration orders, with or without a gap in the ids; histories of three requests, each any sequence of up to three (the last of two; thorough: three) different mixins, as a list or as a mutation'))
P('C11', H('c11', lib=L, reach=['end', 'canonical', 'as requested'], bounds='three mixins with any 32-bit priorities and different names of one or two arbitrary bytes; any sequence of up to three, and any reordering of it'))
P('C12', H('c12', lib=L, reach=['end', 'traits', 'lookups'], bounds='three registered mixins, one unregistered before and one never registered; types of any of them in any order; any 32-bit id and index, any name of up to two bytes; any combination over the mixins of one offered operation at a time (equals and compare together; thorough: all at once)'))
P('C13', H('c13', lib=L, reach=['end', 'invalid', 'valid', 'out of memory', 'enough memory'], bounds='lists of up to three of six mixins (three valid, two of which may clash with any 32-bit bids and priorities, one never registered, one of another domain, one unregistered), as a list or a mutation, of this or another domain; failure of any one of the allocations of a request for up to two (thorough three) mixins after another request'))
P('C14', H('c14', lib=L, reach=['end', 'clash'], bounds='types of up to three (thorough four) mixins; one feature declared by any of them with any 32-bit bids and priorities, a second one declared by a suffix of them, with or without clashes allowed and a default; any 32-bit feature id looked up'))
MSGB = 'types of up to three mixins in two orders, any of them providing the message with any 32-bit bids and priorities; any 32-bit arguments and results; '
P('C15', H('c15', lib=L, reach=['provided', 'default', 'none'], bounds=MSGB + 'messages by payload function, by method, with and without a default'))
P('C16', H('c16', lib=L + ['v1'], reach=['none', 'default', 'plain', 'recorder', 'sum', 'and'], bounds=MSGB + 'plain calls, a combinator which stops after any number of results, the sum and the conjunction'))
P('C17', H('c17', lib=L, reach=['end', 'next', 'no next'], bounds=MSGB + 'from each mixin of the type, from others, for features of the type and others'))
RB = 'histories of four (thorough five; type classes five, six) registrations and unregistrations of three infos with arbitrary names of one byte (one may be empty) in two domains, any settings, mixins with or without features; registries of five infos (mixins, features, type classes) with any names of one byte, any of them unregistered again, and one more registration'
P('C18', H('c18', lib=L, flags=['-DPROP=18'], reach=['end', 'registered', 'not registered', 'unregistered', 'features', 'classes', 'gaps'], bounds=RB))
P('C19', H('c19', src='c18.cpp', lib=L, flags=['-DPROP=19'], reach=['end', 'registered', 'not registered', 'not unregistered', 'features', 'classes', 'gaps', 'out of memory'], bounds=RB + '; failure of any allocation of a registration'))
P('C21', H('c21', lib=L, reach=['end', 'settled', 'rule error', 'rule exception', 'unsettled'], bounds='up to two (thorough three) rules of seven behaviours (add, remove, add if another is there, move to front, rotate, error, throw) on any of four mixins, one of them a dependency; any 32-bit priorities, names of one byte; requests of up to two mixins, as a list or a mutation', outside='rule sets which need six rounds or more to settle'))
P('C22', H('c22', lib=L, reach=['end', 'type', 'error', 'several'], bounds='histories of four (thorough five) operations (request, add and remove a rule, register and unregister a mixin, collect) over three mixins (one possibly a dependency, which may come back as one or not, or in a canonicalizing domain), one rule of three behaviours on any mixins and one which adds to what it sees, two requested sequences, one of them any of up to two mixins; every request is compared with one to a fresh domain'))
P('C20', H('c20', lib=L, reach=['end', 'unregistered', 'collected', 'again'], bounds='histories of four (thorough five) operations of seven kinds (request, create or retype, create or clear, destroy, unregister or register, collect, move or copy) over three mixins, two objects and two requested sequences, one of them any of up to two mixins, with or without a mutation rule which adds to one'))
TR = 'tracked mixins of five kinds (small, over-aligned, without a destroy function, external, with a mixin allocator; for C26, C27, C28, C32, C33, C34 also in a canonicalizing domain with any priorities and with any missing functions which the operation does not need), '
def life(n, reach, bounds, **k): P('C%d' % n, H('c%d' % n, src='life.cpp', lib=L, flags=['-DPROP=%d' % n] + k.pop('flags', []), reach=['end'] + reach, bounds=TR + bounds, **k))
life(26, [], 'lives of three (thorough four) operations of eight kinds over two objects and three types, one of them any of up to two mixins')
life(27, ['to empty', 'from empty', 'same'], 'every assignment of kinds to three mixins, types of up to four mixins to types of up to three (thorough four), any state of each', flags=['-DNM=4'])
life(28, ['out of memory', 'missing', 'error', 'success', 'unwinding'], 'every assignment of kinds to three mixins, types of up to two mixins to types of up to two (thorough three); failure of any single initialiser or copy by code or exception, of any allocation, or a missing initialiser; operations during stack unwinding')
life(29, ['failed'], 'lives of three (thorough four) operations of six kinds over two objects with either of two allocators, the last of which may fail at any one place')
life(31, ['refused', 'sealed', 'unsealed'], 'fifteen operations on sealed and unsealed objects of every type of up to two of three mixins with sources of every such type')
life(32, ['copy', 'copy_from', 'cannot', 'failed'], 'sources of up to two (thorough three) of three mixins in two (thorough all) assignments of kinds, targets of up to three; failure of any one copy by code or exception or of any allocation, any one missing copy function')
life(33, ['cannot', 'copied', 'moved', 'failed', 'self'], 'an object and itself; targets of up to two (thorough three) of three mixins in two assignments of kinds, sources of up to three, any missing assignments, failure of any one copy')
life(34, ['constructed', 'assigned', 'refused', 'self', 'chain'], 'every kind of two (thorough three) of three mixins, sources of up to two (thorough three), destinations of up to two, equal and unequal allocators')
life(35, ['types', 'compared', 'missing'], 'types of up to two of three mixins with any 32-bit priorities and different one byte names; objects of up to three mixins with any 32-bit state, any missing comparison functions')
P('C25', H('c25', lib=L, reach=['end', 'layout', 'objects'], bounds='layouts: types of three mixins with any sizes below 2^12 (thorough 2^20) and alignments 1, 4, 8, 16, 64 (thorough 2^0..2^6), one possibly external; objects: three mixins of four (thorough five) shapes up to 40 bytes and alignment 64, internal or external, in three orders, created, mutated, copied and moved'))
P('C30', *[H('c30%s' % n, src='c30.cpp', lib=L, flags=['-DPART=%d' % p], reach=['end'] + r, bounds=b) for n, p, r, b in (
  ('a', 1, ['done', 'cannot'], 'mutate: six start types over three mixins, no rule, one which adds or one which removes, any two of nine kinds of operations (four sequences of three) on any mixin, by type, info, name or unknown name, any 32-bit arguments'),
  ('b', 2, ['done', 'function failed'], 'mutate_to: the six types to four types, up to three construct operations with functions (any one may throw) or arguments, by info, name or unknown name'),
  ('c', 3, ['done', 'cannot', 'cancelled'], 'gradual mutation: two (thorough three) operations of twelve kinds ended by destruction, two by apply, cancel or an exception'),
  ('d', 4, ['done', 'cannot', 'failed'], 'C: up to two operations, three on one mixin (thorough any three), or up to two overrides of the initialisation or update of different mixins, any of which may fail'))])
P('C24', H('c24a', src='c24.cpp', lib=L, flags=['-DPART=1'], reach=['end', 'unknown', 'dedup', 'asked', 'gone'], bounds='three mixins, mutations of up to three mixins with duplicates made of a list, a type or nothing, of which one may have left the domain; every query, and one (two if they are of at most one mixin; thorough two) edit of nineteen kinds with any mixin or any name of up to one byte, C++ and C'),
  H('c24b', src='c24.cpp', lib=L, flags=['-DPART=2'], reach=['end', 'no memory'], bounds='mutations of up to three mixins, two edits by C++ type, an edit without memory'))
P('C23', *[H('c23' + n, src='c23.cpp', lib=L + ['v1'], flags=f, reach=['end'] + r, bounds=b) for n, f, r, b in (
  ('a', ['-DPART=1', '-DORDER=0'], ['attached', 'gone'], 'common rules: a chain of two mixins attached to a third, which a fourth also adds, in two orders of rules; every request of up to four mixins, one mutation after it'),
  ('b', ['-DPART=1', '-DORDER=1'], ['attached', 'gone'], ''),
  ('c', ['-DPART=2'], ['removed', 'no such id', 'no dependency', 'applied'], 'v1 rules: each with every list of four mixins, by info or name; every request of up to three (thorough four) mixins; histories of four (thorough five) additions and removals of rules with any 32-bit id'))])
P('C09', *[H('c09' + n, src='c09.cpp', lib=L, flags=['-DPART=%d' % p], reach=['end'] + r, bounds=b) for n, p, r, b in (
  ('a', 1, ['stored'], 'mixins: two (thorough three) calls of thirteen kinds in any order, any 32-bit bids and priorities in perks of six forms, any 64-bit data, stored names of 3 or 20 bytes, three of them arbitrary, with the default or another allocator'),
  ('b', 2, [], 'features and settings: three calls of any kind; perks of six forms'),
  ('c', 3, ['twice', 'registered', 'failed', 'no memory'], 'registration with up to three rules, one of which may be shared or without a function, with or without a name clash, failure of any one of the first nine allocations of the domain, twice, and after unregistration'))])
P('C36', *[H('c36%s' % n, src='c36.cpp', lib=L + [V + '/h/all_c.c'], flags=['-DPART=%d' % p], reach=['end'] + r, bounds=b) for n, p, r, b in (
  ('a', 1, ['feature fails', 'mixin fails', 'class fails', 'rule fails', 'type fails', 'foreign'], 'domains: two operations of eleven kinds on features, mixins, classes, rules, requests of types (lists and mutations; seven sequences, four behaviours of a rule) and collection, with two starts, clashing, empty and missing names and functions, infos of other domains, any settings and any id and user data'),
  ('b', 2, ['is of name', 'object', 'compared', 'cannot compare'], 'types and objects: every query over types of up to three of three mixins with any one or two missing functions, any 32-bit ids, indices and state and any name of up to two bytes'),
  ('c', 3, ['failed', 'done', 'foreign exception'], 'objects: ten operations on objects of up to two of two mixins with sources and targets of up to two of three mixins, sealed or not, one missing function, failure of any one of three calls by code or by an exception which is no std::exception, any state'),
  ('d', 4, ['enough', 'out of memory', 'refused'], 'failure of any one of the first six allocations of nineteen functions, an allocator given by C functions which refuses'))])
P('C37', *[H('c37%s' % n, src='c37.cpp', lib=L, flags=['-DPART=%d' % p], reach=['end'], threads=True, preempt=k, bounds=b) for n, p, k, b in (
  ('a', 1, 3, 'two threads of one operation each of thirteen kinds (requests by list and mutation, adding and removing a rule, adding another, collection, registration, unregistration, five lookups, dropping the last object of a type, creating one of a shared type, registering a type class), up to three preemptions at locks, unlocks and atomic accesses, a rule present or not with either condition and any 32-bit priorities, cold or warm requests'),
  ('b', 2, 2, 'threads of two and one (thorough two) operations of seven (thorough thirteen) kinds, up to two preemptions'),
  ('c', 3, 2, 'three threads of one operation each of five (thorough thirteen) kinds, up to two preemptions'))],
  outside='weak memory effects beyond data races (accesses are sequentially consistent in an explored schedule; unordered pairs of which one writes are reported), operations which the user has to serialize (requesting what is being unregistered)')
P('C38', *[H('c38' + n, src='c38.cpp', lib=L + ['dump'], flags=['-DPART=%d' % p, '-I' + V + '/shims/ostream'], reach=['end'], bounds=b) for n, p, b in (
  ('a', 1, 'a mixin info with up to two features, a feature info, a rule info and a type class with any values of all fields and flags, registered or not'),
  ('b', 2, 'a domain of three mixins, two features, two type classes, up to two rules with up to two references each, with and without gaps in the ids, up to two (thorough three) requests; every flag for a type; an object'),
  ('c', 3, 'such a domain with and without its own allocator and context, each section alone, none and all, with and without every detail flag (thorough: every combination of detail flags)'))],
  outside='the spelling of the decoration between names, words and values, iostream formatting itself (a recording stream stands in)')

def v1_gen(repo, d):
    import v1_gen; v1_gen.generate(repo, d)
P('C41', *[H('c41' + n, src='c41.cpp', lib=L + ['v1'], prep=v1_gen, flags=['-DPART=%d' % p, '-DDYNAMIX_USE_TYPEID=0'], reach=r, bounds=b) for n, p, r, b in (
  ('a', 1, ['clash', 'default', 'nobody', 'next', 'run'], 'objects with any of three mixins added in two orders; each of six messages (unicast and multicast, const and not, overloads, one with a default) with any 32-bit bids and priorities given through the perks in every order; plain calls, both combinator forms with a combinator which stops after any number of results, next bidders; any 32-bit argument and results'),
  ('b', 2, ['end'], 'what the definitions record for any 32-bit bids and priorities and any 64-bit user data: features, names, dependencies, bound functions, the domain'),
  ('c', 3, ['end', 'nobody'], 'messages of zero, three, four and five arguments of values, references, pointers and move-only types, and one nobody provides'),
  ('d', 4, ['end', 'copied', 'cannot', 'moved', 'mutated'], 'objects with any of three mixins and any 64-bit state: copy, move, mutation, classes, implemented messages, finding the object of a mixin'))],
  assumptions=['the script which generates the macros from the templates is replaced by a port, as no Ruby is at hand'], outside='exported messages, the short names of macros')
P('C40', H('c40', lib=L, reach=['end', 'by name', 'unknown'], bounds='a domain of two mixins and four types, three classes with any names of one byte and any answers, up to three (thorough four) registrations and unregistrations before or after the types; a type or an object asked by class, by template, by any name of one byte'))
P('C42', *[H('c42' + n, src='c42%s.cpp' % f, lib=L + [V + '/h/c42%s.cpp' % o], reach=['end', 'early'], bounds=b) for n, f, o, b in (
  ('a', '', 'b', 'a program of two source files with two domains, four mixins, two messages, a rule and a class, started and ended in both orders of the files, with objects left to the end, infos unregistered early, any 32-bit bids, 64-bit user data and settings'),
  ('b', 'b', '', ''))], outside='shared libraries (C39)')
P('C43', *[H('c43' + n, src='c43.cpp', lib=L, flags=['-DPART=%d' % p, '-DVX_MESSAGES=1'], reach=['end'] + r, bounds=b) for n, p, r, b in (
  ('a', 1, ['registration', 'clash', 'foreign', 'rule', 'cyclic'], 'refused registrations and unregistrations of two infos of each kind, requests of any sequence of up to three of three mixins which are refused for seven reasons, as a list or a mutation; a domain with and without a name; one letter of each name is any letter'),
  ('b', 2, ['code', 'missing', 'sealed', 'message', 'order'], 'objects of any sequence of up to two of three mixins: eight operations which fail because of a missing or failing function (by code or exception) of any one mixin, a seal, an allocator, a message nobody implements'))],
  outside='the wording besides the names, the numbers and the kind of info; failing allocation of the message itself')
life(44, ['order', 'caught', 'applied', 'applied early', 'applied and thrown', 'rolled back', 'undone'], 'mutations of objects of three types to five types of up to three mixins, in two (thorough four) assignments of kinds, in three pieces (quick: two if something fails) of eight kinds (next, up to an index, new ones, by default, at an index, finalize, roll back, throw), any one function of which may fail by code or exception, caught inside or not')
