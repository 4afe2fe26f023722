#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script because JSON lines are hard to edit)."""
import json, os
I = 'include/boost/openmethod/'
P = []


def p(id, title, statement, over, q, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=[I + f for f in files],
                               state=[dict(name=a, meaning=b, where=I + c) for a, b, c in state],
                               mechanism=[dict(name=a, where=I + b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))


p('C01', 'A call runs the unique most specific applicable overrider',
  'After `initialize`, if among the overriders of a method that are applicable to the dynamic classes of the virtual arguments of a call a single one is not dominated '
  'by another (A dominates B if it is more specialized in at least one virtual parameter, and less specialized in none), the call runs exactly once that overrider. '
  'It receives the arguments of the call and the call returns what it returns, for any number of '
  'virtual parameters, placed anywhere among the ordinary ones, and any number of methods sharing classes.',
  ['inputs', 'programs'],
  'every acyclic class hierarchy (single, multiple, virtual inheritance), every set of methods and overriders over it, every tuple of dynamic classes',
  'The tests check a few hand-written hierarchies and argument tuples; the selection depends on the combination of '
  'hierarchy, overriders, slots, groups and strides, which they sample at a handful of points.',
  ['initialize.hpp', 'core.hpp'],
  [('assign_slots, build_dispatch_tables, is_more_specific, best selection', 'initialize.hpp'),
   ('install_global_tables (encoding of slots, strides, v-tables)', 'initialize.hpp'),
   ('method::operator(), resolve_uni, resolve_multi_first, resolve_multi_next', 'core.hpp')],
  [('dispatch_data', 'v-tables and dispatch tables', 'preamble.hpp'), ('slots_strides', 'per-method slots and strides', 'core.hpp')],
  ['the overrider that runs, its arguments, the value returned'])

p('C02', 'A call that cannot be resolved is reported and runs no overrider',
  'A call for which no overrider is applicable is reported to the error handler of the registry as `no_overrider`, and one with '
  'several applicable overriders not dominated by another as `ambiguous_call`; each carries the '
  'method called, the number of its virtual arguments and their dynamic types in order. '
  'No overrider runs, the handler is called exactly once; if it throws the exception reaches the caller, and if it returns the program is aborted.',
  ['inputs', 'programs'],
  'every hierarchy, overrider set and tuple of dynamic classes that has no unique most specific overrider; handlers that throw and handlers that return',
  'The tests provoke each error in a couple of fixed calls and look at part of the report; which cells of a '
  'dispatch table hold an error function depends on the whole hierarchy.',
  ['initialize.hpp', 'core.hpp', 'preamble.hpp', 'policies/default_error_handler.hpp', 'policies/throw_error_handler.hpp'],
  [('fn_not_implemented, fn_ambiguous', 'core.hpp'), ('bad_call, no_overrider, ambiguous_call', 'preamble.hpp'),
   ('build_dispatch_table', 'initialize.hpp')],
  observe=['the error object passed to the handler', 'process status'])

p('C03', 'Dispatch does not depend on how classes and overriders are registered',
  'The results of `initialize` and of all calls depend only on the set of classes, inheritance relations, methods and '
  'overriders that are registered. The order of registration, the grouping of classes into registrations, repeated '
  'registrations of a class, mention of indirect bases, and the order of overriders make no difference.',
  ['configurations', 'inputs'],
  'every permutation, partition, duplication of the registrations of every program (i.e. any link or load order, any division in translation units)',
  'Tests run with one link order and one static-initialization order; each other order is another program.',
  ['initialize.hpp', 'core.hpp', 'detail/static_list.hpp'],
  [('augment_classes: merges class records, completes transitive bases and derived classes', 'initialize.hpp'),
   ('use_class_aux', 'core.hpp'), ('assign_slots, select_dominant_overriders', 'initialize.hpp')],
  observe=['the report, errors of initialize, overriders that run, next chains'])

p('C04', 'next leads to the overrider that would run without the current one',
  'From inside an overrider, `next` calls the most specific overrider among those that are strictly more general '
  '(accept at least all the arguments the current one accepts, and are not itself); if there is none, or no single most specific one, it reports '
  '`no_overrider` or `ambiguous_call` for the same arguments. `has_next` is true exactly when `next` leads to an overrider, and chains of `next` '
  'pass the same arguments along and end.',
  ['inputs', 'programs'],
  'every hierarchy and overrider set, every overrider, chains of any length, under the default and N2216 rules',
  'A few chains over linear hierarchies are tested; lattices with incomparable or equivalent overriders are not.',
  ['initialize.hpp', 'core.hpp', 'macros.hpp'],
  [('assignment of next in build_dispatch_tables, set_next_overriders', 'initialize.hpp'),
   ('method::next, method::has_next, override_impl', 'core.hpp')],
  [('next<fn>', 'pointer to the next overrider', 'core.hpp')],
  ['sequence of overriders that run, values of has_next'])

p('C05', 'N2216 resolves every ambiguity, by return type first, and consistently',
  'If `initialize` is passed the `n2216` option, a call with at least one applicable overrider always runs one of the '
  'applicable overriders that is not dominated: the only one if there is a single one, otherwise one whose covariant registered '
  'return type is not a base of another candidate\'s, otherwise an arbitrary one. The choice is the same for all calls with the same dynamic classes '
  'until the next `initialize`, and in other runs of the same program; unambiguous or unimplemented calls behave as without the option.',
  ['inputs', 'programs', 'configurations'],
  'every hierarchy, overrider set and return type assignment; every tuple of dynamic classes; repeated calls; option on and off across initializations; type ids that change from run to run',
  'One small example per rule is tested; combinations of dominance and return types over lattices are not.',
  ['initialize.hpp', 'core.hpp'],
  [('n2216 option; select by covariant return type', 'initialize.hpp'), ('return_type registration', 'core.hpp')],
  observe=['overrider that runs, has_next, next'])

p('C06', 'The report returned by initialize is exact',
  'The report of `initialize` gives in `not_implemented` the number of methods that have at least one combination of registered acceptable classes without applicable overrider, in '
  '`ambiguous` the number of those with at least one ambiguous combination (under N2216, that had to be settled arbitrarily), and in `cells` the total size of the dispatch '
  'tables of the methods with several virtual parameters, in which classes not distinguished by the overriders share rows. In particular the counts are zero if and only if '
  'no call with registered classes can fail.',
  ['inputs', 'programs', 'configurations'],
  'every hierarchy, set of methods and overriders, registration order, options',
  'Reports are checked for one program.',
  ['initialize.hpp'],
  [('build_dispatch_tables, build_dispatch_table', 'initialize.hpp'), ('report, accumulate', 'initialize.hpp')],
  [('report', 'cells, not_implemented, ambiguous', 'initialize.hpp')],
  ['initialize(...).report'])

p('C07', 'Calls reflect what was registered at the last initialize, in any history',
  'After any sequence of registrations and removals of classes, methods and overriders (as libraries are loaded and unloaded), initializations and '
  'finalizations, calls behave as in a program in which only what is registered when `initialize` was last called ever existed. '
  'A removed class, method or overrider has no influence left, and repeating `initialize` or `finalize` changes nothing.',
  ['histories'],
  'every sequence of load, unload, initialize, finalize, call operations over any set of class, method and overrider registrations',
  'The tests load libraries once or twice in fixed orders; most never unload, and none mixes histories.',
  ['initialize.hpp', 'core.hpp', 'detail/static_list.hpp', 'preamble.hpp'],
  [('registry::initialize/finalize, compiler<...> rebuilt from the catalogs', 'initialize.hpp'),
   ('destructors of use_class_aux, method, override_impl', 'core.hpp'), ('static_list push_back/remove', 'detail/static_list.hpp')],
  [('classes, methods catalogs', 'what is registered', 'preamble.hpp'), ('dispatch_data', 'published tables', 'preamble.hpp')],
  ['overriders that run in each state of the history'])

p('C08', 'The outcome does not depend on parameter kinds, API style or policies',
  'Which overrider (or error) a call leads to depends only on the dynamic classes of the virtual arguments. It is the same for virtual parameters passed by '
  'reference, rvalue reference, pointer, `virtual_ptr`, smart pointer (`shared_ptr`, `unique_ptr`, `intrusive_ptr`) or smart virtual pointer, const or not, '
  'for methods and overriders declared by macros or through the core API, and for any combination of policies that fits the program '
  '(v-table pointer storage, hash, direct or indirect, standard, static, custom or deferred RTTI, runtime checks on or off).',
  ['configurations', 'inputs', 'programs'],
  'every combination of parameter kinds, declaration styles and policies, over every program',
  'Each kind and policy is tested in one example; the cross product is not.',
  ['core.hpp', 'macros.hpp', 'preamble.hpp', 'default_registry.hpp', 'interop/std_shared_ptr.hpp', 'interop/std_unique_ptr.hpp',
   'interop/boost_intrusive_ptr.hpp', 'policies/vptr_map.hpp', 'policies/vptr_vector.hpp', 'policies/std_rtti.hpp', 'policies/static_rtti.hpp'],
  [('virtual_traits specializations (peek, cast)', 'core.hpp'), ('acquire_vptr, boost_openmethod_vptr', 'core.hpp'),
   ('validate_method_parameter, select_overrider_virtual_type', 'core.hpp'), ('BOOST_OPENMETHOD_* macros', 'macros.hpp')],
  observe=['overriders that run, arguments received, errors'])

p('C09', 'Any distinct type ids dispatch correctly, or initialize reports the failure',
  'Whatever the values, number and distribution of the type ids of the registered classes, and even if a class has several type ids, after a successful '
  '`initialize` each id leads to the v-table of its own class. With a hash policy distinct ids never collide; if suitable factors cannot be '
  'found `initialize` reports `search_error` with the number of attempts made and of buckets tried.',
  ['inputs', 'configurations'],
  'every set of type ids (addresses, small integers, sparse, dense, random), every size, aliases of one class',
  'Tests use the ids the compiler and linker happen to produce, and the hash test one set of ids.',
  ['policies/fast_perfect_hash.hpp', 'policies/vptr_vector.hpp', 'policies/vptr_map.hpp', 'initialize.hpp'],
  [('fast_perfect_hash::initialize, hash', 'policies/fast_perfect_hash.hpp'), ('vptr_vector, vptr_map', 'policies/vptr_vector.hpp'),
   ('type_ids of a class, type_index', 'initialize.hpp')],
  [('mult, shift, min_value, max_value', 'hash factors and range', 'policies/fast_perfect_hash.hpp')],
  ['dispatch with each id; search_error'])

p('C10', 'With runtime checks, misuse is reported and never dispatched',
  'In a registry with runtime checks, a call made before `initialize` or after `finalize` is reported as `not_initialized`, an object whose class is not registered, '
  'used as a virtual argument or to make a (non-`final`) `virtual_ptr`, is reported as `missing_class` with its type, and a `final` virtual_ptr made from an object whose dynamic class '
  'is not the static one as `final_error` with both types. Correct uses are never reported, and checks do not change the outcome of correct programs.',
  ['inputs', 'histories', 'configurations'],
  'every class (registered or not) in every argument position, every state of the registry, every kind of pointer, every policy combination with runtime checks',
  'One unregistered class, one call and one kind of pointer are tested.',
  ['core.hpp', 'preamble.hpp', 'policies/vptr_vector.hpp', 'policies/vptr_map.hpp', 'policies/fast_perfect_hash.hpp'],
  [('check_initialized', 'preamble.hpp'), ('check (hash control table)', 'policies/fast_perfect_hash.hpp'),
   ('final_virtual_ptr', 'core.hpp'), ('dynamic_vptr', 'policies/vptr_vector.hpp')],
  [('initialized flag', 'set by initialize, reset by finalize', 'preamble.hpp')],
  ['errors passed to the handler'])

p('C11', 'initialize rejects inconsistent registrations and publishes nothing then',
  '`initialize` reports `missing_class` for a class used as a virtual parameter of a method or overrider (or as a covariant return type) but not registered, and `missing_base` '
  'with both classes for an overrider parameter not known to derive from the method\'s; it accepts everything else. '
  'If it fails, for these reasons or because a policy fails, no call dispatches on partial tables: calls are rejected or behave as before, and a later successful `initialize` works normally.',
  ['inputs', 'histories', 'fault_sequences'],
  'every inconsistent set of registrations, failures injected in policies, before and after successful initializations',
  'One missing class and one missing base are tested, only as the first initialization.',
  ['initialize.hpp', 'core.hpp', 'preamble.hpp'],
  [('augment_methods (lookup of classes), missing_base detection', 'initialize.hpp'), ('initialized flag reset', 'initialize.hpp')],
  observe=['errors of initialize, calls that follow'])

p('C12', 'A virtual_ptr always carries the object and v-table of what it refers to',
  'After any sequence of constructions, copies, moves, conversions to bases or to const, assignments (including null), casts, and conversions between plain and smart virtual pointers, each '
  'virtual_ptr designates the object (or null) that the same sequence on plain or smart pointers would, its `vptr()` is the v-table of the dynamic class of that object (null for a null pointer) and calls through it dispatch on that class. '
  'If an operation reports an error, the target is unchanged.',
  ['histories', 'inputs', 'configurations'],
  'every sequence of operations over any number of virtual_ptrs of all kinds (plain, shared, unique, intrusive), direct and indirect v-table pointers',
  'Each operation is tested in isolation, between two pointers.',
  ['core.hpp', 'interop/std_shared_ptr.hpp', 'interop/std_unique_ptr.hpp', 'interop/boost_intrusive_ptr.hpp'],
  [('virtual_ptr, virtual_ptr_impl constructors and assignments', 'core.hpp'), ('cast, final_virtual_ptr', 'core.hpp'),
   ('make_shared_virtual, make_unique_virtual', 'interop/std_shared_ptr.hpp')],
  [('obj, vp', 'the pointer and the v-table pointer', 'core.hpp')],
  ['get(), comparisons with null, dispatch through the pointer, reference counts'])

p('C13', 'With indirect_vptr, existing virtual pointers survive re-initialization',
  'In a registry with `indirect_vptr`, a virtual_ptr (plain, smart, made by `final`) or an object with an embedded v-table pointer that was created after a first `initialize` stays valid after any number of '
  'later registrations and `initialize` calls: calls through it behave exactly as calls through one created afterwards.',
  ['histories'],
  'every sequence of pointer creations, copies, registrations, initializations and calls',
  'One re-initialization is tested with one pointer.',
  ['core.hpp', 'preamble.hpp', 'initialize.hpp', 'inplace_vptr.hpp', 'policies/vptr_vector.hpp', 'policies/vptr_map.hpp'],
  [('indirect_vptr: address of the static v-table pointer kept', 'core.hpp'), ('static_vptr<Class>', 'preamble.hpp'),
   ('install_global_tables updates static v-table pointers', 'initialize.hpp')],
  [('static_vptr<Class>', 'current v-table of the class', 'preamble.hpp')],
  ['overriders that run through old pointers'])

p('C14', 'An inplace v-table pointer follows the construction phases of the object',
  'In a hierarchy using `inplace_vptr_base` and `inplace_vptr_derived`, a call on an object dispatches on the class whose constructor last completed the set-up of its own part, and during destruction on the class whose destructor is running, '
  'like a virtual function; a complete object dispatches on its own class. This holds for single, multiple and repeated derivation steps, for objects that are copies (also sliced) or are assigned to, and when a constructor exits by an exception.',
  ['inputs', 'programs', 'fault_sequences'],
  'every hierarchy of single or multiple inheritance, calls in every constructor and destructor, exceptions in any constructor, copies and assignments between objects of any two classes',
  'Tests check a single hierarchy and a few points of the life of an object.',
  ['inplace_vptr.hpp', 'core.hpp'],
  [('inplace_vptr_base, inplace_vptr_derived constructors and destructors', 'inplace_vptr.hpp'), ('boost_openmethod_vptr', 'inplace_vptr.hpp')],
  [('boost_openmethod_vptr member', 'v-table pointer in the object', 'inplace_vptr.hpp')],
  ['overriders that run'])

p('C15', 'Registries do not interfere with each other',
  'Registrations, options, initialize, finalize, errors and error handlers of a registry have no effect on the methods of another one (a registry is identified by its list of policies), even if '
  'the two use the same classes, and the same policies but for one that tells them apart.',
  ['histories', 'programs'],
  'every interleaving of operations on any number of registries sharing classes, type ids and policies',
  'Tests use several registries, one at a time.',
  ['preamble.hpp', 'initialize.hpp', 'core.hpp', 'policies/vptr_vector.hpp', 'policies/vptr_map.hpp', 'policies/fast_perfect_hash.hpp', 'policies/default_error_handler.hpp'],
  [('registry_state<Registry>, policy fn<Registry> static members', 'preamble.hpp')],
  observe=['calls, reports and errors of one registry after operations on another'])

p('C16', 'Arguments and results pass through a call as in a direct function call',
  'Ordinary arguments (values, references, rvalues, move-only objects) and virtual arguments reach the overrider with the value category of the method\'s parameter, without extra copies, designating '
  'the same objects (adjusted to the overrider\'s parameter class, across multiple and virtual inheritance), and so do results on their way back. Smart pointer arguments transfer or share ownership exactly as the same parameter of a '
  'plain function: no owner is lost, duplicated or released early, also when the call reports an error.',
  ['inputs', 'programs'],
  'every parameter kind in every position, every hierarchy (the address of a base subobject may differ), calls that return, throw or fail',
  'Tests check results of calls, rarely identity or copies, and never counts over sequences of calls.',
  ['core.hpp', 'interop/std_shared_ptr.hpp', 'interop/std_unique_ptr.hpp', 'interop/boost_intrusive_ptr.hpp'],
  [('method::operator(), thunk', 'core.hpp'), ('virtual_traits::cast, optimal_cast', 'core.hpp')],
  observe=['addresses, copy/move counts, reference counts'])

p('C17', 'Diagnostics are silent when off and never change results',
  'Without the trace option (or with it off), `initialize` and calls write nothing to the output policy; `trace::from_env` turns it on exactly when the environment variable BOOST_OPENMETHOD_TRACE is set and true. '
  'With trace on or off, results of `initialize` and calls are identical, and error messages are written only by the default handler, once per error.',
  ['configurations', 'inputs'],
  'every program, every value of the option and environment variable, every policy combination with or without output',
  'Output is never checked by the tests, and trace is compiled but its effects on results are not compared.',
  ['initialize.hpp', 'preamble.hpp', 'policies/fast_perfect_hash.hpp', 'policies/default_error_handler.hpp', 'policies/stderr_output.hpp', 'detail/ostdstream.hpp'],
  [('trace option, trace_stream', 'initialize.hpp'), ('default_error_handler', 'policies/default_error_handler.hpp')],
  observe=['bytes written by the output policy, results'])

p('C18', 'Errors go once to the current handler, and never continue past it',
  'Every error of a registry is passed exactly once, as the matching type, to the handler set last for that registry; `set` returns the handler it replaces, and the default one writes one message if there is an output policy. '
  'If the handler throws, the exception propagates to the caller and the registry stays usable; if it returns, the program is aborted without returning to the caller.',
  ['histories', 'fault_sequences', 'configurations'],
  'every sequence of handler settings, errors of every kind (calls, initialize, pointers), with default, throw and custom handlers',
  'Tests set one handler and provoke one error of each kind.',
  ['policies/default_error_handler.hpp', 'policies/throw_error_handler.hpp', 'preamble.hpp', 'core.hpp', 'initialize.hpp'],
  [('default_error_handler::fn::set, error', 'policies/default_error_handler.hpp'), ('throw_error_handler', 'policies/throw_error_handler.hpp'),
   ('std::abort after error', 'core.hpp')],
  [('handler', 'current handler', 'policies/default_error_handler.hpp')],
  ['handler calls, process status, messages'])

p('C19', 'The registration catalogs contain exactly what is alive, in order',
  'After any sequence of insertions and removals, a catalog of registrations contains the elements that were inserted and not removed since, each once, in order of insertion, and traversals and sizes agree with it; '
  'an element can be inserted again after it was removed.',
  ['histories'],
  'every sequence of insertions and removals, at both ends and in the middle, of any number of elements',
  'The list is tested with three elements and a few removals.',
  ['detail/static_list.hpp', 'core.hpp'],
  [('static_list::push_back, remove, clear, iterators', 'detail/static_list.hpp')],
  [('first, prev and next links', 'circular prev links, null-terminated next links', 'detail/static_list.hpp')],
  ['traversal, size, empty'])

p('C20', 'Concurrent calls do not affect each other',
  'In an initialized registry, any number of threads may call methods (of the same objects or not), use `next`, and make virtual pointers at the same time: each call has the outcome and the report it would have alone, whatever the interleaving, '
  'and neither calls, nor the errors they report by throwing, write to storage that other calls use (as long as nothing is registered, initialized or finalized at the same time).',
  ['schedules', 'configurations'],
  'every interleaving of calls by several threads, with all kinds of parameters, v-table pointer policies and error handlers',
  'No test uses threads, and a race shows in few schedules.',
  ['core.hpp', 'preamble.hpp', 'policies/vptr_vector.hpp', 'policies/vptr_map.hpp', 'policies/fast_perfect_hash.hpp', 'policies/default_error_handler.hpp', 'policies/throw_error_handler.hpp', 'inplace_vptr.hpp'],
  [('method::resolve, next', 'core.hpp'), ('dynamic_vptr', 'policies/vptr_vector.hpp'), ('hash', 'policies/fast_perfect_hash.hpp'), ('virtual_ptr', 'core.hpp')],
  [('dispatch tables', 'only initialize and finalize write them', 'initialize.hpp')],
  ['outcomes of calls, data races'])

p('C21', 'A registry is exactly its policies',
  'A registry made with `with` and `without`, from a list of policies or from a predefined registry, in any number of steps, contains the policy that was given last for each category and not removed since, and no other: '
  'the lookup of policies by category or by base, and the `has_...` flags, agree with that. The registry behaves accordingly: `initialize` initializes its vptr policy once (and, if it uses one, its type_hash policy) with exactly the registered classes, their v-table pointers and the options; '
  'calls get type ids, hashes and v-table pointers from the policies of the registry, of the arguments that do not carry their v-table pointer, and of no other; errors go to its error handler, if any, and messages to its output, if any; `finalize` calls each vptr and type_hash policy once, with the options.',
  ['configurations', 'histories'],
  'every sequence of `with` and `without`, predefined and user-defined policies of all categories, calls with arguments passed in every way, initialize and finalize in any order',
  'A few `with` are tested by static assertions, and policies of the user are tested one at a time.',
  ['preamble.hpp', 'initialize.hpp', 'core.hpp', 'default_registry.hpp', 'policies/vptr_vector.hpp', 'policies/vptr_map.hpp', 'policies/default_error_handler.hpp', 'policies/throw_error_handler.hpp'],
  [('registry::with, without, policy', 'preamble.hpp'), ('registry::finalize', 'initialize.hpp'), ('install_global_tables', 'initialize.hpp'), ('acquire_vptr', 'core.hpp')],
  [('policy_list', 'the policies of a registry', 'preamble.hpp')],
  ['policy_list, policy, flags', 'functions of user-defined policies that are called', 'outcomes, messages'])

p('C22', 'Calls and overriders find the method that accepts their arguments, by name',
  'For methods of the same name in several namespaces and with several lists of parameters, a call compiles in a namespace if and only if exactly one of the methods visible there (in the enclosing namespaces, or in those of the argument classes and their bases) accepts the arguments, and that method is called; '
  'an overrider is added to the method that can be called with its parameters, in the same way, wherever it is defined, in the registry of that method, and to no other (else it does not compile); `next` and `has_next` in its body follow the overriders of that method; '
  'an overrider called through its container runs, whatever the dynamic types of the arguments.',
  ['configurations'],
  'every arrangement of methods, classes and overriders in namespaces, overloads by number, kind and class of parameters, registries, and every way to define overriders (in one piece, inline, declared then defined, without macros)',
  'One arrangement of namespaces is tested, without overloads.',
  ['macros.hpp', 'core.hpp'],
  [('BOOST_OPENMETHOD, guide function, enable_forwarder', 'macros.hpp'), ('BOOST_OPENMETHOD_DETAIL_LOCATE_METHOD', 'macros.hpp'), ('BOOST_OPENMETHOD_OVERRIDERS, next, has_next', 'macros.hpp'), ('BOOST_OPENMETHOD_DEFAULT_REGISTRY', 'core.hpp')],
  [('overrider containers', 'one per name and namespace', 'macros.hpp')],
  ['which calls compile', 'overriders that run', 'programs that are rejected'])

if __name__ == '__main__':
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(d, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
