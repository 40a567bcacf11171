"""Source of /verif/properties.jsonl (rewritten by gen_manifest.py)."""

INC = 'include/cpp-sort/'
ALL = [INC + 'sorters', INC + 'adapters', INC + 'fixed', INC + 'probes', INC + 'detail', INC + 'utility']

PROPS = []


def prop(pid, title, statement, over, text, why, files, mech, **kw):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if 'observe_at' in kw:
        kw['observe_at'] = [kw['observe_at']]
    a.update(kw)
    PROPS.append({'id': pid, 'title': title, 'statement': statement,
                  'quantifier': {'over': over, 'text': text},
                  'why_tests_cant': why, 'anchors': a})


prop('P01', 'Every algorithm works with iterators of its documented category, and no less',
     'Every sorter, sorter adapter, fixed-size sorter and measure of presortedness accepts every conforming iterator or range '
     'of its documented iterator category and of every stronger one, using only the operations that category guarantees (never post-increment nor post-decrement) and '
     'whatever the signed difference type. Calling a sorter with iterators of a weaker category than documented is rejected at '
     'compile time, and the category it advertises is the documented one.',
     ['programs'], 'every iterator type of every category (including types providing nothing beyond the category requirements), '
     'every range type, every signed difference type',
     'The tests use standard containers and pointers, whose iterators provide far more than the category requires and a '
     'std::ptrdiff_t difference type; no finite sample of iterator types covers "every conforming iterator".',
     ALL, [('category checks', INC + 'sorter_facade.h'), ('category advertising', INC + 'sorter_traits.h'),
           ('algorithms', INC + 'detail')],
     observe_at='instantiation of a sorter call with a minimal iterator archetype', hook_needed=None)

prop('P02', 'Elements only need to be movable',
     'Every sorter, sorter adapter and fixed-size sorter works with elements that can only be moved (no copy, no default '
     'construction, no comparison or other operator of their own, moves that may throw), except for the ones documented to need '
     'more. In particular no algorithm requires elements to be copied or created from nothing.',
     ['programs'], 'every movable element type, with or without throwing moves, for every sorter, adapter, iterator category and '
     'code path selected by comparator or projection types',
     'The tests use a handful of element types with one category each; a copy or default construction on a path only reached with '
     'another category, a throwing move or a branchless comparison is never instantiated.',
     [INC + 'sorters', INC + 'adapters', INC + 'fixed', INC + 'detail'],
     [('algorithms', INC + 'detail'), ('temporary buffers', INC + 'detail/memory.h')],
     observe_at='instantiation with move-only element archetypes', hook_needed=None)

prop('P03', 'Every algorithm handles proxy iterators through iter_move and iter_swap',
     'Every sorter, sorter adapter, fixed-size sorter and measure of presortedness that is not documented otherwise works with '
     'proxy iterators, whose dereference yields a temporary proxy object. Elements are moved out of a sequence only through '
     'iter_move and exchanged only through iter_swap, which also work through reversed and moving iterators; no reference into a temporary proxy outlives it.',
     ['programs'], 'every proxy iterator type of every category, for every algorithm and code path',
     'The tests sort one proxy container with some sorters, one category and one comparator at a time; a direct dereference or '
     'swap on another path compiles for every real reference.',
     ALL, [('customisation points', INC + 'utility/iter_move.h'), ('algorithms', INC + 'detail')],
     observe_at='instantiation with proxy iterator archetypes', hook_needed=None)

prop('P04', 'Any comparator and projection form is accepted, and always used',
     'Every sorter, sorter adapter, fixed-size sorter and measure of presortedness accepts any comparator and projection it is '
     'documented to accept: function objects with a mutable call operator or taking non-const references, function pointers, '
     'pointers to member functions or data members, projections returning values or references. Elements are only ever compared '
     'by calling that comparator on the results of projecting each of them exactly once.',
     ['programs'], 'every comparator and projection type usable with an algorithm, for every iterator category',
     'The tests pass const function objects, often std::less<>, on types that have operators of their own; a comparison that '
     'bypasses the comparator or the projection gives the same result on them.',
     ALL, [('callable invocation', INC + 'utility/as_function.h'), ('algorithms', INC + 'detail')],
     observe_at='instantiation with comparators and projections over operator-less keys', hook_needed=None)

prop('P05', 'Sorter traits tell the truth about categories and stability',
     'The iterator category and stability advertised by every sorter, fixed-size sorter and adapter are the documented ones, and a call '
     'is only reported stable by is_stable when every sorter its adapters may call for it is stable for that very call. '
     'stable_t, stable_adapter, rebind_iterator_category, fixed_sorter_traits, the is_sorter and is_projection families and the '
     'branchless traits likewise have their documented values, on plain and cv- or reference-qualified types.',
     ['programs', 'configurations'], 'every sorter, every adapter over sorters with any combination of traits, every form of call',
     'The tests check traits on a few concrete sorters; wrong stability silently breaks the callers which rely on it.',
     [INC + 'sorter_traits.h', INC + 'adapters', INC + 'sorters', INC + 'fixed', INC + 'utility/branchless_traits.h'],
     [('traits', INC + 'sorter_traits.h'), ('stable adapters', INC + 'adapters/stable_adapter.h'),
      ('branchless traits', INC + 'utility/branchless_traits.h')],
     observe_at='the values of public traits', hook_needed=None)

prop('P06', 'Dispatching adapters call exactly the sorter they document, for every call',
     'A hybrid sorter calls the first of its sorters, among those accepting the call, with the closest iterator category; a '
     'self-sorting adapter calls the container\'s own sorting method exactly when it can be called with the given arguments, and '
     'its fallback otherwise; a size-dispatching adapter calls the fixed-size sorter of exactly the size of the sequence when it '
     'has one; a stabilising adapter leaves a sorter alone whenever it is already stable for that call; a container-aware adapter '
     'uses the container algorithm whenever there is one. The chosen sorter receives the very sequence, comparator and '
     'projection of the call.',
     ['programs', 'inputs'], 'every list of adapted sorters, every form of call (iterators or range, with or without comparator and '
     'projection), every size of the sequence',
     'The tests call a few combinations of sorters and mostly observe that the sequence ends up sorted, which every sorter of the '
     'list achieves; the wrong choice is invisible.',
     [INC + 'adapters'], [('dispatch', INC + 'adapters/hybrid_adapter.h'), ('self sort', INC + 'adapters/self_sort_adapter.h'),
                          ('small arrays', INC + 'adapters/small_array_adapter.h'), ('stability', INC + 'adapters/stable_adapter.h'),
                          ('containers', INC + 'adapters/container_aware_adapter.h')],
     observe_at='the calls of the adapted sorters in the compiled adapter', hook_needed=None)

prop('P07', 'Adapters call their own copy of the adapted sorter and return its result',
     'An adapter given a sorter at construction only ever calls that sorter (with its state), gives it back unchanged through '
     'get(), and stores nothing when the sorter is empty. Adapters documented to return the result of the adapted sorter do so for '
     'every form of call, empty adapters convert to function pointers doing the same, and the counting adapter returns the exact '
     'number of comparisons the adapted sorter made.',
     ['programs', 'inputs'], 'every adapted sorter, stateful or not, every nesting of adapters, every form of call',
     'The tests adapt empty, stateless sorters whose copies cannot be told apart, and mostly ignore the result.',
     [INC + 'adapters', INC + 'utility/adapter_storage.h'],
     [('storage', INC + 'utility/adapter_storage.h'), ('adapters', INC + 'adapters')],
     observe_at='the calls of the adapted sorter in the compiled adapter', hook_needed=None)

prop('P08', 'The unified sorting interface is complete and passes its arguments through',
     'A sorter made with the sorter facade from an implementation with any subset of the documented overloads can be called with '
     'a pair of iterators or a range, and a comparator, a projection, both or neither, whenever the documentation says so. The '
     'implementation is then called exactly once, with the overload documented to be preferred, with the very sequence, '
     'comparator and projection of the call or their documented substitutes, and its result is returned.',
     ['programs', 'inputs'], 'every implementation (any subset of overloads for iterators and ranges, stateful or not), every form of '
     'call, including through a function pointer',
     'The tests call sorters whose implementations have all-defaulted parameters; most combinations of overloads and calls are '
     'never instantiated.',
     [INC + 'sorter_facade.h'], [('overload completion', INC + 'sorter_facade.h')],
     observe_at='the compiled call of the implementation', hook_needed=None)

prop('P09', 'Constant-memory algorithms neither allocate nor recurse; bad_alloc guarantees',
     'Sorters, fixed-size sorters and measures of presortedness documented to use constant memory never allocate heap memory, '
     'never recurse and never allocate a variable amount of stack, and adapters documented to add nothing keep that. Algorithms '
     'documented never to throw std::bad_alloc (merge, pdq, quick, quick_merge, split and std sorters, probe::dis, probe::osc) '
     'never let a failed allocation throw, whatever the iterators; the ones with logarithmic memory among them do not allocate at all.',
     ['inputs', 'fault_sequences'], 'every size and content of the sequence, every iterator category, every comparator and projection, every '
     'point where memory may run out',
     'No test counts allocations or makes one fail; the path which allocates may need a pathological sequence.',
     ALL, [('temporary buffers', INC + 'detail/memory.h'), ('algorithms', INC + 'detail')],
     observe_at='allocation functions and cycles in the call graph of the instantiation', hook_needed=None)

prop('P10', 'Exceptions of user operations always reach the caller',
     'An exception thrown by any operation of the elements, iterators, comparator or projection given by the user, copies of '
     'iterators and function objects included, leaves the algorithm and reaches the caller: no algorithm, adapter or measure of '
     'presortedness swallows it or turns it into a call to std::terminate. The library only handles std::bad_alloc, to fall back '
     'on an algorithm needing less memory.',
     ['inputs', 'fault_sequences'], 'every user operation, at every point of every algorithm where it may throw',
     'The tests throw from a few operations of a few sorters; a noexcept too many is only visible when the one operation under it '
     'throws.',
     ALL, [('algorithms', INC + 'detail'), ('scope guards', INC + 'detail/scope_exit.h')],
     observe_at='unwind edges of the instantiation', hook_needed=None)

prop('P11', 'Algorithms are deterministic and re-entrant',
     'The sequence of operations of every sorter, adapter and measure of presortedness only depends on its arguments: the library '
     'uses no randomness, clock, thread, environment or I/O, and keeps no mutable global, static or thread-local state. It can '
     'therefore be called from several threads, or from a user operation it itself called.',
     ['inputs', 'schedules', 'histories'], 'every call, every interleaving of calls from several threads, every nesting of calls',
     'The tests are single-threaded and call algorithms independently; a cache shared between calls gives the expected results.',
     ALL, [('algorithms', INC + 'detail')],
     observe_at='globals and external functions of the instantiation', hook_needed=None)

prop('P12', 'Temporary memory is freed on every path, exceptional ones included',
     'All the memory an algorithm, adapter or measure of presortedness allocates has been given back to the matching deallocation '
     'function by the time it returns, or is left by an exception thrown from any user operation (of elements, iterators, '
     'comparator or projection) or by a further allocation; members which own memory free what they hold before they are given '
     'something else.',
     ['inputs', 'fault_sequences'], 'every allocation, every way out of the algorithm after it',
     'The tests never run under a leak checker with an exception thrown at each possible point.',
     ALL, [('temporary buffers', INC + 'detail/memory.h'), ('buffer providers', INC + 'utility/buffer.h')],
     observe_at='allocation and deallocation functions of the instantiation', hook_needed=None)

prop('P13', 'Sizes and positions are never narrowed',
     'Comparison sorters, counting_sorter, adapters, fixed-size sorters, probes and apply_permutation never convert a size, '
     'distance, position or count of the sequence to an integer type which cannot hold it, and never count the elements of a '
     'sequence with a type narrower than its difference type, nor compute one in a type where it can overflow before it is widened, nor convert to an integer a floating-point number which '
     'may be infinite, not a number or out of range: '
     'collections of more than 2^31 elements are handled, and counting_sorter handles any range of values.',
     ['inputs'], 'every size a 64-bit difference type can express, every content of the collection',
     'The largest collection in the tests has a million elements or so; a narrowed size needs more than 2^31.',
     ALL, [('algorithms', INC + 'detail')],
     observe_at='integer conversions and loop counters of the instantiation', hook_needed=None)

prop('P14', 'Sorting networks sort every input with the documented units',
     'Every sorting_network_sorter (0 to 64 elements), merge_exchange_network_sorter (to 32, thorough: 64) and '
     'odd_even_merge_network_sorter (powers of two to 32, thorough: 64) is an oblivious sequence of compare-exchange units which sorts '
     'every input and never loses an element, arithmetic types sorted with std or ranges less and greater (which have dedicated '
     'code) included. The networks of sorting_network_sorter have exactly the documented number of units, those of 0 to 3 elements are '
     'stable. index_pairs() lists the units of the sorter in order, and swap_index_pairs and swap_index_pairs_force_unroll apply them.',
     ['inputs', 'programs'], 'every size listed, all n! orders and all ties of the elements',
     'The tests sort a few random arrays per size: a wrong unit in a network for 50 elements leaves most inputs sorted, and some '
     'specialisations for arithmetic types and comparators are not tested at all.',
     [INC + 'fixed', INC + 'detail/sorting_network', INC + 'detail/swap_if.h', INC + 'utility/sorting_networks.h'],
     [('networks', INC + 'detail/sorting_network'), ('compare-exchange', INC + 'detail/swap_if.h')],
     observe_at='order of the elements after the sorter returns; comparisons it makes', hook_needed=None)

prop('P15', 'Fixed-size comparison sorters sort every array at the documented cost',
     'low_comparisons_sorter (0 to 13 elements) and low_moves_sorter (0 to 9, thorough: 10) sort every array; they only compare, move and '
     'exchange elements within it, never compare or move one which has been moved from, never move one to itself, and lose none. '
     'Over all the permutations of distinct elements, the numbers of comparisons of the first and of moves (three for an exchange) '
     'of the second are the documented weights.',
     ['inputs', 'programs'], 'every size listed, all n! orders and all ties of the elements',
     'The tests sort a few arrays of each size; 13! orders cannot be sampled meaningfully, and the documented weights are not tested.',
     [INC + 'fixed', INC + 'detail/low_comparisons', INC + 'detail/low_moves', INC + 'detail/front_insert.h'],
     [('low comparisons', INC + 'detail/low_comparisons'), ('low moves', INC + 'fixed/low_moves_sorter.h')],
     observe_at='order of the elements after the sorter returns; comparisons and moves it makes', hook_needed=None)

prop('P16', 'Comparator and projection combinators mean exactly what they document',
     'flip, not_fn, projection_compare and make_projection_compare, the | of projections, as_projection, as_comparison, as_function, refined, indirect, half, '
     'identity and function_constant call the functions they are made of with the documented arguments (value category included) in the documented '
     'order, exactly once each, and return the documented formula over the results, however they are nested and whatever '
     'the value category of the combinator and of its arguments. Their documented types (flip(flip(f)) is f, identity '
     'disappears), transparency, noexcept, constexpr, projection_base and branchlessness follow from their parts.',
     ['programs', 'inputs'], 'every nesting of combinators, every form of function, every value category and constness',
     'The tests combine a few stateless function objects once; a nesting which unwraps the wrong level or an overload for a '
     'rarer value category that calls another function is not reached.',
     [INC + 'comparators', INC + 'utility/functional.h', INC + 'utility/as_function.h', INC + 'refined.h'],
     [('comparators', INC + 'comparators'), ('projections', INC + 'utility/functional.h')],
     observe_at='the calls a combinator makes and what it returns', hook_needed=None)

prop('P17', 'Metrics count every operation exactly',
     'metrics::comparisons, metrics::projections, metrics::moves and counting_adapter call the adapted sorter once, with the given sequence and '
     'equivalent functions, and return exactly the number of comparisons, projections or element moves it performed '
     '(an exchange counting for what it is documented to), however many and in whatever order; metrics::running_time returns the time '
     'between just before and just after the call. metric and metrics objects are regular values: every comparison, arithmetic, '
     'conversion and access of them is the one of their values and keeps the tags apart.',
     ['inputs', 'programs'], 'every adapted sorter, every number and order of operations it does, every form of call',
     'The tests count the operations of heap_sorter on one collection; an operation missed in some overload, or counted twice, '
     'needs a sorter which does that operation.',
     [INC + 'metrics', INC + 'adapters/counting_adapter.h', INC + 'utility/metrics_tools.h', INC + 'detail/comparison_counter.h'],
     [('metrics', INC + 'metrics'), ('metric types', INC + 'utility/metrics_tools.h')],
     observe_at='the value returned by the metric', hook_needed=None)

prop('P18', 'Order comparators answer the documented order for every value',
     'total_less and total_greater order floating-point values as IEEE 754 totalOrder does (NaNs of the same sign equivalent), weak_less and weak_greater as '
     'the weak order which makes both zeros equivalent, and partial_less and partial_greater as the built-in operators; on integers (128 bits included) all of them are the '
     'built-in operators. A type which customises one of them through ADL gets its own function, called with the arguments as they were given; '
     'partial falls back to weak, and weak to total, never to operator<. natural_less and case_insensitive_less (with or without a locale, '
     'refined or not) call the customisations of their arguments likewise.',
     ['inputs', 'programs'], 'every pair of values of every floating-point and integer type, every type customising any subset of the orders',
     'The tests compare a few values; weak_less could not even be called with floating-point values. Pairs of NaNs, infinities, zeros and '
     'subnormal numbers of both signs are 100 cases per type and comparator before any two reals are told apart.',
     [INC + 'comparators', INC + 'detail/floating_point_weight.h'],
     [('orders', INC + 'comparators/total_less.h'), ('weights', INC + 'detail/floating_point_weight.h')],
     observe_at='the value returned by the comparator', hook_needed=None)

prop('P19', 'No element is lost in a temporary',
     'An element which any sorter, sorter adapter, fixed-size sorter or apply_permutation moves into a local variable is moved on '
     'exactly once before the variable dies: its value is never dropped, nor overwritten while it is still needed, and the variable is '
     'never compared, projected or moved again after that, whatever the results of the comparisons, unless an exception is thrown.',
     ['inputs'], 'every size and content of the sequence, every sequence of results of the comparisons',
     'The tests sort integers, for which a moved-from variable still holds its value, and a few distributions; the branch which '
     'drops or reuses it may never be taken.',
     [INC + 'sorters', INC + 'adapters', INC + 'fixed', INC + 'detail', INC + 'utility/apply_permutation.h'],
     [('algorithms', INC + 'detail'), ('moves', INC + 'utility/iter_move.h')],
     observe_at='moves of elements in the instantiation', hook_needed=None)

prop('P20', 'Headers work alone, together and in every configuration',
     'Every public header can be included first, alone, several times, with all the others in any order and from several '
     'translation units, in every supported version of C++, with or without assertions and audits; it defines nothing two translation units '
     'could not both define, and no macro whose name does not begin with CPPSORT_. Assertions and audits never change what '
     'programs compile nor what they do when they hold: their conditions have no side effects, and every sorter, adapter and '
     'probe still accepts the same minimal elements, iterators, comparators and projections.',
     ['programs', 'configurations'], 'every public header, language mode, order of inclusion and configuration',
     'Each test includes the headers it includes, in the order it does, in the one configuration of the build.',
     ['include/cpp-sort', INC + 'detail/config.h'], [('configuration', INC + 'detail/config.h'), ('public headers', 'include/cpp-sort')],
     observe_at='compilation and linking of programs which include the headers', hook_needed=None)

prop('P21', 'What must only be read is only read, what must be relinked only relinked',
     'Measures of presortedness, sorted_indices and sorted_iterators never copy, move, exchange or assign the elements of the '
     'sequence they are given, constant or not; algorithms which sort lists by their links never move, copy, exchange or assign an element; '
     'schwartz_adapter calls the projection it was given before the adapted sorter is called, and no more from then on.',
     ['inputs', 'programs'], 'every type of element, sequence, comparator and projection; every sequence of operations of the adapted sorter',
     'The tests give copyable elements, and an exchange undone later, or a copy nobody looks at, cannot be seen in the result.',
     [INC + 'probes', INC + 'utility/sorted_indices.h', INC + 'utility/sorted_iterators.h', INC + 'detail/container_aware',
      INC + 'adapters/container_aware_adapter.h', INC + 'adapters/self_sort_adapter.h', INC + 'adapters/schwartz_adapter.h'],
     [('probes', INC + 'probes'), ('lists', INC + 'detail/container_aware'), ('schwartz', INC + 'adapters/schwartz_adapter.h')],
     observe_at='operations on the elements and calls to the projection', hook_needed=None)

prop('P22', 'Sorting functions call the sorter they document',
     'cppsort::sort and cppsort::stable_sort can be called with a range or a pair of iterators, a comparator, a projection, both or neither, '
     'with or without a sorter in front, without any ambiguity, and then call once the given sorter (sort), its stable_adapter (stable_sort), '
     'default_sorter or stable_adapter<default_sorter>, with the same sequence and an equivalent comparison and projection, and return its result. '
     'Every sorter comes with a unique function object of its type; default_sorter is made of the documented sorters.',
     ['inputs', 'programs'], 'every form of call, kind of sequence and value category, every sorter',
     'The tests call a few forms with one sorter; stable_sort could not be given a sorter which was not const and a pair of iterators.',
     ['include/cpp-sort/sort.h', 'include/cpp-sort/stable_sort.h', INC + 'sorters', INC + 'sorters/default_sorter.h'],
     [('functions', 'include/cpp-sort/sort.h'), ('default sorter', INC + 'sorters/default_sorter.h')],
     observe_at='which sorter is called, with what, and what is returned', hook_needed=None)

prop('P23', 'Utilities mean what they document for every type and value',
     'iter_swap calls the iterators\' own iter_swap, else moves three times through their own iter_move, else calls the swap of the elements, also '
     'through any nesting of reverse and move iterators; size is the size method or the distance; dynamic_buffer has the size its policy answers '
     '(none for empty sequences) and fixed_buffer its own; adapter_storage keeps sorters and their value category; sorted_indices and '
     'sorted_iterators make the sorter compare exactly the elements which indices and iterators refer to; make_integer_range '
     'enumerates exactly the documented range and max_for_size is the documented formula.',
     ['inputs', 'programs'], 'every type and combination of customisations; every pair of elements compared; integer parameters over grids of boundary values',
     'The tests use random-access iterators of copyable elements, and a handful of sizes and ranges; an empty range with a step held one number.',
     [INC + 'utility', INC + 'probes'],
     [('iter_move', INC + 'utility/iter_move.h'), ('buffers', INC + 'utility/buffer.h'), ('indices', INC + 'utility/sorted_indices.h')],
     observe_at='operations called by the utility and its result', hook_needed=None)


# Properties which static analysis cannot decide here: MANIFEST.json's not_applicable.

prop('P30', 'Every sorter sorts: the result is an ordered permutation',
     'Whatever the collection, comparator and projection, every sorter and adapter leaves the collection holding exactly the elements it '
     'held, ordered by the comparison of their projections.',
     ['inputs'], 'every size and content of the sequence, every strict weak ordering',
     'The tests sort a few patterns of a few sizes: runs of one element and odd sizes under a rare condition were missorted.',
     [INC + 'sorters', INC + 'adapters', INC + 'detail'], [('algorithms', INC + 'detail')],
     observe_at='the sequence after the call', hook_needed=None)

prop('P31', 'Stable sorters preserve the order of equivalent elements',
     'A sorter or adapter which reports a call as stable leaves equivalent elements of that call in the order they were in.',
     ['inputs'], 'every size and content of the sequence, every strict weak ordering',
     'Only sequences with equivalent elements at particular places reveal that a merge prefers the wrong side.',
     [INC + 'sorters', INC + 'adapters', INC + 'detail'], [('merges', INC + 'detail')],
     observe_at='the order of equivalent elements after the call', hook_needed=None)

prop('P32', 'Time complexities are the documented ones',
     'The number of comparisons, moves and projections made by every sorter and measure of presortedness is within the documented bound, '
     'in the worst case and for the adaptive ones on presorted collections.',
     ['inputs'], 'every size and content of the sequence',
     'The tests are small; quadratic behaviours need adversarial inputs.',
     [INC + 'sorters', INC + 'probes', INC + 'detail'], [('algorithms', INC + 'detail')],
     observe_at='the number of operations', hook_needed=None)

prop('P33', 'Measures of presortedness compute their definition',
     'Every probe returns the value its documentation defines, 0 exactly for sorted collections unless documented otherwise, at most '
     'max_for_size.',
     ['inputs'], 'every size and content of the sequence',
     'The tests compare a few values with known ones.',
     [INC + 'probes'], [('probes', INC + 'probes')],
     observe_at='the value returned', hook_needed=None)

prop('P34', 'natural_less and case_insensitive_less order strings as documented',
     'natural_less compares runs of digits by the number they write and the rest character by character, within the bounds of both '
     'strings; case_insensitive_less compares the characters whatever their case in the locale. Both are strict weak orders.',
     ['inputs'], 'every pair of strings, every locale',
     'The tests compare a few pairs; zeros in front of numbers and digits at the end of a string were mishandled.',
     [INC + 'comparators'], [('comparators', INC + 'comparators')],
     observe_at='the answer of the comparator', hook_needed=None)

prop('P35', 'Algorithms terminate and stay within the sequence and their buffers',
     'With a strict weak ordering no algorithm reads or writes outside of the sequence or of its temporary buffers, and every algorithm '
     'terminates.',
     ['inputs'], 'every size and content of the sequence',
     'A read past the end needs a particular pattern, and often goes unnoticed.',
     [INC + 'sorters', INC + 'probes', INC + 'detail'], [('algorithms', INC + 'detail')],
     observe_at='addresses accessed', hook_needed=None)
