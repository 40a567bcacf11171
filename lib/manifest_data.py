"""What MANIFEST.json says of each claimed property."""
WIT = 'static: type-checker witnesses over archetypes (type-level encoding, compile and compile-fail)'
CAN = 'static: canonical IR effect comparison of the instantiated template against an independent specification'
GRAPH = 'static: call-graph and effect analysis of the compiled instantiations (LLVM IR)'
CLAIMS = {
    'P01': (WIT, 'proof', 'Archetype iterators provide exactly the documented operations, so a successful instantiation shows no other syntactic operation is used; '
            'semantics of the operations (multipass, validity of increments) are not decided.'),
    'P02': (WIT, 'proof', 'Complete for syntactic requirements on the element type over the instantiated code paths.'),
    'P03': (WIT, 'proof', 'Complete for syntactic requirements on proxies over the instantiated code paths.'),
    'P04': (WIT, 'proof', 'Complete for syntactic requirements on callables over the instantiated code paths.'),
    'P05': (WIT, 'proof', 'Values of every trait over a grid of sorters, adapters, mock sorters and calls; whether a sorter documented to be '
            'stable behaves so is not decided.'),
    'P06': (CAN, 'proof', 'All lists of up to three sorters, all call forms, over opaque adapted sorters.'),
    'P07': (CAN, 'proof', 'All adapters, nestings of two, all call forms, over opaque adapted sorters.'),
    'P08': (CAN, 'proof', 'All combinations of overload subsets for iterators and ranges and all call forms, over opaque implementations.'),
    'P09': (GRAPH, 'proof', 'Over the call graph of each instantiation, indirect calls resolved by type; user operations are opaque.'),
    'P10': (GRAPH, 'proof', 'Over every unwind edge of each instantiation; exceptions thrown while another one is being handled are not considered.'),
    'P11': (GRAPH, 'proof', 'Over every function of each instantiation; the values of addresses are not tracked.'),
    'P12': ('static: interprocedural (inlined) must-hold dataflow over LLVM IR, unwind edges included', 'proof',
            'Allocations whose pointer escapes tracking are listed as not decided in the evidence; none on the current tree.'),
    'P13': ('static: value-range and loop-bound analysis of every narrowing conversion in LLVM IR', 'proof',
            'Radix sorters (ska, spread), which take values apart, and conversions made inside the standard library are left out; '
            'counters living in memory which cannot be promoted to registers are not followed.'),
    'P14': ('static: compare-exchange units extracted from IR by constant propagation; exact collecting analysis of reachable 0-1 sequences', 'proof',
            'Exact for every size listed: by the 0-1 principle a network which sorts all 0-1 sequences sorts all inputs. Elements which are not '
            'ordered by a strict weak order (NaN) are out of scope.'),
    'P15': ('static: disjunctive dataflow over LLVM IR in a domain of element places and known preorders', 'proof',
            'Exact for every size listed; low_moves_sorter has no largest size, larger ones repeat the same step and are not analysed.'),
    'P16': (CAN, 'proof', 'All nestings of flip and not_fn up to four, of projections up to three, over opaque functions; types, noexcept and '
            'constant expressions by type-checker witnesses.'),
    'P17': ('static: canonical IR of the returned count of opaque sorters doing unknown numbers of operations, compared with the count itself', 'proof',
            'The adapted sorter is opaque: what a given sorter counts to is not decided.'),
    'P18': ('static: abstract interpretation of the comparators over a finite exact partition of floating-point values; canonical IR for integers and dispatch', 'proof',
            'What natural_less and case_insensitive_less answer on character sequences is not decided.'),
    'P19': ('static: typestate dataflow of local elements over LLVM IR', 'proof',
            'Elements in local variables only; those in temporary buffers and in the sequence are not followed.'),
    'P20': ('static: type checking of every header and archetype in every configuration, linkage in LLVM IR, clang-tidy assertion lint', 'proof',
            'Whether the conditions of assertions hold is not decided.'),
    'P21': (WIT + '; canonical IR order of calls for schwartz_adapter', 'proof',
            'Complete over the instantiated code paths: elements without any operation cannot be operated on.'),
    'P22': (CAN, 'proof', 'All call forms over opaque sorters; function objects and default_sorter by type-checker witnesses.'),
    'P23': (CAN + '; compile-time witnesses', 'proof', 'Exact over opaque operations; make_integer_range and max_for_size over grids of '
            'constants; that sorted_indices starts from all the indices is not decided.'),
}
NOT_APPLICABLE = {
    'P30': 'For loop-based algorithms the result depends on unbounded runtime indices and on relations between the elements of arrays of '
           'unbounded size: no abstract domain in reach expresses the invariants of pdqsort, timsort or grail sort. Decided only where the '
           'code is straight-line once unrolled: fixed-size sorters (P14, P15), and conservation of locally held elements (P19).',
    'P31': 'Same reason as P30: which of two equivalent elements a merge takes is a runtime relation between indices. What sorters '
           'and adapters report is decided by P05, not how they behave.',
    'P32': 'Numbers of operations are functions of runtime sizes and contents; worst-case bounds of adaptive sorts with data-dependent '
           'recursion cannot be derived from the source by the analyses in reach. Constant memory and absence of recursion are decided by P09.',
    'P33': 'The value is a global function of the contents of the sequence (inversions, longest non-decreasing subsequence...) computed by '
           'data-dependent loops. The bounds max_for_size and the widths of the arithmetic are decided by P23 and P13.',
    'P34': 'The answer depends on two unbounded strings read by a data-dependent state machine and on functions of the runtime locale. '
           'The other order comparators, which have finitely many cases, are decided by P18.',
    'P35': 'Unguarded loops stop because of sentinels put by earlier data-dependent steps (partitions, minimums): a proof needs relational '
           'invariants over the contents of arrays of unbounded size. Widths of arithmetic are decided by P13, use of dead elements by P19.',
}
