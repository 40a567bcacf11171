"""What is analysed: every sorter, adapter, fixed-size sorter, probe."""
from tables import SORTERS, NO_PROXY, NEEDS_DEFAULT, header_of, CATS, ORDER


class Subject:
    def __init__(self, name, expr, headers, cat, kind, proxy=True, default=False):
        self.name, self.expr, self.headers, self.cat = name, expr, headers, cat
        self.kind, self.proxy, self.default = kind, proxy, default


def sorters():
    return [Subject(n, 'cppsort::%s{}' % n, [header_of(n)], d[0], 'sorter',
                    n not in NO_PROXY, n in NEEDS_DEFAULT)
            for n, d in SORTERS.items()]


# adapter instances: (type, headers, documented category of the result)
ADAPTERS = [
    ('drop_merge_adapter<heap_sorter>', 'bidir'),
    ('drop_merge_adapter<quick_merge_sorter>', 'bidir'),
    ('split_adapter<heap_sorter>', 'ra'),
    ('split_adapter<quick_merge_sorter>', 'bidir'),
    ('verge_adapter<heap_sorter>', 'ra'),
    ('verge_adapter<quick_merge_sorter>', 'bidir'),
    ('stable_adapter<verge_adapter<quick_merge_sorter>>', 'bidir'),
    ('indirect_adapter<heap_sorter>', 'fwd'),
    ('out_of_place_adapter<heap_sorter>', 'fwd'),
    ('schwartz_adapter<heap_sorter>', 'ra'),
    ('schwartz_adapter<quick_merge_sorter>', 'fwd'),
    ('make_stable<heap_sorter>', 'ra'),
    ('make_stable<quick_merge_sorter>', 'fwd'),
    ('stable_adapter<heap_sorter>', 'ra'),
    ('stable_adapter<selection_sorter>', 'fwd'),
    ('stable_adapter<merge_sorter>', 'fwd'),
    ('counting_adapter<heap_sorter>', 'ra'),
    ('counting_adapter<quick_merge_sorter>', 'fwd'),
    ('self_sort_adapter<heap_sorter>', 'ra'),
    ('self_sort_adapter<selection_sorter>', 'fwd'),
    ('stable_adapter<self_sort_adapter<heap_sorter>>', 'ra'),
    ('container_aware_adapter<insertion_sorter>', 'bidir'),
    ('container_aware_adapter<heap_sorter>', 'ra'),
    ('hybrid_adapter<selection_sorter, insertion_sorter, heap_sorter>', 'fwd'),
    ('hybrid_adapter<insertion_sorter, heap_sorter>', 'bidir'),
    ('stable_adapter<hybrid_adapter<selection_sorter, insertion_sorter, heap_sorter>>', 'fwd'),
    ('schwartz_adapter<indirect_adapter<heap_sorter>>', 'fwd'),
    ('sorted_indices<heap_sorter>', 'ra'),
    ('sorted_iterators<heap_sorter>', 'fwd'),
    ('comparisons<quick_merge_sorter>', 'fwd'),
    ('projections<quick_merge_sorter>', 'fwd'),
    ('moves<quick_merge_sorter>', 'fwd'),
    ('moves<heap_sorter>', 'ra'),
]
SPACES = {'sorted_indices': 'utility', 'sorted_iterators': 'utility', 'comparisons': 'metrics', 'projections': 'metrics',
          'moves': 'metrics', 'running_time': 'metrics'}


def ident(s):
    return ''.join(c if c.isalnum() else '_' for c in s)


def adapters():
    import re
    out = []
    for t, cat in ADAPTERS:
        heads = []
        for w in re.findall(r'\w+', t):
            if w.endswith('_adapter'):
                heads.append('cpp-sort/adapters/%s.h' % w)
            elif w == 'make_stable':
                heads.append('cpp-sort/adapters/stable_adapter.h')
            elif w in SPACES:
                heads.append('cpp-sort/%s/%s.h' % (SPACES[w], w))
            elif w.endswith('_sorter'):
                heads.append('cpp-sort/sorters/%s.h' % w)
        heads.append('cpp-sort/adapters/stable_adapter.h')
        q = re.sub(r'(\w+)', lambda m: 'cppsort::' + (SPACES[m.group(1)] + '::' if m.group(1) in SPACES else '') + m.group(1), t)
        out.append(Subject(t, q + '{}', sorted(set(heads)), cat, 'adapter'))
    return out


# fixed-size sorters and the sizes worth instantiating on their own
FIXED = ['low_comparisons_sorter', 'low_moves_sorter', 'sorting_network_sorter',
         'merge_exchange_network_sorter', 'odd_even_merge_network_sorter']
FIXED_SIZES = {'low_comparisons_sorter': list(range(14)),
               'low_moves_sorter': list(range(0, 12)) + [16],
               'sorting_network_sorter': list(range(65)),
               'merge_exchange_network_sorter': list(range(18)) + [31, 32, 33],
               'odd_even_merge_network_sorter': [0, 1, 2, 4, 8, 16, 32, 64]}


def fixed():
    out = []
    for f in FIXED:
        for n in FIXED_SIZES[f]:
            out.append(Subject('%s<%d>' % (f, n), 'cppsort::%s<%d>{}' % (f, n),
                               ['cpp-sort/fixed/%s.h' % f], 'ra', 'fixed'))
    return out


PROBES = ['block', 'dis', 'enc', 'exc', 'ham', 'inv', 'max', 'mono', 'osc',
          'rem', 'runs', 'sus']


def probes():
    return [Subject('probe::' + p, '(cppsort::probe::%s)' % p,
                    ['cpp-sort/probes/%s.h' % p], 'fwd', 'probe') for p in PROBES]
