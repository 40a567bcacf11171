"""Oracle tables, transcribed from /repo/docs (Sorters.md, Sorter-adapters.md,
Fixed-size-sorters.md, Measures-of-presortedness.md, Sorter-traits.md)."""

# name: (header, type expression, documented category, documented stability,
#        documented memory class, never throws bad_alloc)
#   memory: '1' constant, 'log' logarithmic (stack), 'n' linear
SORTERS = {
    # name                      category stable  memory  no_bad_alloc
    'adaptive_shivers_sorter': ('ra',    True,  'n',    False),
    'cartesian_tree_sorter':   ('fwd',   False, 'n',    False),
    'd_ary_heap_sorter<4>':    ('ra',    False, '1',    False),
    'drop_merge_sorter':       ('bidir', False, 'n',    False),
    'grail_sorter<>':          ('ra',    True,  '1',    False),
    'heap_sorter':             ('ra',    False, '1',    False),
    'insertion_sorter':        ('bidir', True,  '1',    False),
    'mel_sorter':              ('fwd',   False, 'n',    False),
    'merge_insertion_sorter':  ('ra',    False, 'n',    False),
    'merge_sorter':            ('fwd',   True,  'n',    True),
    'pdq_sorter':              ('ra',    False, 'log',  True),
    'poplar_sorter':           ('ra',    False, 'log',  False),
    'quick_merge_sorter':      ('fwd',   False, 'log',  True),
    'quick_sorter':            ('fwd',   False, 'log',  True),
    'selection_sorter':        ('fwd',   False, '1',    False),
    'slab_sorter':             ('bidir', False, 'n',    False),
    'smooth_sorter':           ('ra',    False, '1',    False),
    'spin_sorter':             ('ra',    True,  'n',    False),
    'splay_sorter':            ('fwd',   True,  'n',    False),
    'split_sorter':            ('ra'   , False, 'n',    True),
    'std_sorter':              ('ra',    False, 'log',  True),
    'tim_sorter':              ('ra',    True,  'n',    False),
    'verge_sorter':            ('bidir', False, 'n',    False),
    'wiki_sorter<>':           ('ra',    True,  '1',    False),
}
CATS = {'fwd': 'std::forward_iterator_tag',
        'bidir': 'std::bidirectional_iterator_tag',
        'ra': 'std::random_access_iterator_tag'}
ORDER = ['fwd', 'bidir', 'ra']

# Sorters documented as unable to handle proxy iterators
NO_PROXY = {'std_sorter'}
# Documented as requiring default-constructible values (buffer providers)
NEEDS_DEFAULT = {'wiki_sorter<>'}


def header_of(name):
    return 'cpp-sort/sorters/%s.h' % name.split('<')[0]
