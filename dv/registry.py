"""Which units exist, and which obligations (by unit and tag) decide which property."""
import importlib, re

EVERY = ('contents', 'balance', 'lifetime', 'err', 'allocator', 'assert', 'overflow', 'termination', 'safety')
ALL = ('assert', 'overflow', 'termination', 'safety')

# unit -> (module, world class, client source, harness source)
UNITS = {
    'vector': ('dv.vector', 'VectorWorld', 'vector.cpp', 'vector.cpp'),
    'list': ('dv.list', 'ListWorld', 'list.cpp', 'list.cpp'),
    'shared': ('dv.shared', 'SharedWorld', 'shared.cpp', 'shared.cpp'),
    'set': ('dv.tree', 'TreeWorld', 'set.cpp', 'set.cpp'),
}

# parts of a property that are only checked by bounded concrete execution
BOUNDED = {('C05', 'list'): ['sort() is checked by bounded execution only, not proved']}


def ordered(n):
    return n.startswith('lst_merge') or n.startswith('lst_sort')


HEAVY_REB = ('rb_tree_insert_and_rebalance', 'rb_tree_rebalance_for_erase')
MUT = HEAVY_REB + ('rb_tree::m_copy',)


def mutates(n):
    return n in MUT or re.match(r'set_(insert|emplace|erase|clear|copy|assign|move|swap|ctor)', n) is not None


# property -> [(unit, obligation tags, harness categories, entry filter or None)]
PROPS = {
    'C01': [('vector', ('contents',) + ALL, ('contents',), None)],
    'C02': [('vector', ('lifetime',) + ALL, ('lifetime',), None)],
    'C03': [('vector', ('err',) + ALL, ('err',), None)],
    'C04': [('list', ('contents',) + ALL, ('contents',), lambda n: not ordered(n))],
    'C05': [('list', EVERY + ('order',), ('order',), ordered)],
    'C06': [('list', ('lifetime', 'err', 'allocator') + ALL, ('lifetime', 'err', 'allocator'), None)],
    'C07': [('set', ('contents',) + ALL, ('contents',), None)],
    'C08': [('set', ('balance',) + ALL, ('balance',), mutates)],
    'C09': [('set', ('lifetime', 'err', 'allocator') + ALL, ('lifetime', 'err', 'allocator'), lambda n: n not in HEAVY_REB)],
    'C10': [('shared', EVERY, ('own',), lambda n: n.startswith('sp_') and not n.startswith('sp_make'))],
    'C11': [('shared', EVERY, ('weak',), lambda n: n.startswith('wp_'))],
    'C12': [('shared', EVERY, ('make',), lambda n: n.startswith('sp_make'))],
}


def load(unit):
    mod, cls, src, har = UNITS[unit]
    m = importlib.import_module(mod)
    return m, getattr(m, cls), src, har
