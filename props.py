PROPS = {
    'C01': dict(harness=[('base64', 'base64')]),
    'C02': dict(harness=[('unicode', 'encode|encode_string|decode_step')]),
    'C03': dict(harness=[('unicode', 'decode_any.*')]),
    'C04': dict(harness=[('serialization', '.*')]),
    'C05': dict(harness=[('deserializer', '.*')]),
    'C07': dict(harness=[('number', '.*')], assumptions=['contracts assumed for std::to_chars and std::from_chars (digits of the base, value, end pointer, overflow)', 'skip_whitespaces() by its contract (C06)']),
    'C25': dict(harness=[('format', '.*')], assumptions=['contract assumed for vsnprintf: writes min(n-1, length) characters of an arbitrary text and a terminator, returns its length']),
    'C08': dict(harness=[('split', '.*')]),
    'C09': dict(harness=[('join', '.*')]),
    'C11': dict(harness=[('wrap', '.*')]),
    'C10': dict(harness=[('trim', 'trim.*|.*_with')]),
    'C12': dict(only_bounded=True, harness=[('sort', '.*')], bounded={'sort.*_4': 'ranges of at most 4 elements (all values, any strict weak ordering)'}, assumptions=['C++20: std::sort of libstdc++ is executed, not assumed']),
    'C13': dict(harness=[('flags', '.*')]),
    'C14': dict(harness=[('enums', '.*')]),
    'C23': dict(harness=[('version', '.*')]),
    'C26': dict(harness=[('trim', 'make_indentation')]),
    'C06': dict(harness=[('parser', '.*')]),
    'C15': dict(harness=[('span', '.*')]),
    'C16': dict(harness=[('singleton', '.*')], assumptions=['every history is covered by induction over the two states (no instance / one instance): each operation is checked from both states and leaves one of them']),
    'C17': dict(harness=[('spinlock', '.*')], san='tsan', assumptions=['rely-guarantee: every thread unlocks only what it has locked; between two atomic steps other threads take the lock only when it is free and release it only when they own it',
        'mutual exclusion from the invariant (flag set <=> owned), kept by every atomic step, and visibility from acquire/release order, by the argument in harness/spinlock.cpp', 'fairness: the lock is owned by others for finitely many attempts']),
    'C18': dict(only_bounded=True, harness=[('tree', '.*')], bounded={'(traverse|erase).*': 'every forest of at most 6 nodes', 'insert.*': 'every forest of at most 5 nodes', 'index.*': 'every forest of at most 4 nodes, every path of at most 3 components'},
        note='bounded proof: all forests and positions up to the bound; forests of up to 14 nodes, other containers by native search'),
    'C19': dict(harness=[('signal', '.*')], bounded={'history_.*': 'histories of at most 4 or 5 steps (connect, disconnect any slot, emit), any argument values'},
        assumptions=['contract of std::list as a sequence for the entries any_*; the bounded histories execute std::list itself (linking and unlinking of nodes by contract)'],
        note='emit, connect and disconnect: proved for any number of slots against the contract of std::list; whole histories with the real list: bounded (labelled)'),
    'C20': dict(harness=[('scope', '.*')]),
    'C21': dict(harness=[('linq', '.*')], bounded={'.*_4': 'collections of at most 4 elements (all values, any predicate, any grouping function)'}, level='proof', note='selecting: proved for collections of any length; filtering, ordering and grouping: bounded to 4 elements (labelled, not counted as proved), longer ones by native search'),
    'C22': dict(harness=[('views', '.*')]),
    'C24': dict(harness=[('refs', '.*')], assumptions=['reference counts are exercised from fixed numbers of references; shared_ptr itself is executed, not assumed']),
    'C27': dict(harness=[('exception', '.*')], bounded={'(chain|stack)_2': 'chains of at most 2 exceptions (all kinds, messages, indentations)'},
        assumptions=['messages have no NUL characters', 'the depth of the chain by induction from the entries step_*: each function describes one exception and takes the description of those nested from the contracts of the functions it calls',
            'contracts assumed for std::current_exception, std::rethrow_exception, dynamic_cast, typeid and __cxa_demangle; std::throw_with_nested, std::rethrow_if_nested and std::nested_exception are executed']),
    'C28': dict(harness=[('mathutil', '.*')], bounded={'.*_3': 'maps of at most 3 entries (all keys and values)'}, assumptions=['functions on floating point values are outside of the verifier (no floating point arithmetic)']),
}
