def opts(entry, cfg): return dict(elem_sizes={'rec': 4}, unroll=5)
