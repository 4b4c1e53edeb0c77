def opts(entry, cfg): return {} if entry == 'vph_alone' else dict(atomic_call=True)
