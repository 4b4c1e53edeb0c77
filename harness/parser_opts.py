def opts(entry, cfg):
    # the search loops of the standard library are cut at once
    return dict(eager_fn=r'__find_if|__find_fn')
