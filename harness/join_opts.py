def opts(entry, cfg):
    return dict(eager_fn=r'utki::(split|join|word_wrap)')
