def opts(entry, cfg):
    return dict(replace=[(r'vsnprintf$', 'vpc_vsnprintf')])
