def opts(entry, cfg):
    return dict(eager_fn=r'utki::word_wrap', append_spec=('s', 'vpc_line'))
