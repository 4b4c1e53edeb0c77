def opts(entry, cfg):
    # loops over whole strings are cut at once; the loop over the bytes of one character is unrolled
    return dict(eager=r'^(?!.*operator\+\+)')
