F = r'.* utki::trim_front<char>\(std::basic_string_view'
B = r'.* utki::trim_back<char>\(std::basic_string_view'
def opts(entry, cfg):
    # the search loops of the standard library are cut at once
    o = dict(eager_fn=r'__find_if|::find\(')
    e = entry.replace('vph_', '')
    # callers are checked against the contracts of trim_front and trim_back
    if e in ('trim', 'trim_z', 'trim_s'): o['replace'] = [(F, 'vpc_trim_front'), (B, 'vpc_trim_back')]
    if e in ('trim_front_z', 'trim_front_s'): o['replace'] = [(F, 'vpc_trim_front')]
    if e in ('trim_back_z', 'trim_back_s'): o['replace'] = [(B, 'vpc_trim_back')]
    return o
