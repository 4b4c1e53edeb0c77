def cstr_len(e, st, p):
    """text streamed as char const*: a message of the harness (one more byte: the terminator) or the text of a std::string; without NUL characters"""
    import sym
    if p.obj is not None and (p.obj.name.startswith('msg') or p.obj.name == 'string'): return ('val', sym.sub(sym.sub(p.obj.size, 1), p.off))
    return None
def opts(entry, cfg):
    if entry == 'vph_demangle': return dict(replace=[(r'__cxa_demangle$', 'vpc_cxa_demangle'), (r'free$', 'vpc_free')])
    r = [(r'utki::demangle\b.*\(', 'vpc_demangle')]
    nested = r'(?!vph_|vpc_)'   # calls by the code verified, not those by the harness
    if entry.startswith('vph_step_'):
        r += [(r'utki::to_string\b.*\(std::exception const&', 'vpc_to_string', nested), (r'utki::current_exception_to_string\b', 'vpc_current', nested),
              (r'utki::stacked_exception<fail>::to_string\b', 'vpc_described' if entry == 'vph_step_what' else 'vpc_stack', nested)]
    return dict(cstr_len=cstr_len, replace=r)
