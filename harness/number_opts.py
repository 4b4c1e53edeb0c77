T = dict(u8='unsigned char', u16='unsigned short', u32='unsigned int', u64='unsigned long', i8='signed char', i16='short', i32='int', i64='long')
def opts(entry, cfg):
    r = [(r'utki::string_parser::skip_whitespaces\(\)', 'vpc_skip_whitespaces')]
    for n, t in T.items():
        r.append((r'std::to_chars\(char\*, char\*, %s, int\)' % t, 'vpc_to_chars_' + n))
        r.append((r'.*std::from_chars<%s\b.*\(char const\*, char const\*, %s&, int\)' % (t, t), 'vpc_from_chars_' + n))
    return dict(replace=r)
