def opts(entry, cfg):
    if not entry.startswith('vph_any_'): return {}
    L = r'std::(__cxx11::)?list<std::function<void \(unsigned int, unsigned long\)>.*>::'
    I = r'std::_List_(const_)?iterator<std::function<void \(unsigned int, unsigned long\)>\s*>::'
    return dict(replace=[
        (L + r'c?begin\(\)', 'vpc_begin'), (L + r'c?end\(\)', 'vpc_end'), (L + r'size\(\)', 'vpc_size'), (L + r'(push_back|emplace_back)\(std::function<.*>&&\)', 'vpc_push_back'), (L + r'erase\(std::_List_const_iterator<.*>\)', 'vpc_erase'),
        (I + r'operator\+\+\(\)', 'vpc_inc'), (I + r'operator--\(\)', 'vpc_dec'), (I + r'operator(\*|->)\(\)', 'vpc_deref'),
        (r'std::function<void \(unsigned int, unsigned long\)>::operator\(\)\(unsigned int, unsigned long\) const', 'vpc_call'),
        (L + r'~?list\(', 'inline'), (L, None), (I + r'operator', None)])
