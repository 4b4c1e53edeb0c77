import re
# std::vector of trees, of pointers and of iterators: the code of libstdc++ is executed, not its contract
def opts(entry, cfg): return dict(models=[(re.compile(r'.*std::vector<(?!unsigned|char).*utki::tree'), None)], unroll=40)
