// joining strings
#include "vp.hpp"
#include <sstream>
#include <utki/string.hpp>
// The strings joined are pieces of one text: string i is the len(i) characters at start(i), and one
// more character (of no meaning) follows each of them.
static const char* T;
static size_t CNT, TOTAL, G, J;
static char D;
#ifdef VP_PROOF
static uint64_t start(uint64_t i) { return vp_fun("start", i); }
static uint64_t len(uint64_t i) { return vp_fun("len", i); }
const std::vector<std::string>& vp_strings(size_t n, const char* text) noexcept;
#else
static std::vector<uint64_t> Sv, Lv;
static uint64_t start(uint64_t i) { return Sv[i]; }
static uint64_t len(uint64_t i) { return Lv[i]; }
#endif
static bool ax_def(uint64_t i) { return i < CNT ? start(i + 1) == start(i) + len(i) + 1 : true; }
// ordered positions (by induction: the entry order_lemma)
static bool before(uint64_t a, uint64_t c) { return a == c ? true : start(a) + len(a) + 1 <= start(c); } // a <= c
static bool ax_order(uint64_t i)
{
	bool g = G < CNT ? (i <= CNT ? (i < G ? before(i, G) : before(G, i)) : true) : true;
	return VP_AND(g, i <= CNT ? before(i, CNT) : true);
}
VP_HARNESS(order_lemma)
{
	CNT = vp_len("cnt");
	size_t a = vp_ghost("a"), c = vp_ghost("c");
	if (vp_native()) return;
	vp_axiom(&ax_def);
	vp_requires(a <= c && c < CNT);
	vp_use(c);
	vp_use(a);
	vp_ensures(before(a, a), "begin of the induction");
	vp_requires(before(a, c));
	vp_ensures(before(a, c + 1), "step of the induction");
	vp_reach("done");
}
template <class C>
static void check(const C& r)
{
	vp_reach("done");
	if (CNT == 0) {
		vp_ensures(r.size() == 0, "no strings: empty");
		return;
	}
	vp_reach("some strings");
	vp_ensures(r.size() == TOTAL - 1, "length: all strings and the delimiters in between");
	if (r.size() != TOTAL - 1 || G >= CNT) return;
	size_t at = start(G) + J;
	if (J < len(G)) vp_ensures(r[at] == T[at], "the characters of each string in order");
	if (G + 1 < CNT) vp_ensures(r[start(G) + len(G)] == D, "one delimiter between neighbours");
}
VP_HARNESS(join)
{
	D = vp_val<char>("d");
	G = vp_ghost("g");
	J = vp_ghost("j");
#ifdef VP_PROOF
	CNT = vp_len("cnt");
	TOTAL = vp_len("total");
	T = static_cast<const char*>(vp_bytes("t", TOTAL, ""));
	vp_axiom(&ax_def);
	vp_requires(VP_AND(start(0) == 0, start(CNT) == TOTAL));
	vp_axiom(&ax_order);
	vp_use(CNT);
	if (G < CNT) {
		vp_use(G);
		vp_use(G + 1);
		vp_hint_elem(start(G) + J, J < len(G) ? T[J < len(G) ? start(G) + J : 0] : D, 1);
		vp_hint_elem(start(G) + len(G), D, 1);
	}
	vp_hint_fn([](uint64_t t) { return start(t) - 1; });
	vp_hint_fn([](uint64_t t) { return start(t); });
	const auto& v = vp_strings(CNT, T);
#else
	size_t n = vp_len("n");
	T = static_cast<const char*>(vp_bytes("s", n, "a\1\1,"));
	std::vector<std::string> v;
	size_t from = 0;
	Sv.clear();
	Lv.clear();
	for (size_t i = 0; i <= n; ++i)
		if (n != 0 && (i == n || T[i] == 1)) {
			v.emplace_back(T + from, i - from);
			Sv.push_back(from);
			Lv.push_back(i - from);
			from = i + 1;
		}
	Sv.push_back(from);
	CNT = v.size();
	TOTAL = from;
#endif
	check(utki::join(v, D));
}
