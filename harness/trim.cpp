// trimming, prefix and suffix tests
#include "vp.hpp"
#include <algorithm>
#include <utki/string.hpp>
static const char ALPHA[] = "a \n\t\v\f\r\x85\xa0";
static bool is_sp(char c)
{
	return VP_OR(VP_OR(VP_OR(c == ' ', c == '\n'), VP_OR(c == '\t', c == '\r')), VP_OR(c == '\v', c == '\f'));
}
static const char* S;
static size_t N, K;
static bool ax_Z(uint64_t i) // no null inside of the text
{
	return VP_OR(i >= N, S[i < N ? i : 0] != 0);
}
static void text(bool z)
{
	N = vp_len("n");
	S = static_cast<const char*>(vp_bytes("s", N + z, ALPHA));
	if (z) {
		if (vp_native()) {
			const_cast<char*>(S)[N] = 0;
			N = strlen(S);
		} else {
			vp_requires(S[N] == 0);
			vp_axiom(&ax_Z);
		}
	}
	K = vp_ghost("k");
	vp_hint_pred(K, K < N ? is_sp(S[K]) : true);
	vp_hint_pred(K, K < N ? !is_sp(S[K]) : true);
}
// r is the part [b,e) of the text
static void is_part(std::string_view r, size_t b, size_t e)
{
	vp_ensures(b <= e && e <= N, "stays within the text");
	vp_ensures(r.size() == e - b, "length of what remains");
	if (r.size() != 0) vp_ensures(r.data() == S + b, "the rest is part of the text");
}
static void front_spec(std::string_view r)
{
	vp_ensures(r.size() <= N, "stays within the text");
	if (r.size() > N) return;
	size_t b = N - r.size();
	is_part(r, b, N);
	if (K < b) vp_ensures(is_sp(S[K]), "only whitespace is removed from the front");
	if (b < N) vp_ensures(!is_sp(S[b]), "all whitespace is removed from the front");
	vp_reach("done");
}
static void back_spec(std::string_view r)
{
	vp_ensures(r.size() <= N, "stays within the text");
	if (r.size() > N) return;
	size_t e = r.size();
	is_part(r, 0, e);
	if (VP_AND(K >= e, K < N)) vp_ensures(is_sp(S[K]), "only whitespace is removed from the back");
	if (e != 0) vp_ensures(!is_sp(S[e - 1]), "all whitespace is removed from the back");
	vp_reach("done");
}
static void both_spec(std::string_view r)
{
	vp_ensures(r.size() <= N, "stays within the text");
	vp_reach("done");
	if (r.size() > N) return;
	if (r.empty()) {
		if (K < N) vp_ensures(is_sp(S[K]), "nothing remains only of whitespace");
		return;
	}
	vp_reach("something remains");
	size_t b = r.data() - S, e = b + r.size();
	is_part(r, b, e);
	if (b > N || e > N) return;
	if (VP_AND(K < N, VP_OR(K < b, K >= e))) vp_ensures(is_sp(S[K]), "only whitespace is removed");
	vp_ensures(!is_sp(S[b]), "all whitespace is removed from the front");
	vp_ensures(!is_sp(S[e - 1]), "all whitespace is removed from the back");
}
// contracts of trim_front and trim_back (proved below) as used for the functions that call them
#ifdef VP_PROOF
static size_t pre(std::string_view v) // position of v in the text
{
	bool in = v.empty();
	if (!in) in = VP_AND(vp_same_object(v.data(), S), v.size() <= N);
	if (!in) in = vp_readable(v.data(), v.size());
	vp_ensures(in, "precondition: readable text");
	size_t o = v.empty() ? 0 : v.data() - S;
	return o;
}
static std::string_view result(const char* p, size_t n)
{
	return n == 0 && vp_any("where", 1) ? std::string_view() : std::string_view(p, n);
}
extern "C" std::string_view vpc_trim_front(std::string_view v)
{
	size_t o = pre(v), b = vp_any("b", 64);
	vp_requires(b <= v.size());
	if (b < v.size()) vp_requires(!is_sp(v.data()[b]));
	if (VP_AND(K >= o, K - o < b)) vp_requires(is_sp(v.data()[K - o]));
	return result(v.data() + b, v.size() - b);
}
extern "C" std::string_view vpc_trim_back(std::string_view v)
{
	size_t o = pre(v), e = vp_any("e", 64);
	vp_requires(e <= v.size());
	if (e != 0) vp_requires(!is_sp(v.data()[e - 1]));
	if (VP_AND(VP_AND(K >= o, K - o >= e), K - o < v.size())) vp_requires(is_sp(v.data()[K - o]));
	return result(v.data(), e);
}
#endif
VP_HARNESS(trim_front) { text(false); front_spec(utki::trim_front(std::string_view(S, N))); }
VP_HARNESS(trim_back) { text(false); back_spec(utki::trim_back(std::string_view(S, N))); }
VP_HARNESS(trim) { text(false); both_spec(utki::trim(std::string_view(S, N))); }
VP_HARNESS(trim_front_z) { text(true); front_spec(utki::trim_front(S)); }
VP_HARNESS(trim_back_z) { text(true); back_spec(utki::trim_back(S)); }
VP_HARNESS(trim_z) { text(true); both_spec(utki::trim(S)); }
VP_HARNESS(trim_front_s) { text(false); std::string s(S, N); S = s.data(); front_spec(utki::trim_front(s)); }
VP_HARNESS(trim_back_s) { text(false); std::string s(S, N); S = s.data(); back_spec(utki::trim_back(s)); }
VP_HARNESS(trim_s) { text(false); std::string s(S, N); S = s.data(); both_spec(utki::trim(s)); }

static const char* P;
static size_t M;
static bool E; // "the piece of the text is equal to P"
static size_t O; // where in the text
static bool ax_E(uint64_t i)
{
	return VP_OR(VP_OR(!E, i >= M), S[i < M ? O + i : 0] == P[i < M ? i : 0]);
}
VP_HARNESS(starts_with)
{
	text(false);
	M = vp_len("m");
	P = static_cast<const char*>(vp_bytes("p", M, "a"));
	O = 0;
	if (M <= N) {
		E = vp_native() ? memcmp(S, P, M) == 0 : vp_any("E", 1);
		vp_axiom(&ax_E);
		vp_use(K);
		vp_use(0);
		vp_hint_pred(0, !E);
	} else
		E = false;
	bool r = utki::starts_with(std::string_view(S, N), std::string_view(P, M));
	vp_reach("done");
	if (r) {
		vp_ensures(M <= N, "a longer string is not a prefix");
		if (VP_AND(K < M, M <= N)) vp_ensures(S[K] == P[K], "a prefix has the same characters");
	}
	if (E) vp_ensures(r, "every prefix is recognised");
}
VP_HARNESS(ends_with)
{
	text(false);
	M = vp_len("m");
	P = static_cast<const char*>(vp_bytes("p", M, "a"));
	if (M <= N) {
		O = N - M;
		E = vp_native() ? memcmp(S + O, P, M) == 0 : vp_any("E", 1);
		vp_axiom(&ax_E);
		vp_use(K);
		vp_use(0);
		vp_hint_pred(0, !E);
	} else
		E = false;
	bool r = utki::ends_with(std::string_view(S, N), std::string_view(P, M));
	vp_reach("done");
	if (r) {
		vp_ensures(M <= N, "a longer string is not a suffix");
		if (VP_AND(K < M, M <= N)) vp_ensures(S[O + K] == P[K], "a suffix has the same characters");
	}
	if (E) vp_ensures(r, "every suffix is recognised");
}
VP_HARNESS(make_indentation)
{
	unsigned depth = unsigned(vp_any("depth", 32)), size = unsigned(vp_any("size", 32));
	if (vp_search() && size_t(depth) * size_t(size ? size : 1) > 300000) {
		depth %= 70;
		size %= 70;
	}
	size_t k = vp_ghost("k");
	std::string r = utki::make_indentation(depth, size);
	size_t n = size == 0 ? size_t(depth) : size_t(depth) * size_t(size);
	vp_reach("done");
	vp_ensures(r.size() == n, "length of the indentation");
	if (k < r.size()) vp_ensures(r[k] == (size == 0 ? '\t' : ' '), "characters of the indentation");
}
