// string_parser: every operation returns and leaves exactly the text specified.
#include "vp.hpp"
#include <utki/string.hpp>
#include <stdexcept>

static const char ALPHA[] = "a ,\n\t\r\v\f1x\xff";
static bool is_sp(char c)
{
	return VP_OR(VP_OR(VP_OR(c == ' ', c == '\n'), VP_OR(c == '\t', c == '\r')), VP_OR(c == '\v', c == '\f'));
}
static const char* S;
static size_t N;
static size_t K; // arbitrary position
static void text()
{
	N = vp_len("n");
	S = static_cast<const char*>(vp_bytes("s", N, ALPHA));
	K = vp_ghost("k");
}
// what is left is exactly the text from position pos on
static void left(const utki::string_parser& p, size_t pos)
{
	vp_ensures(p.size() == N - pos, "number of characters left");
	vp_ensures(p.empty() == (pos == N), "empty exactly when nothing is left");
	if (pos != N) vp_ensures(p.get_view().data() == S + pos && p.get_view().size() == N - pos, "the text left is the text that follows");
}
static void piece(std::string_view r, size_t len)
{
	vp_ensures(r.size() == len, "length of the text read");
	if (len != 0) vp_ensures(r.data() == S, "the text read is the front of the text");
}
// position at which the parser stands
static size_t pos_of(const utki::string_parser& p)
{
	return N - p.size();
}
VP_HARNESS(is_space)
{
	char c = vp_val<char>("c");
	vp_ensures(utki::string_parser::is_space(c) == is_sp(c), "whitespace characters");
}
VP_HARNESS(skip_whitespaces)
{
	text();
	bool h = K < N ? is_sp(S[K]) : false;
	vp_hint_pred(K, h);
	utki::string_parser p(std::string_view(S, N));
	p.skip_whitespaces();
	size_t e = pos_of(p);
	vp_reach("done");
	vp_ensures(e <= N, "stays within the text");
	if (e > N) return;
	left(p, e);
	if (K < e) vp_ensures(is_sp(S[K]), "only whitespace is skipped");
	if (e < N) vp_ensures(!is_sp(S[e]), "all whitespace is skipped");
}
static size_t W; // first position which is not whitespace
static bool ax_W(uint64_t i)
{
	return i < W && i < N ? is_sp(S[i]) : true;
}
VP_HARNESS(skip_whitespaces_and_comma)
{
	text();
	size_t J = vp_ghost("j"); // another arbitrary position
	vp_requires(K < J);
	bool ck = K < N ? S[K] == ',' : false, cj = J < N ? S[J] == ',' : false;
	bool sk = K < N ? is_sp(S[K]) : false;
	W = vp_ghost("w");
	if (vp_native())
		for (W = 0; W != N && is_sp(S[W]); ++W) {}
	vp_requires(W <= N);
	vp_requires(W < N ? !is_sp(S[W]) : true);
	vp_axiom(&ax_W);
	vp_hint_val(W);
	vp_hint_pred(W, W < N ? S[W] == ',' : true);
	vp_hint_pred(K, VP_OR(ck, sk));
	vp_hint_pred(K, !ck); // until a comma was skipped
	vp_hint_pred(J, !VP_AND(ck, cj));
	utki::string_parser p(std::string_view(S, N));
	p.skip_whitespaces_and_comma();
	size_t e = pos_of(p);
	vp_reach("done");
	vp_ensures(e <= N, "stays within the text");
	if (e > N) return;
	left(p, e);
	if (K < e) vp_ensures(VP_OR(sk, ck), "only whitespace and a comma is skipped");
	if (J < e) vp_ensures(!VP_AND(ck, cj), "at most one comma is skipped");
	if (e < N) {
		vp_reach("stops before the end");
		vp_ensures(!is_sp(S[e]), "all whitespace is skipped");
	}
	vp_ensures(e >= W, "all whitespace is skipped");
	if (W < N) vp_ensures((e > W) == (S[W] == ','), "the first comma is skipped, and nothing else");
}
VP_HARNESS(skip_inclusive_until)
{
	text();
	char c = vp_val<char>("c");
	if (vp_search()) c = ALPHA[uint8_t(c) % 11];
	bool h = K < N ? S[K] != c : true;
	vp_hint_pred(K, h);
	utki::string_parser p(std::string_view(S, N));
	p.skip_inclusive_until(c);
	size_t e = pos_of(p);
	vp_reach("done");
	vp_ensures(e <= N, "stays within the text");
	if (e > N) return;
	left(p, e);
	if (e == N) {
		// either not found or found at the very last place
		if (N != 0 && K < N - 1) vp_ensures(S[K] != c, "stops behind the first occurrence");
	} else {
		vp_ensures(e != 0 && S[e - 1] == c, "stops behind an occurrence");
		if (K + 1 < e) vp_ensures(S[K] != c, "stops behind the first occurrence");
	}
}
VP_HARNESS(skip_inclusive_until_one_of)
{
	text();
	size_t m = vp_len("m");
	const char* cs = static_cast<const char*>(vp_bytes("cs", m, ALPHA));
	size_t J = vp_ghost("j"); // arbitrary element of the set
	bool h = VP_AND(K < N, J < m) ? S[K] != cs[J] : true;
	vp_hint_pred(K, h);
	if (J < m) vp_hint_elem(J, uint8_t(cs[J]), 1);
	utki::string_parser p(std::string_view(S, N));
	char r = p.skip_inclusive_until_one_of(utki::make_span(cs, m));
	size_t e = pos_of(p);
	vp_reach("done");
	vp_ensures(e <= N, "stays within the text");
	if (e > N) return;
	left(p, e);
	if (e == 0) vp_ensures(N == 0 && r == 0, "something is skipped unless there is nothing");
	else {
		vp_ensures(VP_OR(r == S[e - 1], VP_AND(e == N, r == 0)), "returns the character found");
		if (e < N) vp_ensures(r == S[e - 1], "returns the character found when it stops early");
	}
	if (VP_AND(K + 1 < e, J < m)) vp_ensures(S[K] != cs[J], "stops behind the first occurrence");
	if (VP_AND(VP_AND(r == 0, e == N), VP_AND(K < N, J < m)))
		vp_ensures(VP_OR(S[K] != cs[J], VP_AND(K == N - 1, S[K] == 0)), "no character found means that none of them occurs");
	if (vp_native() && r != 0) vp_ensures(std::string_view(cs, m).find(r) != std::string_view::npos, "the character returned is one of those given");
}
// 0: read_word, 1: read_word_until, 2: read_chars_until
static void until(int what)
{
	text();
	char c = what == 0 ? ' ' : vp_val<char>("c");
	if (vp_search() && what != 0) c = ALPHA[uint8_t(c) % 11];
	auto stop = [&](char x) {
		return VP_OR(VP_AND(what != 2, is_sp(x)), VP_AND(what != 0, x == c));
	};
	bool h = K < N ? !stop(S[K]) : true;
	vp_hint_pred(K, h);
	utki::string_parser p(std::string_view(S, N));
	auto r = what == 0 ? p.read_word() : what == 1 ? p.read_word_until(c) : p.read_chars_until(c);
	size_t e = pos_of(p);
	vp_reach("done");
	vp_ensures(e <= N, "stays within the text");
	if (e > N) return;
	left(p, e);
	piece(r, e);
	if (K < e) vp_ensures(!stop(S[K]), "reads up to the first character to stop at");
	if (e < N) vp_ensures(stop(S[e]), "stops only at such a character");
}
VP_HARNESS(read_word) { until(0); }
VP_HARNESS(read_word_until) { until(1); }
VP_HARNESS(read_chars_until) { until(2); }
VP_HARNESS(read_char)
{
	text();
	utki::string_parser p(std::string_view(S, N));
	bool thrown = false;
	char c = 0;
	try {
		c = p.read_char();
	} catch (std::invalid_argument&) {
		thrown = true;
	}
	vp_reach("done");
	vp_ensures(thrown == (N == 0), "reading a character throws exactly when there is none");
	if (N != 0 && !thrown) vp_ensures(c == S[0], "the first character is read");
	left(p, N == 0 ? 0 : 1);
}
VP_HARNESS(peek_char)
{
	text();
	size_t i = vp_any("i", 64);
	if (vp_search() && (i & 1)) i = i / 2 % (N + 2);
	const utki::string_parser p(std::string_view(S, N));
	bool t0 = false, ti = false;
	char c0 = 0, ci = 0;
	try {
		c0 = p.peek_char();
	} catch (std::invalid_argument&) {
		t0 = true;
	}
	try {
		ci = p.peek_char(i);
	} catch (std::invalid_argument&) {
		ti = true;
	}
	vp_reach("done");
	vp_ensures(t0 == (N == 0), "peeking throws exactly when there is no character");
	vp_ensures(ti == (i >= N), "peeking at an index throws exactly when there is no such character");
	if (N != 0 && !t0) vp_ensures(c0 == S[0], "the first character is peeked");
	if (i < N && !ti) vp_ensures(ci == S[i], "the character at the index is peeked");
	left(p, 0);
}
VP_HARNESS(read_chars)
{
	text();
	size_t n = vp_any("count", 64);
	if (vp_search() && (n & 1)) n = n / 2 % (N + 2);
	utki::string_parser p(std::string_view(S, N));
	auto r = p.read_chars(n);
	vp_reach("done");
	size_t e = n < N ? n : N;
	piece(r, e);
	left(p, e);
}
