// wrapping words into lines
#include "vp.hpp"
#include <utki/string.hpp>
static const char* S;
static size_t N, K;
static unsigned W;
static size_t END; // end of the last line
static size_t LEN; // its length
static size_t LINES;
static bool gap(char c) { return VP_OR(c == ' ', c == '\n'); }
static bool is(size_t i, char c) { return i < N ? S[i] == c : false; }
// every line is put behind the lines there are
extern "C" void* vpc_line(size_t b, size_t n)
{
	vp_ensures(b <= N && n <= N - b, "lines are pieces of the text");
	vp_ensures(b >= END, "lines are in order and do not overlap");
	if (W != 0) {
		vp_ensures(n <= W, "no line is longer than the width");
		if (VP_AND(VP_AND(K >= END, K < b), K < N)) vp_ensures(gap(S[K]), "only spaces and line breaks are left out between lines");
		if (VP_AND(VP_AND(K >= b, K - b < n), K < N)) vp_ensures(S[K] != '\n', "no line has a line break in it");
		vp_ensures(VP_OR(VP_OR(LINES == 0, b > END), LEN == W), "a line is continued right away on the next one only when it is full");
	}
	END = b + n;
	LEN = n;
	++LINES;
	return nullptr;
}
// what is known about positions of the text in the loop
static bool spaces_from(uint64_t x, uint64_t y) { return VP_IMPLIES(VP_AND(VP_AND(is(x, ' '), x < y), VP_AND(x <= K, K < y)), is(K, ' ')); }
static bool within(uint64_t x, uint64_t y) { return y - x <= W; }
static bool ordered_if(uint64_t f, uint64_t x, uint64_t y) { return VP_OR(f == 0, x < y); }
static bool spaces_only(uint64_t f, uint64_t x, uint64_t y) { return VP_IMPLIES(VP_AND(f == 0, is(x, ' ')), x <= y); }
static bool word_begin(uint64_t f, uint64_t x) { return VP_IMPLIES(VP_AND(f != 0, !is(x, ' ')), VP_AND(x != 0, is(x - 1, ' '))); }
static bool last_space(uint64_t x, uint64_t y) { return VP_IMPLIES(VP_AND(is(x, ' '), x < y), VP_AND(y != 0, is(y - 1, ' '))); }
static bool word_after(uint64_t x, uint64_t y) { return VP_OR(is(x, ' '), y <= x); }
static bool after_lines(uint64_t x) { return END <= x; }
static bool gap_before(uint64_t x) { return VP_IMPLIES(VP_AND(K >= END, VP_AND(K < x, K < N)), VP_OR(is(K, ' '), is(K, '\n'))); }
static bool full(uint64_t x) { return VP_OR(VP_OR(LINES == 0, END < x), LEN == W); }
#ifdef VP_PROOF
static void wrap()
{
	END = 0;
	LEN = 0;
	LINES = 0;
	vp_hint_pred(K, !is(K, '\n'));
	vp_hint_val(W);
	vp_hint_inv((void*)&spaces_from, "pp");
	vp_hint_inv((void*)&within, "pp");
	vp_hint_inv((void*)&ordered_if, "fpp");
	vp_hint_inv((void*)&spaces_only, "fpp");
	vp_hint_inv((void*)&word_begin, "fp");
	vp_hint_inv((void*)&last_space, "pp");
	vp_hint_inv((void*)&word_after, "pp");
	vp_hint_inv((void*)&after_lines, "p");
	vp_hint_inv((void*)&gap_before, "p");
	vp_hint_inv((void*)&full, "p");
	auto r = utki::word_wrap(std::string_view(S, N), W);
	vp_ensures(vp_str_count(r) == LINES, "all lines are accounted for");
}
#else
static void wrap()
{
	auto r = utki::word_wrap(std::string_view(S, N), W);
	LINES = END = LEN = 0;
	if (W == 0) {
		vp_ensures(r.size() == 1 && r[0] == std::string(S, N), "width 0 gives the text as a single line");
		LINES = 1;
		END = N;
		return;
	}
	// a placement of the lines in the text: states (end of the line before, that line full)
	std::vector<bool> ok(N + 1, false);
	ok[0] = true;
	bool first = true, prev_full = false;
	for (auto& l : r) {
		vp_ensures(l.size() <= W, "no line is longer than the width");
		vp_ensures(l.find('\n') == std::string::npos, "no line has a line break in it");
		std::vector<bool> next(N + 1, false);
		for (size_t e = 0; e <= N; ++e) {
			if (!ok[e]) continue;
			for (size_t b = e; b + l.size() <= N; ++b) {
				if (b > e && !gap(S[b - 1])) break;
				if ((first || b > e || prev_full) && std::string_view(S + b, l.size()) == l) next[b + l.size()] = true;
			}
		}
		ok = next;
		first = false;
		prev_full = l.size() == W;
		++LINES;
	}
	bool fits = false;
	for (size_t e = N + 1; e-- > 0;) {
		if (ok[e]) fits = true;
		if (e == 0 || !gap(S[e - 1])) break;
	}
	vp_ensures(fits, "lines are pieces of the text in order and only spaces and line breaks are left out");
	END = N;
}
#endif
static void text()
{
	N = vp_len("n");
	S = static_cast<const char*>(vp_bytes("s", N, "a  \nb"));
	K = vp_ghost("k");
}
VP_HARNESS(word_wrap)
{
	text();
	W = vp_val<unsigned>("width");
	if (vp_search()) W %= 12;
	vp_requires(W != 0);
	wrap();
	vp_reach("done");
	if (VP_AND(K >= END, K < N)) vp_ensures(gap(S[K]), "only spaces and line breaks are left out after the last line");
}
VP_HARNESS(word_wrap_0)
{
	text();
	W = 0;
	wrap();
	vp_reach("done");
	vp_ensures(LINES == 1 && END == N && (vp_native() || LEN == N), "width 0 gives the text as a single line");
}
