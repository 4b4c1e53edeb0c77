// splitting strings at delimiters and at whitespace
#include "vp.hpp"
#include <cctype>
#include <utki/string.hpp>
static const char* S;
static size_t N, K;
static char D;
static void text(bool z)
{
	N = vp_len("n");
	D = vp_val<char>("d");
	if (vp_search()) D = ",a\0\xff"[unsigned(D) % 4];
	S = static_cast<const char*>(vp_bytes("s", N + z, "a,\xff b"));
	K = vp_ghost("k");
}
static uint64_t flat(uint64_t k) { return S[k] == D ? 0x100 : uint64_t(static_cast<unsigned char>(S[k])); }
static void split_spec(const std::vector<std::string>& r)
{
	vp_reach("done");
	vp_ensures(vp_flat_len(r) == N + 1, "parts and delimiters make up the whole string");
	if (VP_AND(K < N, vp_flat_len(r) == N + 1)) vp_ensures(vp_flat_at(r, K) == flat(K), "cuts exactly at the delimiters and keeps all other characters");
	if (vp_flat_len(r) == N + 1) vp_ensures(vp_flat_at(r, N) == 0x100, "the last part ends at the end of the string");
}
static void hints()
{
	if (K < N) vp_hint_elem(K, flat(K), 2);
	if (K < N) vp_hint_pred(K, S[K] != D);
}
VP_HARNESS(split)
{
	text(false);
	hints();
	split_spec(utki::split(std::string_view(S, N), D));
}
VP_HARNESS(split_s)
{
	text(false);
	std::string s(S, N);
	hints();
	split_spec(utki::split(s, D));
}
static bool ax_Z(uint64_t i) { return VP_OR(i >= N, S[i < N ? i : 0] != 0); }
VP_HARNESS(split_z)
{
	text(true);
	if (vp_native()) {
		const_cast<char*>(S)[N] = 0;
		N = strlen(S);
	} else {
		vp_requires(S[N] == 0);
		vp_axiom(&ax_Z);
	}
	hints();
	split_spec(utki::split(S, D));
}

// Whitespace.  After i characters have been read, L(i) characters of the flattened result are final (every
// part followed by a separator) and B(i) more belong to the part that is not finished yet.
static bool sp(char c)
{
	return VP_OR(VP_OR(VP_OR(c == ' ', c == '\n'), VP_OR(c == '\t', c == '\r')), VP_OR(c == '\v', c == '\f'));
}
static bool sp_at(uint64_t i) { return sp(S[i < N ? i : 0]); }
#ifdef VP_PROOF
static uint64_t L(uint64_t i) { return vp_fun("L", i); }
static uint64_t B(uint64_t i) { return vp_fun("B", i); }
#else
static std::vector<uint64_t> Lv, Bv;
static uint64_t L(uint64_t i) { return Lv[i]; }
static uint64_t B(uint64_t i) { return Bv[i]; }
#endif
static uint64_t nextL(uint64_t i) { return sp_at(i) ? (B(i) != 0 ? L(i) + B(i) + 1 : L(i)) : L(i); }
static uint64_t nextB(uint64_t i) { return sp_at(i) ? 0 : B(i) + 1; }
static bool ax_def(uint64_t i)
{
	return i < N ? VP_AND(L(i + 1) == nextL(i), B(i + 1) == nextB(i)) : true;
}
static bool ax_bnd(uint64_t i) { return i <= N ? VP_AND(L(i) + B(i) <= 2 * i, B(i) <= i) : true; }
// what holds for positions a <= c (by induction over c: the entry ws_lemma)
static bool P(uint64_t a, uint64_t c)
{
	bool mono = VP_AND(L(a) <= L(c), L(a) + B(a) <= L(c) + B(c));
	bool run = c == a ? true : sp_at(a) ? true : VP_OR(VP_AND(L(c) == L(a), B(c) > B(a)), L(c) > L(a) + B(a));
	return VP_AND(mono, run);
}
static uint64_t K1; // the place behind K
static bool ax_P(uint64_t i)
{
	return i > N ? true : VP_AND(i < K ? P(i, K) : P(K, i), i < K1 ? true : P(K1, i));
}
static uint64_t fL(uint64_t t) { return L(t); }
static uint64_t fB(uint64_t t) { return B(t); }
static uint64_t fBegin(uint64_t t) { return t - B(t); }
VP_HARNESS(ws_lemma)
{
	text(false);
	size_t a = vp_ghost("a"), c = vp_ghost("c");
	if (vp_native()) return;
	vp_requires(a <= c && c < N);
	vp_axiom(&ax_def);
	vp_requires(VP_AND(L(0) == 0, B(0) == 0));
	vp_ensures(ax_bnd(0), "bound at the begin");
	vp_use(a);
	vp_use(c);
	vp_requires(VP_AND(ax_bnd(a), ax_bnd(c)));
	vp_ensures(P(a, a), "begin of the induction");
	vp_requires(P(a, c));
	vp_ensures(P(a, c + 1), "step of the induction");
	vp_ensures(ax_bnd(c + 1), "step of the bound");
	vp_reach("done");
}
VP_HARNESS(split_ws)
{
	text(false);
	K1 = K + 1;
	if (vp_native()) {
#ifndef VP_PROOF
		Lv.assign(N + 2, 0);
		Bv.assign(N + 2, 0);
		for (size_t i = 0; i != N; ++i) {
			Lv[i + 1] = nextL(i);
			Bv[i + 1] = nextB(i);
		}
#endif
	} else {
		vp_requires(VP_AND(L(0) == 0, B(0) == 0));
		vp_axiom(&ax_def);
		vp_axiom(&ax_bnd);
		vp_use(N);
		if (K < N) {
			vp_use(K);
			vp_use(K1);
			vp_axiom(&ax_P);
			uint64_t at = L(K) + B(K);
			if (!sp_at(K)) {
				vp_hint_elem(at, static_cast<unsigned char>(S[K]), 2);
				vp_hint_elem(B(K), static_cast<unsigned char>(S[K]), 1);
				vp_hint_val(L(K));
			} else if (B(K) != 0)
				vp_hint_elem(at, 0x100, 2);
		}
		vp_hint_fn(&fL);
		vp_hint_fn(&fB);
		vp_hint_fn(&fBegin);
	}
	auto r = utki::split(std::string_view(S, N));
	vp_reach("done");
	size_t end = B(N) != 0 ? L(N) + B(N) + 1 : L(N);
	vp_ensures(vp_flat_len(r) == end, "exactly the characters that are not whitespace, one separator after each run");
	if (vp_flat_len(r) != end) return;
	if (K < N) {
		uint64_t at = L(K) + B(K);
		if (!sp_at(K)) vp_ensures(vp_flat_at(r, at) == uint64_t(static_cast<unsigned char>(S[K])), "each character of a run in order");
		else if (B(K) != 0) vp_ensures(vp_flat_at(r, at) == 0x100, "a part ends where a run ends");
	}
	if (B(N) != 0) vp_ensures(vp_flat_at(r, end - 1) == 0x100, "the last part ends with the last run");
}
