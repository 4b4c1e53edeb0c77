// Contract language of the harnesses.  One text, two readings:
//  - proof  (VP_PROOF): the functions below are external symbols that the VC generator gives
//    meaning to; every path of the harness and of the code it calls becomes proof obligations.
//  - native: the functions are implemented by native.cpp; the same contracts are executed on
//    concrete inputs (replay of a counterexample, search for a failing input).
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>

extern "C" {
// arbitrary value of `bits` bits
uint64_t vp_any(const char* name, unsigned bits) noexcept;
// arbitrary length/count (proof: any value below 2^56; native: mostly small)
size_t vp_len(const char* name) noexcept;
// ghost (specification-only) value: arbitrary; native: enumerated 0,1,2,...  The code under
// contract never sees it; a contract proved for it is proved for all its values.
uint64_t vp_ghost(const char* name) noexcept;
// fresh object of exactly n bytes with arbitrary content; `alphabet` only biases native search
const void* vp_bytes(const char* name, size_t n, const char* alphabet) noexcept; // read-only
void* vp_buf(const char* name, size_t n) noexcept; // writable
void vp_requires(bool cond) noexcept; // assumed (checked: satisfiable)
void vp_ensures(bool cond, const char* label) noexcept; // obligation
void vp_aborts() noexcept; // from here on this run is specified to abort (and must not get further than that)
void vp_reach(const char* label) noexcept; // must be reachable (vacuity check)
// hints: candidate invariants, never assumed, only tried.
void vp_hint_pred(uint64_t k, bool h) noexcept; // "k < x  =>  h" and "k >= x => h" for loop variables x
void vp_hint_elem(uint64_t idx, uint64_t val, unsigned size) noexcept; // "idx < size(V) => V[idx] == val"
void vp_hint_val(uint64_t v) noexcept; // value used as bound in candidate invariants
void vp_hint_fn(uint64_t (*f)(uint64_t)) noexcept; // "x == f(t)", "x == f(t+1)" for loop variables x, iteration count t
// candidate invariant over loop variables: one argument per letter of `kinds` (p: offset of a pointer, f: flag, v: number)
void vp_hint_inv(const void* f, const char* kinds) noexcept;
// ghost function: uninterpreted in the proof, only constrained by vp_axiom (native: not called)
uint64_t vp_fun(const char* name, uint64_t i) noexcept;
// definition of ghost functions: a(i) holds for all i; instantiated at 0, 1, the iteration counts of
// loops and explicit vp_use(i).  native: nothing
void vp_axiom(bool (*a)(uint64_t)) noexcept;
void vp_use(uint64_t i) noexcept;
bool vp_readable(const void* p, size_t n) noexcept; // proof: [p,p+n) inside a live object; native: true
bool vp_same_object(const void* a, const void* b) noexcept; // proof: same object; native: true
bool vp_native() noexcept; // false in the proof
bool vp_true() noexcept; // opaque true
#ifndef VP_PROOF
bool vp_search() noexcept; // native search: inputs may be narrowed (not those of a counterexample of the verifier)
#endif
}
#ifdef VP_PROOF
static inline bool vp_search() noexcept { return false; }
#endif

// a vector of strings read as one sequence: the characters of each string followed by 0x100
#ifdef VP_PROOF
size_t vp_flat_len(const std::vector<std::string>& v) noexcept;
uint16_t vp_flat_at(const std::vector<std::string>& v, size_t i) noexcept;
size_t vp_str_count(const std::vector<std::string>& v) noexcept;
size_t vp_str_len(const std::vector<std::string>& v, size_t i) noexcept;
#else
inline size_t vp_flat_len(const std::vector<std::string>& v)
{
	size_t n = v.size();
	for (auto& s : v) n += s.size();
	return n;
}
inline uint16_t vp_flat_at(const std::vector<std::string>& v, size_t i)
{
	for (auto& s : v) {
		if (i < s.size()) return uint16_t(static_cast<unsigned char>(s[i]));
		if (i == s.size()) return 0x100;
		i -= s.size() + 1;
	}
	return 0xffff;
}
inline size_t vp_str_count(const std::vector<std::string>& v) { return v.size(); }
inline size_t vp_str_len(const std::vector<std::string>& v, size_t i) { return v[i].size(); }
#endif
#ifdef VP_PROOF
#	define VP_HARNESS(n) extern "C" void vph_##n()
#else
void vp_register(const char* name, void (*f)());
#	define VP_HARNESS(n) \
		extern "C" void vph_##n(); \
		static const bool vp_reg_##n = (vp_register(#n, &vph_##n), true); \
		extern "C" void vph_##n()
#endif

template <class T>
T vp_val(const char* name)
{
	return T(vp_any(name, sizeof(T) * 8));
}
inline std::string_view vp_string(const char* name, size_t n, const char* alphabet = "")
{
	return std::string_view(static_cast<const char*>(vp_bytes(name, n, alphabet)), n);
}
// logical connectives that do not branch
#define VP_AND(a, b) (bool(int(bool(a)) & int(bool(b))))
#define VP_OR(a, b) (bool(int(bool(a)) | int(bool(b))))
#define VP_IMPLIES(a, b) (bool(int(!bool(a)) | int(bool(b))))
