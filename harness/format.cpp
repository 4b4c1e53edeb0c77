// formatted strings and strings made of buffers
#include "vp.hpp"
#include <cstdarg>
#include <array>
#include <climits>
#include <stdexcept>
#include <utki/string.hpp>
static const char* T; // the formatted text
static size_t N, K, Z;
static const char* F; // the format
static bool FAIL; // the formatting function fails
#ifdef VP_PROOF
// vsnprintf() as the C standard specifies it: the formatted text depends on the format and the arguments,
// as much of it as fits is written, with a terminator, the length of all of it is returned;
// arguments are taken from the list, which then can not be used again
extern "C" int vpc_vsnprintf(char* b, size_t size, const char* format, void* args)
{
	vp_ensures(format == F, "precondition: the format given");
	vp_ensures(*static_cast<uint64_t*>(args) == 1, "precondition: no argument has been taken from the list before");
	*static_cast<uint64_t*>(args) = 0;
	if (FAIL) return -1;
	if (size != 0) {
		size_t m = N < size ? N : size - 1;
		memcpy(b, T, m);
		b[m] = 0;
	}
	return int(N);
}
#endif
static void any_text()
{
	N = vp_len("n");
	if (vp_search()) {
		const size_t around[] = {0, 0, 1020, 2044, 4092};
		N = around[vp_any("around", 8) % 5] + N % 9;
	}
	vp_requires(N <= size_t(INT_MAX));
	char* t = static_cast<char*>(vp_buf("t", N + 1));
	if (vp_native()) {
		Z = N; // at most one NUL in the text
		for (size_t i = 0; i != N; ++i)
			if (t[i] == 0) {
				if (Z == N && i % 3 == 0) Z = i;
				else t[i] = '%';
			}
		t[N] = 0;
	}
	T = t;
	K = vp_ghost("k");
	if (vp_search()) K = N != 0 ? N - 1 - K % N : 0;
	FAIL = false;
}
static void is_text(const std::string& r)
{
	vp_reach("done");
	vp_ensures(r.size() == N, "exactly as many characters as the format produces");
	if (VP_AND(r.size() == N, K < N)) vp_ensures(r[K] == T[K], "exactly the characters the format produces");
	if (vp_native() && r.size() == N) vp_ensures(memcmp(r.data(), T, N) == 0, "exactly the characters the format produces");
}
VP_HARNESS(format)
{
	any_text();
	F = "%s";
	if (vp_native() && Z != N) {
		is_text(utki::make_string("%s%c%s", T, 0, T + Z + 1));
		return;
	}
	is_text(utki::make_string(F, T));
}
static std::string by_list(const char* f, ...)
{
	va_list args;
	va_start(args, f);
	auto r = utki::make_string_va_list(f, args);
	va_end(args);
	return r;
}
VP_HARNESS(format_list)
{
	any_text();
	F = "%.*s%s"; // arguments of different kinds
	if (vp_native() && Z != N) {
		is_text(by_list("%.*s%c%s", int(Z), T, 0, T + Z + 1));
		return;
	}
	is_text(by_list(F, int(N / 3), T, T + N / 3));
}
VP_HARNESS(format_fails)
{
	any_text();
	F = "%s%ls";
	FAIL = true;
	static const wchar_t bad[] = {wchar_t(0xd800), 0};
	try {
		utki::make_string(F, T, bad);
		vp_ensures(false, "a failure is reported");
	} catch (std::logic_error&) {
		vp_reach("failure");
	}
}
VP_HARNESS(from_chars)
{
	any_text();
	is_text(utki::make_string(utki::make_span(T, N)));
}
VP_HARNESS(from_bytes)
{
	any_text();
	is_text(utki::make_string(utki::make_span(reinterpret_cast<const uint8_t*>(T), N)));
}
VP_HARNESS(view_of_chars)
{
	any_text();
	auto v = utki::make_string_view(utki::make_span(T, N));
	vp_reach("done");
	vp_ensures(v.size() == N && (N == 0 || v.data() == T), "the same characters");
}
VP_HARNESS(view_of_bytes)
{
	any_text();
	auto v = utki::make_string_view(utki::make_span(reinterpret_cast<const uint8_t*>(T), N));
	vp_reach("done");
	vp_ensures(v.size() == N && (N == 0 || v.data() == T), "the same characters");
}
VP_HARNESS(from_char_vector)
{
	any_text();
	std::vector<char> v(T, T + N);
	is_text(utki::make_string(v));
}
VP_HARNESS(from_byte_vector)
{
	any_text();
	std::vector<uint8_t> v(reinterpret_cast<const uint8_t*>(T), reinterpret_cast<const uint8_t*>(T) + N);
	is_text(utki::make_string(v));
}
template <class E, size_t n>
static void array()
{
	std::array<E, n> a;
	for (size_t i = 0; i != n; ++i) a[i] = vp_val<E>("e");
	auto r = utki::make_string(a);
	vp_reach("done");
	vp_ensures(r.size() == n, "as many characters as elements");
	if (r.size() == n)
		for (size_t i = 0; i != n; ++i) vp_ensures(r[i] == char(a[i]), "exactly the characters of the array");
}
VP_HARNESS(from_char_array_1) { array<char, 1>(); }
VP_HARNESS(from_char_array_5) { array<char, 5>(); }
VP_HARNESS(from_byte_array_1) { array<uint8_t, 1>(); }
VP_HARNESS(from_byte_array_5) { array<uint8_t, 5>(); }
