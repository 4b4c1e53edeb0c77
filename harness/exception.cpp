// descriptions of exceptions
#include "vp.hpp"
#include <cxxabi.h>
#include <stdexcept>
#include <utki/exception.hpp>
static const unsigned DEEP = 4;
using sv = std::string_view;
// the exceptions: standard, of an unknown type, derived from utki::exception
struct fail : std::exception {
	const char* m;
	explicit fail(const char* m) : m(m) {}
	const char* what() const noexcept override { return m; }
};
struct foreign {};
struct ufail : utki::exception {
	const char* m;
	explicit ufail(const char* m) : m(m) {}
	const char* what() const noexcept override { return m; }
};
enum kind { FAIL, FOREIGN, UFAIL, STACKED, KINDS };
using nfail = std::_Nested_exception<fail>;
using nforeign = std::_Nested_exception<foreign>;
using nufail = std::_Nested_exception<ufail>;
using sfail = utki::stacked_exception<fail>;
// ---- what is given
static sv IND; // indentation
static sv M[DEEP]; // messages
static size_t G;
static void messages(unsigned n)
{
	for (unsigned i = 0; i != n; ++i) {
		size_t l = vp_len("ml");
		vp_requires(l < (size_t(1) << 40));
#ifdef VP_PROOF
		auto p = static_cast<const char*>(vp_bytes("msg", l + 1, ""));
		vp_requires(p[l] == 0);
		M[i] = sv(p, l);
#else
		static std::string keep[DEEP];
		keep[i].assign(static_cast<const char*>(vp_bytes("msg", l, "ab: -\1")), l);
		for (auto& c : keep[i])
			if (c == 0) c = '0';
		M[i] = keep[i];
#endif
	}
}
// ---- names of types
#ifdef VP_PROOF
static sv N[8];
static void names()
{
	for (auto& n : N) n = vp_string("name", vp_len("nl"));
}
static sv name(const std::type_info& t)
{
	const std::type_info* p = &t;
	return p == &typeid(fail) ? N[0] : p == &typeid(foreign) ? N[1] : p == &typeid(ufail) ? N[2] : p == &typeid(nfail) ? N[3] : p == &typeid(nforeign) ? N[4] : p == &typeid(nufail) ? N[5] : p == &typeid(sfail) ? N[6] : N[7];
}
extern "C" std::string vpc_demangle(const std::type_info& t)
{
	auto n = name(t);
	return std::string(n.data(), n.size());
}
#else
static void names() {}
static sv name(const std::type_info& t)
{
	static std::vector<std::pair<const std::type_info*, std::string>*> seen;
	for (auto p : seen)
		if (*p->first == t) return p->second;
	int status;
	char* d = abi::__cxa_demangle(t.name(), nullptr, nullptr, &status);
	seen.push_back(new std::pair<const std::type_info*, std::string>(&t, d));
	free(d);
	return seen.back()->second;
}
#endif
static void given(unsigned n)
{
	IND = vp_string("ind", vp_len("il"), "- ");
	G = vp_ghost("g");
	messages(n);
	names();
	vp_requires(IND.size() < (size_t(1) << 40));
#ifdef VP_PROOF
	for (auto& x : N) vp_requires(x.size() < (size_t(1) << 40));
#endif
}
// ---- the description expected, as a sequence of pieces
struct text {
	sv p[32];
	unsigned n = 0;
	void add(sv s) { p[n++] = s; }
};
static bool piece(const char* r, size_t at, const char* p, size_t n) { return G < n ? r[at + G] == p[G] : true; }
static void check(const char* r, size_t size, const text& t)
{
	size_t total = 0;
	for (unsigned k = 0; k != t.n; ++k) total += t.p[k].size();
	vp_reach("described");
	vp_ensures(size == total, "length of the description");
	if (size != total) return;
	size_t at = 0;
	for (unsigned k = 0; k != t.n; ++k) {
		if (vp_native())
			vp_ensures(sv(r + at, t.p[k].size()) == t.p[k], "text of the description");
		else
			vp_ensures(piece(r, at, t.p[k].data(), t.p[k].size()), "text of the description");
		at += t.p[k].size();
	}
}
static const std::type_info& type_of(kind k, bool nested)
{
	switch (k) {
		case FAIL: return nested ? typeid(nfail) : typeid(fail);
		case FOREIGN: return nested ? typeid(nforeign) : typeid(foreign);
		case UFAIL: return nested ? typeid(nufail) : typeid(ufail);
		default: return typeid(sfail);
	}
}
static kind C[DEEP]; // the chain, outermost first
static unsigned LEN;
static void add_stack(text& t, sv ind, unsigned i);
// exception i and those it was nested around
static void add_chain(text& t, sv ind, unsigned i)
{
	bool last = i + 1 == LEN;
	t.add(ind);
	t.add(name(type_of(C[i], !last)));
	if (C[i] == STACKED) { // as a standard exception: its message is the stack
		t.add(": exception stack:\n");
		add_stack(t, "- ", i);
		return;
	}
	if (C[i] != FOREIGN) {
		t.add(": ");
		t.add(M[i]);
	}
	if (last) return;
	t.add("\n");
	add_chain(t, ind, i + 1);
}
static void add_stack(text& t, sv ind, unsigned i)
{
	t.add(ind);
	t.add(name(typeid(fail)));
	t.add(": ");
	t.add(M[i]);
	t.add("\n");
	if (C[i + 1] == STACKED) add_stack(t, ind, i + 1);
	else add_chain(t, ind, i + 1);
}
// throws exception i nested around the following ones
static void raise(unsigned i)
{
	if (i + 1 == LEN) switch (C[i]) {
			case FAIL: throw fail(M[i].data());
			case FOREIGN: throw foreign();
			default: throw ufail(M[i].data());
		}
	try {
		raise(i + 1);
	} catch (...) {
		switch (C[i]) {
			case FAIL: std::throw_with_nested(fail(M[i].data()));
			case FOREIGN: std::throw_with_nested(foreign());
			case UFAIL: std::throw_with_nested(ufail(M[i].data()));
			default: utki::throw_with_nested(fail(M[i].data()));
		}
	}
}
static unsigned pin(unsigned x, unsigned n)
{
	for (unsigned i = 0; i != n; ++i)
		if (x == i) return i;
	return n;
}
static unsigned choose(const char* name, unsigned n)
{
	unsigned x = unsigned(vp_any(name, 2));
	if (vp_native()) return x % n;
	x = pin(x, n);
	vp_requires(x < n);
	return x;
}
static void chain(unsigned most)
{
	LEN = 1 + choose("n", vp_native() ? DEEP : most);
	for (unsigned i = 0; i != LEN; ++i) C[i] = kind(choose("kind", i + 1 == LEN ? 3 : 4));
	given(LEN);
}
// the description of the chain
VP_HARNESS(chain_2)
{
	chain(2);
	std::string r;
	text t;
	try {
		raise(0);
	} catch (std::exception& e) {
		r = utki::to_string(e, IND);
		add_chain(t, IND, 0);
	} catch (...) {
		r = utki::current_exception_to_string(IND);
		add_chain(t, IND, 0);
	}
	check(r.data(), r.size(), t);
}
// the members to_string() and what()
VP_HARNESS(stack_2)
{
	chain(2);
	C[0] = choose("top", 2) == 0 || LEN == 1 ? UFAIL : STACKED;
	std::string r;
	text t, w;
	const char* p = nullptr;
	try {
		raise(0);
	} catch (utki::exception& e) {
		r = e.to_string(IND);
		if (C[0] == STACKED) {
			add_stack(t, IND, 0);
			w.add("exception stack:\n");
			add_stack(w, "- ", 0);
		} else {
			add_chain(t, IND, 0);
			w.add(M[0]);
		}
		p = e.what();
		size_t n = 0;
		for (unsigned k = 0; k != w.n; ++k) n += w.p[k].size();
		vp_ensures(vp_readable(p, n + 1), "length of the message");
		vp_ensures(p[n] == 0, "end of the message");
		check(p, vp_native() ? strlen(p) : n, w);
	}
	check(r.data(), r.size(), t);
}
VP_HARNESS(none)
{
	given(0);
	bool thrown = false;
	try {
		utki::current_exception_to_string(IND);
	} catch (std::logic_error&) {
		thrown = true;
	}
	vp_reach("done");
	vp_ensures(thrown, "there is no exception to describe");
}
// ---- one step of the recursion: the exceptions nested are described by arbitrary texts, according
// to the contracts of the functions called; by induction the description of a chain of any depth
#ifdef VP_PROOF
static sv R; // description of the exceptions nested
static unsigned CALLS;
extern "C" void vpc_no_contract_used();
static std::string rest()
{
	++CALLS;
	return std::string(R.data(), R.size());
}
static bool same(sv a, sv b) { return VP_AND(a.data() == b.data(), a.size() == b.size()); }
extern "C" std::string vpc_to_string(const std::exception& e, sv ind)
{
	const std::type_info* t = &typeid(e);
	if (t == &typeid(fail) && static_cast<const fail&>(e).m == M[0].data()) { // the top of the stack
		std::stringstream s;
		s << ind << N[0] << ": " << M[0];
		return s.str();
	}
	vp_ensures(same(ind, IND), "the same indentation for the exceptions nested");
	vp_ensures(t == &type_of(C[1], LEN != 2), "the exception nested is described");
	if (C[1] == FAIL) vp_ensures(static_cast<const fail&>(e).m == M[1].data(), "the exception nested is described");
	if (C[1] == UFAIL) vp_ensures(static_cast<const ufail&>(e).m == M[1].data(), "the exception nested is described");
	return rest();
}
extern "C" std::string vpc_current(sv ind)
{
	vp_ensures(same(ind, IND), "the same indentation for the exceptions nested");
	vp_ensures(abi::__cxa_current_exception_type() == &type_of(C[1], LEN != 2), "the exception nested is described");
	return rest();
}
extern "C" std::string vpc_stack(const sfail&, sv ind)
{
	vp_ensures(C[1] == STACKED, "the exception nested is described");
	vp_ensures(same(ind, IND), "the same indentation for the exceptions nested");
	return rest();
}
static void step()
{
	CALLS = 0;
	C[1] = kind(choose("nested", KINDS));
	C[2] = FAIL;
	LEN = C[1] == STACKED ? 3 : 2;
	given(LEN);
	R = vp_string("rest", vp_len("rl"));
	vp_requires(R.size() < (size_t(1) << 40));
}
static void add_step(text& t, const std::type_info& n, bool message)
{
	if (CALLS == 0) vpc_no_contract_used(); // not how the function works
	vp_ensures(CALLS == 1, "the exceptions nested are described once");
	t.add(IND);
	t.add(name(n));
	if (message) {
		t.add(": ");
		t.add(M[0]);
	}
	t.add("\n");
	t.add(R);
}
VP_HARNESS(step_standard)
{
	C[0] = choose("top", 2) == 0 ? FAIL : UFAIL;
	step();
	std::string r;
	text t;
	try {
		raise(0);
	} catch (std::exception& e) {
		r = utki::to_string(e, IND);
		add_step(t, type_of(C[0], true), true);
	}
	check(r.data(), r.size(), t);
}
VP_HARNESS(step_unknown)
{
	C[0] = FOREIGN;
	step();
	std::string r;
	text t;
	try {
		raise(0);
	} catch (...) {
		r = utki::current_exception_to_string(IND);
		add_step(t, typeid(nforeign), false);
	}
	check(r.data(), r.size(), t);
}
VP_HARNESS(step_stack)
{
	C[0] = STACKED;
	step();
	std::string r;
	text t;
	try {
		raise(0);
	} catch (sfail& e) {
		r = e.to_string(IND);
		add_step(t, typeid(fail), true);
	}
	check(r.data(), r.size(), t);
}
// the message of a stack is its description
extern "C" std::string vpc_described(const sfail&, sv ind)
{
	vp_ensures(ind == "- ", "the lines begin with a dash");
	return rest();
}
VP_HARNESS(step_what)
{
	C[0] = STACKED;
	step();
	text t;
	try {
		raise(0);
	} catch (std::exception& e) {
		const char* p = e.what();
		if (CALLS == 0) vpc_no_contract_used();
		t.add("exception stack:\n");
		t.add(R);
		size_t n = t.p[0].size() + R.size();
		vp_ensures(vp_readable(p, n + 1), "length of the message");
		vp_ensures(p[n] == 0, "end of the message");
		check(p, n, t);
	}
}
#endif
// ---- names of types
#ifdef VP_PROOF
static char* DEM;
static size_t DN;
static unsigned FREED;
extern "C" char* vpc_cxa_demangle(const char* mangled, char* buf, size_t* n, int* status)
{
	vp_ensures(mangled == typeid(fail).name(), "the name of the type given");
	vp_ensures(buf == nullptr && n == nullptr, "the buffer is allocated");
	int s = int(choose("status", 4));
	*status = -s;
	return s == 0 ? DEM : nullptr;
}
extern "C" void vpc_free(void* p)
{
	vp_ensures(p == static_cast<void*>(DEM), "the name is freed");
	++FREED;
}
VP_HARNESS(demangle)
{
	FREED = 0;
	G = vp_ghost("g");
	DN = vp_len("dn");
	vp_requires(DN < (size_t(1) << 40));
	DEM = static_cast<char*>(vp_buf("dem", DN + 1));
	vp_requires(DEM[DN] == 0);
	auto r = utki::demangle(typeid(fail));
	vp_reach("done");
	if (FREED == 0) {
		vp_reach("not demangled");
		vp_ensures(r == "4fail", "the name as it is");
		return;
	}
	vp_ensures(FREED == 1, "freed once");
	vp_ensures(DEM[r.size()] == 0, "all of the name");
	if (G < r.size()) vp_ensures(r[G] == DEM[G] && r[G] != 0, "the name");
}
#else
VP_HARNESS(demangle)
{
	switch (vp_any("t", 3)) {
		case 0: vp_ensures(utki::demangle(typeid(fail)) == "fail", "name of a class"); break;
		case 1: vp_ensures(utki::demangle(typeid(int)) == "int", "name of a type"); break;
		case 2: vp_ensures(utki::demangle(typeid(std::runtime_error)) == "std::runtime_error", "name of a class"); break;
		case 3: vp_ensures(utki::demangle(typeid(nforeign)) == "std::_Nested_exception<foreign>", "name of a template"); break;
		case 4: vp_ensures(utki::demangle(typeid(unsigned char*)) == "unsigned char*", "name of a type"); break;
		default: vp_ensures(utki::demangle(typeid(sfail)) == "utki::stacked_exception<fail>", "name of a template"); break;
	}
}
#endif
