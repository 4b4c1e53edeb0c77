// traversal of forests
#include "vp.hpp"
#include <deque>
#include <stdexcept>
#include <utki/tree.hpp>
using T = utki::tree<uint32_t>;
using F = T::container_type;
static const unsigned MAX = 24, DEEP = 6;
struct path {
	unsigned n = 0;
	size_t i[DEEP + 1];
	void down(size_t k) { i[n++] = k; }
	void up() { --n; }
	bool operator==(const path& o) const
	{
		if (n != o.n) return false;
		for (unsigned k = 0; k != n; ++k)
			if (i[k] != o.i[k]) return false;
		return true;
	}
	std::vector<size_t> vec() const
	{
		std::vector<size_t> v;
		for (unsigned k = 0; k != n; ++k) v.push_back(i[k]);
		return v;
	}
	bool operator==(const std::vector<size_t>& v) const
	{
		if (n != v.size()) return false;
		for (unsigned k = 0; k != n; ++k)
			if (i[k] != v[k]) return false;
		return true;
	}
};
// a forest as the list of its nodes in pre-order
struct list {
	unsigned n = 0;
	const T* p[MAX + 2];
	uint32_t v[MAX + 2];
	path at[MAX + 2];
	void add(const F& f, path& here)
	{
		for (size_t k = 0; k != f.size(); ++k) {
			if (n == MAX + 2) return;
			p[n] = &f[k];
			v[n] = f[k].value;
			here.down(k);
			at[n++] = here;
			add(f[k].children, here);
			here.up();
		}
	}
	explicit list(const F& f)
	{
		path h;
		add(f, h);
	}
};
static unsigned pin(unsigned x, unsigned n)
{
	for (unsigned i = 0; i != n; ++i)
		if (x == i) return i;
	return n;
}
static unsigned choose(const char* name, unsigned n) // one of 0 .. n-1
{
	unsigned x = unsigned(vp_any(name, vp_native() ? 4 : 3));
	if (vp_native()) return x % n;
	x = pin(x, n);
	vp_requires(x < n);
	return x;
}
static unsigned COUNT;
// nodes are added one after another: as a child of the last node, or as the next sibling of it or of one of its ancestors
static void build(F& f, unsigned most)
{
	COUNT = 0;
	F* stack[DEEP];
	unsigned depth = 1;
	stack[0] = &f;
	unsigned n = choose("n", most + 1);
	for (unsigned k = 0; k != n; ++k) {
		if (k != 0) {
			unsigned d = choose("d", depth + 1); // 0: roots ... depth: child of the last node
			if (d == DEEP) --d;
			if (d == depth) stack[depth] = &stack[depth - 1]->back().children;
			depth = d + 1;
		}
		stack[depth - 1]->emplace_back(COUNT++);
	}
}
template <class Tr, class It>
static void check_forward(Tr& tr, It i, It end, const list& l)
{
	for (unsigned k = 0; k != l.n; ++k) {
		vp_ensures(i != end && !(i == end), "the end is behind the last node");
		if (i == end) return;
		vp_ensures(&*i == l.p[k] && i.operator->() == l.p[k], "every node once, each before its descendants and these before its next sibling");
		vp_ensures(l.at[k] == i.index(), "index path of the position");
		vp_ensures(i.depth() == l.at[k].n, "depth of the position");
		It j = i++;
		It b = i;
		--b;
		vp_ensures(b == j && &*b == l.p[k], "stepping backwards undoes the step forward");
		vp_ensures(j < i && i > j && j <= i && i >= j && !(i < j) && !(i <= j) && !(j > i) && !(j >= i) && j <= j && j >= j && !(j < j), "positions are ordered as they are visited");
		vp_ensures(&j.at_level(l.at[k].n - 1) == l.p[k], "node of the last level");
		bool last = true;
		for (unsigned m = 0; m != l.n; ++m) {
			path q = l.at[k];
			++q.i[q.n - 1];
			if (l.at[m] == q) last = false;
		}
		vp_ensures(j.is_last_child() == last, "last child");
	}
	vp_ensures(i == end, "then the end is reached");
	for (unsigned k = l.n; k != 0; --k) {
		--i;
		vp_ensures(&*i == l.p[k - 1], "backwards: the nodes in reverse order");
	}
}
template <class It>
static void check_reverse(It i, It end, const list& l)
{
	for (unsigned k = l.n; k != 0; --k) {
		vp_ensures(i != end, "the end is behind the last node");
		if (i == end) return;
		vp_ensures(&*i == l.p[k - 1], "the nodes in reverse order");
		++i;
	}
	vp_ensures(i == end, "then the end is reached");
}
static unsigned many(unsigned n) { return vp_native() ? 14 : n; }
// increment with a post-increment helper
template <class It>
struct post : It {
	post(const It& i) : It(i) {}
	It operator++(int)
	{
		It r = *this;
		It::operator++();
		return r;
	}
};
VP_HARNESS(traverse_6)
{
	F f;
	build(f, many(6));
	list l(f);
	auto t = utki::make_traversal(f);
	check_forward(t, post(t.begin()), post(t.end()), l);
	vp_reach("done");
}
VP_HARNESS(traverse_const_6)
{
	F f;
	build(f, many(6));
	list l(f);
	const F& c = f;
	auto t = utki::make_traversal(c);
	check_forward(t, post(t.begin()), post(t.end()), l);
	auto t2 = utki::make_traversal(f);
	check_forward(t2, post(t2.cbegin()), post(t2.cend()), l);
	vp_reach("done");
}
VP_HARNESS(traverse_reverse_6)
{
	F f;
	build(f, many(6));
	list l(f);
	auto t = utki::make_traversal(f);
	check_reverse(t.rbegin(), t.rend(), l);
	check_reverse(t.crbegin(), t.crend(), l);
	vp_reach("done");
}
static size_t comp(unsigned k)
{
	size_t x = vp_native() ? vp_any("i", 3) : vp_any("i", 64);
	if (vp_native()) return x == 7 ? ~size_t(0) : x;
	return pin(x < 5 ? unsigned(x) : 5, 5) < 5 ? pin(unsigned(x), 5) : x;
}
VP_HARNESS(index_4)
{
	F f;
	build(f, many(4));
	list l(f);
	path q;
	unsigned n = choose("levels", vp_native() ? 5 : 4);
	for (unsigned k = 0; k != n; ++k) q.down(comp(k));
	unsigned found = l.n;
	for (unsigned k = 0; k != l.n; ++k)
		if (l.at[k] == q) found = k;
	auto t = utki::make_traversal(f);
	auto v = q.vec();
	vp_reach("path");
	vp_ensures(t.is_valid(v) == (found != l.n), "an index path is valid exactly when the node exists");
	if (n == 0) return;
	bool thrown = false;
	try {
		auto i = t.make_iterator(v);
		vp_ensures(found != l.n, "a path to no node is rejected");
		if (found == l.n) return;
		vp_ensures(&*i == l.p[found], "the position of the path");
		vp_ensures(q == i.index(), "its index is the path");
		auto b = t.begin();
		for (unsigned k = 0; k != found; ++k) ++b;
		vp_ensures(b == i, "the same position as by traversing");
		auto c = t.make_const_iterator(v);
		vp_ensures(&*c == l.p[found], "the position of the path");
		vp_ensures(&t[v] == l.p[found], "the node of the path");
		vp_reach("node");
	} catch (std::out_of_range&) {
		thrown = true;
	}
	vp_ensures(thrown == (found == l.n), "a path to no node is rejected");
}
static void same(const list& a, const list& b)
{
	vp_ensures(a.n == b.n, "number of nodes");
	if (a.n != b.n) return;
	for (unsigned k = 0; k != a.n; ++k) {
		vp_ensures(a.v[k] == b.v[k], "values of the nodes");
		vp_ensures(a.at[k] == b.at[k], "places of the nodes");
	}
}
// the list with a node put in as element `pos`; the nodes which are its new next siblings and their descendants move
static void put(list& l, unsigned pos, const path& at, uint32_t v)
{
	unsigned d = at.n - 1;
	for (unsigned k = 0; k != l.n; ++k) {
		path& p = l.at[k];
		if (p.n < at.n) continue;
		bool in = true;
		for (unsigned m = 0; m != d; ++m)
			if (p.i[m] != at.i[m]) in = false;
		if (in && p.i[d] >= at.i[d]) ++p.i[d];
	}
	for (unsigned k = l.n; k != pos; --k) {
		l.at[k] = l.at[k - 1];
		l.v[k] = l.v[k - 1];
	}
	l.at[pos] = at;
	l.v[pos] = v;
	++l.n;
}
static bool inside(const path& p, const path& top) // top or one of its descendants
{
	if (p.n < top.n) return false;
	for (unsigned m = 0; m != top.n; ++m)
		if (p.i[m] != top.i[m]) return false;
	return true;
}
template <class Tr>
static auto position(Tr& t, unsigned k)
{
	auto i = t.begin();
	for (unsigned m = 0; m != k; ++m) ++i;
	return i;
}
VP_HARNESS(insert_5)
{
	F f;
	build(f, many(5));
	list l(f);
	auto t = utki::make_traversal(f);
	unsigned k = choose("at", l.n + 1);
	path at;
	if (k == l.n) at.down(f.size());
	else at = l.at[k];
	bool move = choose("move", 2);
	T x(100);
	auto i = move ? t.insert(position(t, k), std::move(x)) : t.insert(position(t, k), static_cast<const T&>(x));
	put(l, k, at, 100);
	list m(f);
	vp_reach("done");
	same(m, l);
	vp_ensures(at == i.index() && i->value == 100, "the position of the new node");
	vp_ensures(&*i == m.p[k], "the position of the new node");
}
VP_HARNESS(insert_after_5)
{
	F f;
	build(f, many(5));
	list l(f);
	if (l.n == 0) return;
	auto t = utki::make_traversal(f);
	unsigned k = choose("at", l.n);
	path at = l.at[k];
	unsigned pos = k;
	while (pos != l.n && inside(l.at[pos], at)) ++pos;
	++at.i[at.n - 1];
	bool move = choose("move", 2);
	T x(100);
	auto i = move ? t.insert_after(position(t, k), std::move(x)) : t.insert_after(position(t, k), static_cast<const T&>(x));
	put(l, pos, at, 100);
	list m(f);
	vp_reach("done");
	same(m, l);
	vp_ensures(at == i.index() && i->value == 100, "the position of the new node");
	vp_ensures(&*i == m.p[pos], "the position of the new node");
}
VP_HARNESS(erase_6)
{
	F f;
	build(f, many(6));
	list l(f);
	if (l.n == 0) return;
	auto t = utki::make_traversal(f);
	unsigned k = choose("at", l.n);
	path at = l.at[k];
	unsigned next = k;
	while (next != l.n && inside(l.at[next], at)) ++next;
	auto i = t.erase(position(t, k));
	// the list without the node and its descendants
	list w(f);
	unsigned n = l.n - (next - k);
	for (unsigned m = next; m != l.n; ++m) {
		l.at[m - (next - k)] = l.at[m];
		l.v[m - (next - k)] = l.v[m];
	}
	l.n = n;
	unsigned d = at.n - 1;
	for (unsigned m = 0; m != l.n; ++m) {
		path& p = l.at[m];
		if (p.n < at.n) continue;
		bool in = true;
		for (unsigned q = 0; q != d; ++q)
			if (p.i[q] != at.i[q]) in = false;
		if (in && p.i[d] > at.i[d]) --p.i[d];
	}
	vp_reach("done");
	same(w, l);
	auto e = t.end();
	vp_ensures((i == e) == (k == l.n), "the end exactly when nothing follows");
	if (i != e && k != l.n) vp_ensures(&*i == w.p[k], "the position of the node that followed the node erased and its descendants");
}
#ifndef VP_PROOF
// other containers
VP_HARNESS(deque)
{
	using D = utki::tree<uint32_t, std::deque>;
	D::container_type f;
	D::container_type* at = &f;
	unsigned n = choose("n", 14), c = 0;
	for (unsigned k = 0; k != n; ++k) {
		if (choose("deeper", 3) == 0 && !at->empty()) at = &at->back().children;
		else if (choose("top", 4) == 0) at = &f;
		at->emplace_back(c++);
	}
	auto t = utki::make_traversal(f);
	unsigned k = 0;
	auto i = t.begin();
	std::vector<std::vector<size_t>> seen;
	for (; i != t.end() && k <= n; ++i, ++k) {
		auto x = i.index();
		vp_ensures(t.is_valid(x) && t.make_iterator(x) == i, "index and position");
		if (!seen.empty()) vp_ensures(seen.back() < x, "in order");
		seen.push_back(x);
	}
	vp_ensures(k == n, "every node once");
	while (k--) {
		--i;
		vp_ensures(i.index() == seen[k], "backwards");
	}
}
#endif
