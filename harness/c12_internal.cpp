// C12: the in-memory containers agree with their textbook models.
#include <memory>
#include "world.h"
#include <tpie/array.h>
#include <tpie/array_view.h>
#include <tpie/bit_array.h>
#include <tpie/packed_array.h>
#include <tpie/internal_queue.h>
#include <tpie/internal_stack.h>
#include <tpie/internal_vector.h>
#include <tpie/internal_priority_queue.h>
#include <tpie/pq_overflow_heap.h>
#include <tpie/pq_merge_heap.h>
#include <tpie/mergeheap.h>
#include <tpie/disjoint_sets.h>
#include <tpie/maybe.h>
#include <tpie/tiny.h>
#include <algorithm>
#include <deque>
#include <map>
#include <set>
#include <vector>

using namespace tpie;

namespace {

int g_live = 0;
struct tracked { // default 0, counts live instances and catches use of dead ones
	int v; unsigned magic;
	tracked() : v(0), magic(0xfeed) { ++g_live; }
	tracked(int x) : v(x), magic(0xfeed) { ++g_live; }
	tracked(const tracked & o) : v(o.get()), magic(0xfeed) { ++g_live; }
	tracked & operator=(const tracked & o) { alive("assign to"); v = o.get(); return *this; }
	~tracked() { alive("destroy"); magic = 0xdead; --g_live; }
	void alive(const char * w) const { if (magic != 0xfeed) mc::fail_hard("dead-element", std::string(w) + " an element that is not alive"); }
	int get() const { alive("read"); return v; }
	bool operator==(const tracked & o) const { return get() == o.get(); }
	bool operator!=(const tracked & o) const { return get() != o.get(); }
	bool operator<(const tracked & o) const { return get() < o.get(); }
};

int val(int x) { return x; }
int val(const tracked & x) { return x.get(); }

template <typename A, typename V>
void same(const A & a, const V & m, const char * op) {
	MC_CHECK(a.size() == m.size() && a.empty() == m.empty(), "size", "after " << op << ": size " << a.size() << ", model " << m.size());
	for (size_t i = 0; i < m.size(); ++i) MC_CHECK(val(a[i]) == m[i], "value", "after " << op << ": element " << i << " is " << val(a[i]) << ", model " << m[i]);
}

template <typename A, typename V>
void same_iter(A & a, const V & m, const char * op) {
	const A & ca = a;
	std::vector<int> f, r, cf, cr;
	for (auto i = a.begin(); i != a.end(); ++i) f.push_back(val(*i));
	for (auto i = a.rbegin(); i != a.rend(); ++i) r.push_back(val(*i));
	for (auto i = ca.begin(); i != ca.end(); ++i) cf.push_back(val(*i));
	for (auto i = ca.rbegin(); i != ca.rend(); ++i) cr.push_back(val(*i));
	std::vector<int> e(m.begin(), m.end()), b(m.rbegin(), m.rend());
	MC_CHECK(f == e && cf == e, "iterate", "after " << op << ": forward iteration gives " << mc::show(f) << "/" << mc::show(cf) << ", model " << mc::show(e));
	MC_CHECK(r == b && cr == b, "iterate-reverse", "after " << op << ": reverse iteration gives " << mc::show(r) << "/" << mc::show(cr) << ", model " << mc::show(b));
	MC_CHECK(size_t(a.end() - a.begin()) == m.size() && size_t(a.rend() - a.rbegin()) == m.size(), "iterator-distance", "after " << op);
	for (size_t i = 0; i <= m.size(); ++i) {
		MC_CHECK(size_t(ca.find(i) - ca.begin()) == i && size_t(a.end() - a.find(i)) == m.size() - i, "find", "after " << op);
		if (i < m.size()) MC_CHECK(val(*ca.find(i)) == m[i] && val(*(a.begin() + i)) == m[i] && val(*(a.rbegin() + i)) == b[i] && val(*(a.end() - (m.size() - i))) == m[i], "find-value", "after " << op << " index " << i);
	}
}

void array_body(int depth, int max) {
	g_live = 0;
	{
		typedef array<tracked> A;
		A a[2];
		std::vector<int> m[2];
		int next = 1;
		for (int d = 0; d < depth; ++d) {
			int k = mc::choose(2), o = 1 - k;
			const char * op = "";
			mc::transition();
			switch (mc::choose(12)) {
			case 0: { op = "resize"; int n = mc::choose(max + 1); a[k].resize(n); m[k].assign(n, 0); break; }
			case 1: { op = "resize fill"; int n = mc::choose(max + 1); a[k].resize(n, tracked(next)); m[k].assign(n, next++); break; }
			case 2: { op = "write"; if (m[k].empty()) break; int i = mc::choose(m[k].size()); a[k][i] = next; m[k][i] = next++; break; }
			case 3: op = "copy assign"; a[k] = a[o]; m[k] = m[o]; break;
			case 4: op = "self assign"; { A & r = a[k]; a[k] = r; } break;
			case 5: op = "move assign"; a[k] = std::move(a[o]); m[k] = m[o]; a[o].resize(0); m[o].clear(); break;
			case 6: op = "swap"; std::swap(a[k], a[o]); std::swap(m[k], m[o]); break;
			case 7: { op = "copy construct"; A c(a[k]); same(c, m[k], op); MC_CHECK(c == a[k] && !(c != a[k]), "equal", op); a[o].swap(c); m[o] = m[k]; break; }
			case 8: { op = "move construct"; A c(std::move(a[k])); same(c, m[k], op); MC_CHECK(a[k].size() == 0, "moved-from", op); a[k] = std::move(c); break; }
			case 9: { op = "front/back"; if (m[k].empty()) break; a[k].front() = next; m[k].front() = next++; a[k].back() = next; m[k].back() = next++; break; }
			case 10: { op = "view"; array_view<tracked> v(a[k]); same(v, m[k], op); A c{array_view_base<tracked>(v)}; same(c, m[k], op); array_view<const tracked> cv(v); same(cv, m[k], op); if (m[k].size()) { v[0] = next; m[k][0] = next++; } break; }
			case 11: { op = "construct"; int n = mc::choose(max + 1); A c(n, tracked(next)); a[k] = c; m[k].assign(n, next++); break; }
			}
			MC_TRACE(op << " on " << k << " -> " << mc::show(m[0]) << mc::show(m[1]));
			for (int x = 0; x < 2; ++x) {
				same(a[x], m[x], op);
				same_iter(a[x], m[x], op);
				if (!m[x].empty()) MC_CHECK(a[x].front().get() == m[x].front() && a[x].back().get() == m[x].back(), "ends", "after " << op);
			}
			MC_CHECK((a[0] == a[1]) == (m[0] == m[1]) && (a[0] != a[1]) == (m[0] != m[1]), "compare", "after " << op);
			MC_CHECK(size_t(g_live) == m[0].size() + m[1].size(), "live", "after " << op << ": " << g_live << " live elements");
			mc::state(mc::mix(mc::hash_seq(m[0]), mc::hash_seq(m[1])));
		}
		mc::outcome(mc::mix(mc::hash_seq(m[0]), mc::hash_seq(m[1])));
	}
	MC_CHECK(g_live == 0, "leak", g_live << " elements never destroyed");
}

// std::copy has overloads for array iterators
void copy_body() {
	int n = mc::choose(4), off = mc::choose(3), kind = mc::choose(9);
	array<int> src(n), dst(n + off + 1, -1);
	std::vector<int> s, d(n + off + 1, -1);
	for (int i = 0; i < n; ++i) { src[i] = i + 1; s.push_back(i + 1); }
	const array<int> & csrc = src;
	mc::transition();
	size_t ret = 0, want = 0;
	switch (kind) {
	case 0: ret = std::copy(src.begin(), src.end(), dst.find(off)) - dst.begin(); want = std::copy(s.begin(), s.end(), d.begin() + off) - d.begin(); break;
	case 1: ret = std::copy(csrc.begin(), csrc.end(), dst.find(off)) - dst.begin(); want = std::copy(s.begin(), s.end(), d.begin() + off) - d.begin(); break;
	case 2: ret = std::copy(src.rbegin(), src.rend(), dst.find(off)) - dst.begin(); want = std::copy(s.rbegin(), s.rend(), d.begin() + off) - d.begin(); break;
	case 3: ret = std::copy(src.begin(), src.end(), dst.rbegin() + off) - dst.rbegin(); want = std::copy(s.begin(), s.end(), d.rbegin() + off) - d.rbegin(); break;
	case 4: ret = std::copy(src.rbegin(), src.rend(), dst.rbegin() + off) - dst.rbegin(); want = std::copy(s.rbegin(), s.rend(), d.rbegin() + off) - d.rbegin(); break;
	case 5: ret = std::copy(s.begin(), s.end(), dst.find(off)) - dst.begin(); want = std::copy(s.begin(), s.end(), d.begin() + off) - d.begin(); break;
	case 6: ret = std::copy(s.begin(), s.end(), dst.rbegin() + off) - dst.rbegin(); want = std::copy(s.begin(), s.end(), d.rbegin() + off) - d.rbegin(); break;
	case 7: { std::vector<int> v(n); ret = std::copy(src.rbegin(), src.rend(), v.begin()) - v.begin() + off; std::copy(v.begin(), v.end(), dst.find(off)); want = std::copy(s.rbegin(), s.rend(), d.begin() + off) - d.begin(); break; }
	case 8: { std::vector<int> v(n); ret = std::copy(src.begin(), src.end(), v.begin()) - v.begin() + off; std::copy(v.begin(), v.end(), dst.find(off)); want = std::copy(s.begin(), s.end(), d.begin() + off) - d.begin(); break; }
	}
	MC_CHECK(ret == want, "copy-result", "kind " << kind << " n " << n << ": returned iterator at " << ret << ", expected " << want);
	same(dst, d, "std::copy");
	mc::outcome(mc::mix(mc::hash_seq(d), kind));
}

template <typename T, int B>
void packed_body(int depth) {
	typedef packed_array<T, B> P;
	const size_t W = 64 / B;
	const uint64_t top = B == 64 ? ~uint64_t(0) : (uint64_t(1) << B) - 1;
	std::vector<uint64_t> vals = {0, top};
	if (B > 1) { vals.push_back(top / 2 + 1); vals.push_back(1); }
	P a[2];
	std::vector<uint64_t> m[2];
	const size_t sizes[] = {0, 1, W - 1, W, W + 1, 2 * W};
	auto check = [&](const char * op) {
		for (int x = 0; x < 2; ++x) {
			MC_CHECK(a[x].size() == m[x].size() && a[x].empty() == m[x].empty(), "packed-size", "after " << op);
			const P & c = a[x];
			for (size_t i = 0; i < m[x].size(); ++i)
				MC_CHECK(uint64_t(T(a[x][i])) == m[x][i] && uint64_t(T(c[i])) == m[x][i], "packed-value", "after " << op << ": element " << i << " of " << m[x].size() << " is " << uint64_t(T(c[i])) << ", model " << m[x][i]);
			std::vector<uint64_t> f, r, cf, cr, e(m[x].begin(), m[x].end()), b(m[x].rbegin(), m[x].rend());
			for (auto i = a[x].begin(); i != a[x].end(); ++i) f.push_back(T(*i));
			for (auto i = a[x].rbegin(); i != a[x].rend(); ++i) r.push_back(T(*i));
			for (auto i = c.begin(); i != c.end(); ++i) cf.push_back(*i);
			for (auto i = c.rbegin(); i != c.rend(); ++i) cr.push_back(*i);
			MC_CHECK(f == e && cf == e && r == b && cr == b, "packed-iterate", "after " << op << ": iteration gives " << mc::show(f) << mc::show(r) << ", model " << mc::show(e));
			MC_CHECK(size_t(c.end() - c.begin()) == e.size() && size_t(c.find(e.size() / 2) - c.begin()) == e.size() / 2, "packed-find", "after " << op);
		}
	};
	{
		int s0 = mc::choose(6);
		uint64_t bg = vals[mc::choose(vals.size())];
		a[0].resize(sizes[s0], T(bg)); m[0].assign(sizes[s0], bg);
		check("fill");
	}
	for (int d = 0; d < depth; ++d) {
		const char * op = "";
		mc::transition();
		switch (mc::choose(9)) {
		case 0: { op = "write"; if (m[0].empty()) break; size_t i = mc::choose(m[0].size()); uint64_t v = vals[mc::choose(vals.size())]; a[0][i] = T(v); m[0][i] = v; break; }
		case 1: { op = "write through iterator"; if (m[0].empty()) break; size_t i = mc::choose(2) ? m[0].size() - 1 : 0; uint64_t v = vals[mc::choose(vals.size())]; *a[0].find(i) = T(v); m[0][i] = v; break; }
		case 2: { op = "element to element"; if (m[0].empty()) break; size_t i = mc::choose(2) ? m[0].size() - 1 : 0, j = m[0].size() / 2; a[0][i] = a[0][j]; m[0][i] = m[0][j]; break; }
		case 3: { op = "iterator to iterator"; if (m[0].empty()) break; size_t i = mc::choose(2) ? m[0].size() - 1 : 0, j = m[0].size() / 2; *a[0].find(i) = *a[0].find(j); m[0][i] = m[0][j]; break; }
		case 4: op = "copy"; a[1] = a[0]; m[1] = m[0]; break;
		case 5: op = "swap"; std::swap(a[0], a[1]); std::swap(m[0], m[1]); break;
		case 6: op = "move"; a[1] = std::move(a[0]); m[1] = m[0]; a[0].resize(0); m[0].clear(); break;
		case 7: { op = "copy range"; a[1].resize(m[0].size(), T(0)); m[1].assign(m[0].size(), 0); std::copy(a[0].begin(), a[0].end(), a[1].begin()); m[1] = m[0]; break; }
		case 8: { op = "construct"; P c(a[0]), e(std::move(c)); MC_CHECK(e.size() == m[0].size() && c.size() == 0, "packed-construct", "sizes"); a[0] = e; break; }
		}
		MC_TRACE(op << " -> " << mc::show(m[0]));
		check(op);
		mc::state(mc::mix(mc::hash_seq(m[0]), mc::hash_seq(m[1])));
	}
	mc::outcome(mc::mix(mc::hash_seq(m[0]), mc::hash_seq(m[1])));
}

// Iterator arithmetic: every pair of positions of a range of n elements
template <typename It, typename Get>
void iterator_range(const char * what, It first, It last, const std::vector<int> & m, Get get) {
	ptrdiff_t n = ptrdiff_t(m.size());
	MC_CHECK(last - first == n, "iterator-distance", what << ": end - begin is " << (last - first) << ", size " << n);
	for (ptrdiff_t i = 0; i <= n; ++i) for (ptrdiff_t j = 0; j <= n; ++j) {
		mc::transition();
		It a = first; a += i;
		It b = last; b -= n - j;
		It c = a + (j - i), d = b - (j - i), e = (j - i) + a;
		MC_CHECK(a - first == i && b - first == j && b - a == j - i && c - first == j && d - first == i && e - first == j, "iterator-arithmetic", what << " positions " << i << " and " << j << " of " << n);
		MC_CHECK((c == b) && (d == a) && (e == b), "iterator-reach", what << " positions " << i << " and " << j);
		MC_CHECK((a == b) == (i == j) && (a != b) == (i != j) && (a < b) == (i < j) && (a > b) == (i > j) && (a <= b) == (i <= j) && (a >= b) == (i >= j), "iterator-compare", what << " positions " << i << " and " << j);
		if (j < n) {
			MC_CHECK(get(*b) == m[j] && get(a[j - i]) == m[j], "iterator-value", what << " position " << j << " gives " << get(*b) << " and " << get(a[j - i]) << ", expected " << m[j]);
			It f = b, g = f++;
			MC_CHECK(f - b == 1 && g == b, "iterator-postincrement", what);
			g = f--;
			MC_CHECK(f == b && g - b == 1, "iterator-postdecrement", what);
			++f; --f;
			MC_CHECK(f == b, "iterator-step", what);
		}
	}
}
template <typename A, typename V>
void iterator_body(int n, std::function<V(int)> value) {
	A a(n);
	std::vector<int> m, r;
	for (int i = 0; i < n; ++i) { a[i] = value(i); m.push_back(int(value(i))); }
	r.assign(m.rbegin(), m.rend());
	const A & c = a;
	auto get = [](auto && x) { return int(V(x)); };
	switch (mc::choose(4)) {
	case 0: iterator_range("iterator", a.begin(), a.end(), m, get); break;
	case 1: iterator_range("reverse iterator", a.rbegin(), a.rend(), r, get); break;
	case 2: iterator_range("const iterator", c.begin(), c.end(), m, get); break;
	case 3: iterator_range("const reverse iterator", c.rbegin(), c.rend(), r, get); break;
	}
	for (int i = 0; i < n; ++i) MC_CHECK(int(V(c[i])) == m[i], "iterator-unchanged", i);
	mc::outcome(mc::mix(n, mc::hash_seq(m)));
}

void queue_body(int depth) {
	size_t cap = 1 + mc::choose(4);
	internal_queue<tracked> q(cap);
	std::deque<int> m;
	int next = 1;
	for (int d = 0; d < depth; ++d) {
		mc::transition();
		switch (mc::choose(4)) {
		case 0: if (m.size() == cap) continue; MC_TRACE("push"); q.push(next); m.push_back(next++); break;
		case 1: if (m.empty()) continue; MC_TRACE("pop"); q.pop(); m.pop_front(); break;
		case 2: MC_TRACE("clear"); q.clear(); m.clear(); break;
		case 3: { size_t n = 1 + mc::choose(3); MC_TRACE("resize " << n); q.resize(n); cap = n; m.clear(); break; }
		}
		MC_CHECK(q.size() == m.size() && q.empty() == m.empty() && q.full() == (m.size() == cap), "queue-size", "size " << q.size() << ", model " << m.size());
		if (!m.empty()) MC_CHECK(q.front().get() == m.front() && q.back().get() == m.back(), "queue-ends", "front " << q.front().get() << " back " << q.back().get() << ", model " << mc::show(m));
		mc::state(mc::hash_seq(m, cap));
	}
	mc::outcome(mc::hash_seq(m, cap));
}

void stack_vector_body(int depth) {
	size_t cap = 1 + mc::choose(4);
	internal_stack<tracked> s(cap);
	internal_vector<tracked> v(cap);
	std::vector<int> m, w;
	int next = 1;
	for (int d = 0; d < depth; ++d) {
		mc::transition();
		switch (mc::choose(6)) {
		case 0: if (m.size() == cap) continue; MC_TRACE("push"); s.push(next); v.push_back(next); m.push_back(next++); break;
		case 1: if (m.empty()) continue; MC_TRACE("pop"); s.pop(); v.pop_back(); m.pop_back(); break;
		case 2: if (m.size() == cap) continue; MC_TRACE("push default"); s.push(next); v.push_back() = next; m.push_back(next++); break;
		case 3: MC_TRACE("clear"); s.clear(); v.clear(); m.clear(); break;
		case 4: if (m.empty()) continue; MC_TRACE("modify"); s.top() = next; v[m.size() - 1] = next; m.back() = next++; v.front() = v.front(); break;
		case 5: { size_t n = 1 + mc::choose(3); MC_TRACE("resize " << n); s.resize(n); v.resize(n); cap = n; m.clear(); break; }
		}
		MC_CHECK(s.size() == m.size() && s.empty() == m.empty(), "stack-size", "size " << s.size());
		if (!m.empty()) MC_CHECK(s.top().get() == m.back() && v.back().get() == m.back() && v.front().get() == m.front(), "stack-top", "top " << s.top().get());
		same(v, m, "vector");
		std::vector<int> it;
		for (auto & x : v) it.push_back(x.get());
		MC_CHECK(it == m, "vector-iterate", mc::show(it) << " " << mc::show(m));
		array_view<const tracked> av(v);
		same(av, m, "view");
		internal_vector<tracked> copy(v);
		same(copy, m, "copy");
		mc::state(mc::hash_seq(m, cap));
	}
	mc::outcome(mc::hash_seq(m, cap));
}

template <typename C>
void ipq_body(int depth, int keys) {
	const size_t cap = 7;
	C less;
	internal_priority_queue<tracked, C> q(cap);
	std::vector<int> m; // sorted, best first
	auto add = [&](int k) { m.push_back(k); std::sort(m.begin(), m.end(), [&](int a, int b) { return less(tracked(a), tracked(b)); }); };
	for (int d = 0; d < depth; ++d) {
		mc::transition();
		int k;
		switch (mc::choose(6)) {
		case 0: if (m.size() == cap) continue; k = mc::choose(keys); MC_TRACE("push " << k); if (d % 2) q.push(tracked(k)); else { tracked t(k); q.push(t); } add(k); break;
		case 1: if (m.empty()) continue; MC_TRACE("pop"); q.pop(); m.erase(m.begin()); break;
		case 2: if (m.empty()) continue; k = mc::choose(keys); MC_TRACE("pop_and_push " << k); if (d % 2) q.pop_and_push(tracked(k)); else { tracked t(k); q.pop_and_push(t); } m.erase(m.begin()); add(k); break;
		case 3: { int a = mc::choose(keys), b = mc::choose(keys), c = mc::choose(keys); if (m.size() + 3 > cap) continue; MC_TRACE("insert " << a << b << c); std::vector<int> v = {a, b, c}; q.insert(v.begin(), v.end()); for (int x : v) add(x); break; }
		case 4: { int a = mc::choose(keys), b = mc::choose(keys); if (m.size() + 2 > cap) continue; MC_TRACE("unsafe_push " << a << b); q.unsafe_push(tracked(a)); q.unsafe_push(tracked(b)); q.make_safe(); add(a); add(b); break; }
		case 5: MC_TRACE("clear"); q.clear(); m.clear(); break;
		}
		MC_CHECK(q.size() == m.size() && q.empty() == m.empty(), "ipq-size", "size " << q.size());
		if (!m.empty()) MC_CHECK(q.top().get() == m.front(), "ipq-top", "top " << q.top().get() << ", model " << mc::show(m));
		mc::state(mc::hash_seq(m));
	}
	mc::outcome(mc::hash_seq(m));
	while (!m.empty()) { MC_CHECK(q.top().get() == m.front(), "ipq-drain", "top " << q.top().get() << ", model " << mc::show(m)); q.pop(); m.erase(m.begin()); }
}

template <typename C>
void merge_heap_body(int depth, int keys) {
	C less;
	size_t cap = 1 + mc::choose(6);
	pq_merge_heap<int, C> h(cap);
	std::vector<std::pair<int, size_t>> m;
	size_t run = 0;
	auto best = [&]() { return std::min_element(m.begin(), m.end(), [&](auto & a, auto & b) { return less(a.first, b.first); }); };
	auto check = [&]() {
		MC_CHECK(h.size() == m.size() && h.empty() == m.empty(), "merge-heap-size", "size " << h.size());
		if (m.empty()) return;
		MC_CHECK(h.top() == best()->first, "merge-heap-top", "top " << h.top() << ", minimum " << best()->first);
		MC_CHECK(std::find(m.begin(), m.end(), std::make_pair(h.top(), size_t(h.top_run()))) != m.end(), "merge-heap-run", "run " << h.top_run() << " does not hold " << h.top());
	};
	auto drop = [&]() { m.erase(std::find(m.begin(), m.end(), std::make_pair(h.top(), size_t(h.top_run())))); };
	for (int d = 0; d < depth; ++d) {
		mc::transition();
		int k;
		switch (mc::choose(3)) {
		case 0: if (m.size() == cap) continue; k = mc::choose(keys); MC_TRACE("push " << k); h.push(k, ++run); m.emplace_back(k, run); break;
		case 1: if (m.empty()) continue; MC_TRACE("pop"); drop(); h.pop(); break;
		case 2: if (m.empty()) continue; k = mc::choose(keys); MC_TRACE("pop_and_push " << k); drop(); h.pop_and_push(k, ++run); m.emplace_back(k, run); break;
		}
		check();
		uint64_t s = 1; for (auto & x : m) s += mc::mix(3, x.first);
		mc::state(s);
	}
	mc::outcome(mc::mix(m.size(), run));
	while (!m.empty()) { check(); drop(); h.pop(); }
	check();
}

// merge_heap_op and merge_heap_ptr_op: merge `n` sorted runs
template <typename H>
void merge_body(int keys, int maxlen) {
	int n = 1 + mc::choose(3);
	std::vector<std::vector<int>> runs(n);
	std::vector<int> all, out;
	for (auto & r : runs) {
		int len = 1 + mc::choose(maxlen), last = 0;
		for (int i = 0; i < len; ++i) { last += mc::choose(keys - last); r.push_back(last); }
		all.insert(all.end(), r.begin(), r.end());
	}
	bool extract = mc::choose_bool();
	std::sort(all.begin(), all.end());
	H h;
	h.allocate(n);
	std::vector<size_t> at(n, 1);
	for (int i = 0; i < n; ++i) h.insert(&runs[i][0], i);
	h.initialize();
	while (h.sizeofheap()) {
		mc::transition();
		size_t r = h.get_min_run_id();
		if (extract && at[r] == runs[r].size()) {
			int el; size_t id;
			h.extract_min(el, id);
			MC_CHECK(id == r && el == runs[r].back(), "merge-extract", "extract_min gave " << el << " of run " << id);
			out.push_back(el);
			continue;
		}
		out.push_back(runs[r][at[r] - 1]);
		h.delete_min_and_insert(at[r] < runs[r].size() ? &runs[r][at[r]] : nullptr);
		++at[r];
	}
	h.deallocate();
	MC_CHECK(out == all, "merge", "merged " << mc::show(out) << ", expected " << mc::show(all));
	mc::outcome(mc::hash_seq(out));
}

void disjoint_body(int n, int depth, bool raw_link) {
	disjoint_sets<int> s(n);
	std::vector<int> m(n, -1); // label of the set, -1: not made
	auto count = [&]() { std::set<int> x; for (int v : m) if (v >= 0) x.insert(v); return x.size(); };
	auto merge = [&](int a, int b) { int la = m[a], lb = m[b]; for (int & v : m) if (v == lb) v = la; };
	if (mc::choose_bool()) { for (int i = 0; i < n; ++i) { s.make_set(i); m[i] = i; } }
	for (int d = 0; d < depth; ++d) {
		mc::transition();
		int a = mc::choose(n), b;
		switch (mc::choose(3)) {
		case 0: if (m[a] >= 0) continue; MC_TRACE("make " << a); s.make_set(a); m[a] = a; break;
		case 1: {
			b = mc::choose(n);
			if (m[a] < 0 || m[b] < 0) continue;
			MC_TRACE("union " << a << " " << b);
			int r = raw_link ? s.link(s.find_set(a), s.find_set(b)) : s.union_set(a, b);
			merge(a, b);
			MC_CHECK(r >= 0 && r < n && m[r] == m[a], "union-result", "union gave " << r);
			MC_CHECK(s.find_set(r) == r, "union-rep", "union gave " << r << " which is no representative");
			break; }
		case 2: if (m[a] < 0) continue; MC_TRACE("find " << a); s.find_set(a); break;
		}
		disjoint_sets<int> c(s); // checks on a copy, path halving changes the structure
		MC_CHECK(c.count_sets() == count(), "set-count", c.count_sets() << " sets, model " << count());
		for (int i = 0; i < n; ++i) {
			MC_CHECK(c.is_set(i) == (m[i] >= 0), "is_set", i);
			if (m[i] < 0) continue;
			MC_CHECK(c.find_set(c.find_set(i)) == c.find_set(i), "representative", i);
			for (int j = 0; j < n; ++j) if (m[j] >= 0)
				MC_CHECK((c.find_set(i) == c.find_set(j)) == (m[i] == m[j]), "same-set", i << " and " << j << ", model " << mc::show(m));
		}
		mc::state(mc::hash_seq(m));
	}
	mc::outcome(mc::hash_seq(m));
	if (n > 1 && m[0] >= 0) { s.clear(); MC_CHECK(s.count_sets() == 0 && !s.is_set(0), "clear", "clear left sets"); }
}

void overflow_body(int depth, int keys) {
	size_t cap = 1 + mc::choose(5);
	pq_overflow_heap<int> h(cap);
	std::multiset<int> m;
	for (int d = 0; d < depth; ++d) {
		mc::transition();
		int k;
		switch (mc::choose(3)) {
		case 0: if (m.size() == cap) continue; k = mc::choose(keys); MC_TRACE("push " << k); h.push(k); m.insert(k); break;
		case 1: if (m.empty()) continue; MC_TRACE("pop"); h.pop(); m.erase(m.begin()); break;
		case 2: {
			if (m.size() != cap) continue;
			MC_TRACE("sorted_array");
			int * a = h.sorted_array();
			MC_CHECK(h.sorted_size() == cap && std::equal(m.begin(), m.end(), a), "overflow-sorted", "sorted_array is wrong");
			h.sorted_pop();
			m.clear();
			break; }
		}
		MC_CHECK(h.size() == m.size() && h.empty() == m.empty() && h.full() == (m.size() == cap), "overflow-size", "size " << h.size());
		if (!m.empty()) MC_CHECK(h.top() == *m.begin(), "overflow-top", "top " << h.top() << ", minimum " << *m.begin());
		mc::state(mc::hash_seq(m, cap));
	}
	mc::outcome(mc::hash_seq(m, cap));
}

// tiny::set / multiset against std
template <typename S, typename M>
void tiny_set_body(int depth, int keys) {
	S s[2];
	M m[2];
	auto seq = [](const auto & c) { return std::vector<int>(c.begin(), c.end()); };
	typename M::key_compare less;
	for (int d = 0; d < depth; ++d) {
		int w = mc::choose(2), k;
		S & a = s[w]; M & b = m[w];
		const char * op = "";
		mc::transition();
		switch (mc::choose(8)) {
		case 0: op = "insert"; k = mc::choose(keys); a.insert(k); b.insert(k); break;
		case 1: { op = "erase key"; k = mc::choose(keys); size_t x = a.erase(k), y = b.erase(k); MC_CHECK(x == y, "tiny-erase", "erase removed " << x << ", expected " << y); break; }
		case 2: { op = "erase iterator"; if (b.empty()) break; int i = mc::choose(b.size()); auto x = a.erase(a.begin() + i); auto y = b.erase(std::next(b.begin(), i)); MC_CHECK(x - a.begin() == std::distance(b.begin(), y), "tiny-erase-result", "erase returned position " << (x - a.begin())); break; }
		case 3: { op = "erase range"; int i = mc::choose(b.size() + 1), j = i + mc::choose(b.size() - i + 1); auto x = a.erase(a.begin() + i, a.begin() + j); auto y = b.erase(std::next(b.begin(), i), std::next(b.begin(), j)); MC_CHECK(x - a.begin() == std::distance(b.begin(), y), "tiny-erase-range", "erase(range) returned position " << (x - a.begin()) << ", expected " << std::distance(b.begin(), y)); break; }
		case 4: op = "assign"; a = s[1 - w]; b = m[1 - w]; break;
		case 5: op = "swap"; s[0].swap(s[1]); m[0].swap(m[1]); break;
		case 6: { op = "construct"; std::vector<int> v = seq(m[1 - w]); std::reverse(v.begin(), v.end()); S c(v.begin(), v.end()); a = std::move(c); b = M(v.begin(), v.end()); break; }
		case 7: op = "clear"; a.clear(); b.clear(); break;
		}
		MC_TRACE(op << " -> " << mc::show(b));
		for (int x = 0; x < 2; ++x) {
			MC_CHECK(s[x].size() == m[x].size() && s[x].empty() == m[x].empty(), "tiny-size", "after " << op);
			MC_CHECK(seq(s[x]) == seq(m[x]), "tiny-content", "after " << op << ": " << mc::show(s[x]) << ", model " << mc::show(m[x]));
			const S & cs = s[x];
			for (int q = -1; q <= keys; ++q) {
				MC_CHECK(cs.count(q) == m[x].count(q), "tiny-count", "count(" << q << ")");
				auto pos = [&](auto it) { return it - cs.begin(); };
				auto mpos = [&](auto it) { return std::distance(m[x].cbegin(), it); };
				MC_CHECK(pos(cs.lower_bound(q)) == mpos(m[x].lower_bound(q)) && pos(cs.upper_bound(q)) == mpos(m[x].upper_bound(q)), "tiny-bound", "bounds of " << q);
				MC_CHECK((cs.find(q) == cs.end()) == (m[x].find(q) == m[x].end()) && (cs.find(q) == cs.end() || *cs.find(q) == q), "tiny-find", "find(" << q << ")");
				auto e = cs.equal_range(q);
				MC_CHECK(size_t(e.second - e.first) == m[x].count(q), "tiny-range", "equal_range(" << q << ")");
			}
		}
		std::vector<int> v0 = seq(m[0]), v1 = seq(m[1]);
		bool lt = std::lexicographical_compare(v0.begin(), v0.end(), v1.begin(), v1.end(), less), gt = std::lexicographical_compare(v1.begin(), v1.end(), v0.begin(), v0.end(), less);
		MC_CHECK((s[0] == s[1]) == (v0 == v1) && (s[0] != s[1]) == (v0 != v1), "tiny-equal", "");
		MC_CHECK((s[0] < s[1]) == lt && (s[0] > s[1]) == gt && (s[0] <= s[1]) == !gt && (s[0] >= s[1]) == !lt, "tiny-order", mc::show(v0) << " and " << mc::show(v1) << " are ordered inconsistently");
		mc::state(mc::mix(mc::hash_seq(v0), mc::hash_seq(v1)));
	}
	mc::outcome(mc::mix(mc::hash_seq(m[0]), mc::hash_seq(m[1])));
}

template <bool multi, typename C>
void tiny_map_body(int depth, int keys) {
	typename std::conditional<multi, tiny::multimap<int, int, C>, tiny::map<int, int, C>>::type a;
	typename std::conditional<multi, std::multimap<int, int, C>, std::map<int, int, C>>::type b;
	for (int d = 0; d < depth; ++d) {
		int k = mc::choose(keys);
		mc::transition();
		switch (mc::choose(3)) {
		case 0: MC_TRACE("insert " << k); a.insert(std::make_pair(k, -d)); b.insert(std::make_pair(k, -d)); break;
		case 1: MC_TRACE("erase " << k); MC_CHECK(a.erase(k) == b.erase(k), "tiny-map-erase", k); break;
		case 2:
			if constexpr (!multi) {
				MC_TRACE("[] " << k);
				a[k] = d; b[k] = d;
				MC_CHECK(a.at(k) == d, "tiny-map-at", k);
				try { a.at(keys + 1); mc::fail("tiny-map-at", "at() of a missing key succeeded"); } catch (const std::out_of_range &) {}
			}
			break;
		}
		std::vector<std::pair<int, int>> x(a.begin(), a.end()), y(b.begin(), b.end());
		MC_CHECK(x == y, "tiny-map", "contents differ from std after operation on " << k);
		for (int q = -1; q <= keys; ++q) MC_CHECK(a.count(q) == b.count(q) && (a.find(q) == a.end()) == (b.find(q) == b.end()), "tiny-map-find", q);
		uint64_t h = 1; for (auto & p : y) h = mc::mix(mc::mix(h, p.first), p.second);
		mc::state(h);
	}
	mc::outcome(a.size());
}

void sort_body(int n, int keys) {
	std::vector<int> v;
	for (int i = 0; i < n; ++i) v.push_back(mc::choose(keys));
	std::vector<int> e = v, a = v, b = v;
	std::sort(e.begin(), e.end());
	tiny::sort(a.begin(), a.end());
	tiny::sort(b.begin(), b.end(), std::greater<int>());
	mc::transition();
	MC_CHECK(a == e, "tiny-sort", mc::show(v) << " sorted to " << mc::show(a));
	MC_CHECK(std::equal(b.begin(), b.end(), e.rbegin()), "tiny-sort", mc::show(v) << " sorted to " << mc::show(b));
	mc::outcome(mc::hash_seq(e));
}

void maybe_body(int depth) {
	g_live = 0;
	{
		maybe<tracked> a, b;
		bool ca = false, cb = false;
		for (int d = 0; d < depth; ++d) {
			mc::transition();
			auto expect = [&](bool ok, const char * op, std::function<void()> f) {
				MC_TRACE(op);
				try { f(); MC_CHECK(ok, "maybe-throw", op << " did not throw"); } catch (const maybe_exception &) { MC_CHECK(!ok, "maybe-throw", op << " threw"); }
			};
			switch (mc::choose(6)) {
			case 0: expect(!ca, "construct", [&]() { a.construct(d); ca = true; }); if (ca) MC_CHECK(a.is_constructed(), "maybe", "construct"); break;
			case 1: a.destruct(); ca = false; break;
			case 2: expect(!cb, "construct b", [&]() { b.construct(d); cb = true; }); break;
			case 3: b.destruct(); cb = false; break;
			case 4: expect(!ca && !cb, "assign", [&]() { a = b; }); break;
			case 5: expect(!ca, "copy", [&]() { maybe<tracked> c(a); MC_CHECK(!c.is_constructed(), "maybe", "copy"); }); break;
			}
			MC_CHECK(a.is_constructed() == ca && b.is_constructed() == cb && g_live == int(ca) + int(cb), "maybe-state", g_live << " live");
			if (ca) (*a).alive("deref"), a->alive("deref");
			mc::state(ca * 2 + cb);
		}
		mc::outcome(ca * 2 + cb);
	}
	MC_CHECK(g_live == 0, "maybe-leak", g_live);
}

// The memory a container says it will use covers what it does use
template <typename S, typename F>
void usage_of(const char * name, size_t n, F make) {
	size_t before = get_memory_manager().used();
	{
		auto s = make(n);
		size_t used = get_memory_manager().used() - before + sizeof(S);
		MC_CHECK(S::memory_usage(n) >= used, "memory_usage", name << "(" << n << ") takes " << used << " bytes, memory_usage says " << S::memory_usage(n));
		auto lin = S::memory_usage();
		MC_CHECK(lin(n) >= used, "memory_usage-linear", name << " " << n);
	}
	MC_CHECK(get_memory_manager().used() == before, "memory-released", name << " " << n);
	size_t mem = S::memory_usage(n) + 3;
	MC_CHECK(S::memory_usage(S::memory_fits(mem)) <= mem, "memory_fits", name << ": memory_fits(" << mem << ") is " << S::memory_fits(mem) << " which needs " << S::memory_usage(S::memory_fits(mem)));
	MC_CHECK(S::memory_fits(mem) >= n, "memory_fits-small", name << " " << n);
	mc::transition();
}
void usage_body() {
	int kind = mc::choose(10);
	size_t n = mc::choose(200);
	switch (kind) {
	case 0: usage_of<array<int>>("array<int>", n, [](size_t n) { return array<int>(n); }); break;
	case 1: usage_of<array<tracked>>("array<tracked>", n, [](size_t n) { return array<tracked>(n, tracked(1)); }); break;
	case 2: usage_of<packed_array<bool, 1>>("bit_array", n, [](size_t n) { return packed_array<bool, 1>(n); }); break;
	case 3: usage_of<packed_array<int, 16>>("packed_array<16>", n, [](size_t n) { return packed_array<int, 16>(n); }); break;
	case 4: usage_of<internal_queue<int>>("internal_queue", n, [](size_t n) { return internal_queue<int>(n); }); break;
	case 5: usage_of<internal_stack<int>>("internal_stack", n, [](size_t n) { return internal_stack<int>(n); }); break;
	case 6: usage_of<internal_vector<char>>("internal_vector", n, [](size_t n) { return internal_vector<char>(n); }); break;
	case 7: usage_of<internal_priority_queue<uint64_t>>("internal_priority_queue", n, [](size_t n) { return internal_priority_queue<uint64_t>(n); }); break;
	case 8: usage_of<disjoint_sets<int>>("disjoint_sets", n, [](size_t n) { return disjoint_sets<int>(n); }); break;
	case 9: {
		auto a = array<int>::memory_usage(), b = internal_queue<char>::memory_usage();
		MC_CHECK((a + b)(n) + 1 >= a(n) + b(n) && (a + b)(n) <= a(n) + b(n) + 1, "usage-sum", "usage of both is " << (a + b)(n) << ", of each " << a(n) << " and " << b(n));
		MC_CHECK((a * 3.0)(n) == 3 * a(n) && (a + 5.0)(n) == a(n) + 5, "usage-arith", n);
		break; }
	}
	mc::outcome(mc::mix(kind, n));
}

void add(const std::string & name, const std::string & what, int tiers, std::function<void()> f) {
	mc::suite_t s;
	s.name = name; s.tiers = tiers; s.what = what;
	s.body = [=]() {
		world::config c;
		c.s.reduce = false;
		world::run(c, f);
	};
	mc::add(s);
}

} // unnamed

int main(int argc, char ** argv) {
	using mc::by_tier;
	typedef std::less<tracked> lt;
	struct gt { bool operator()(const tracked & a, const tracked & b) const { return b < a; } };
	add("array", "every history of resize, fill, write, copy, move, swap, construct and view on two arrays of up to 2 elements that track their lifetime", 3, []() { array_body(by_tier(4, 5), 2); });
	add("array_copy", "std::copy in every combination of forward/reverse/const array iterators and vectors, 0-3 elements", 3, copy_body);
	add("array_iterators", "every pair of positions of arrays of up to 9 elements, all four kinds of iterators", 3, []() { iterator_body<array<int>, int>(mc::choose(by_tier(10, 14)), [](int i) { return i * 7; }); });
	add("packed_iterators", "the same for packed arrays of 1, 4, 8 and 32 bits of up to 66 elements", 3, []() {
		int n = mc::choose(by_tier(67, 130));
		switch (mc::choose(4)) {
		case 0: iterator_body<packed_array<bool, 1>, bool>(n, [](int i) { return i % 3 == 0; }); break;
		case 1: iterator_body<packed_array<int, 4>, int>(n, [](int i) { return i * 5 % 16; }); break;
		case 2: iterator_body<packed_array<int, 8>, int>(n, [](int i) { return i * 7 % 256; }); break;
		case 3: iterator_body<packed_array<int, 32>, int>(n, [](int i) { return i * 31; }); break;
		}
	});
	add("bit_array", "every history on bit arrays of 0..128 bits: write any bit, copy, swap, move, ranges", 3, []() { packed_body<bool, 1>(2); });
	add("packed_2", "the same with 2 bits per element", 3, []() { packed_body<uint8_t, 2>(2); });
	add("packed_4", "4 bits", 3, []() { packed_body<uint16_t, 4>(by_tier(2, 3)); });
	add("packed_8", "8 bits", 3, []() { packed_body<uint8_t, 8>(by_tier(3, 4)); });
	add("packed_16", "16 bits", 3, []() { packed_body<uint16_t, 16>(by_tier(3, 4)); });
	add("packed_32", "32 bits", 3, []() { packed_body<uint32_t, 32>(by_tier(3, 5)); });
	add("packed_64", "64 bits", 3, []() { packed_body<uint64_t, 64>(by_tier(3, 5)); });
	add("queue", "every history of push/pop/clear/resize on an internal queue of capacity 1-4", 3, []() { queue_body(by_tier(8, 11)); });
	add("stack_vector", "every history on an internal stack and vector of capacity 1-4, with views and copies", 3, []() { stack_vector_body(by_tier(6, 8)); });
	add("priority_queue", "every history of push, pop, pop_and_push, insert, unsafe_push and clear with three keys", 3, []() { ipq_body<lt>(by_tier(4, 5), 3); });
	add("priority_queue_greater", "the same with the reversed order and two keys", 3, []() { ipq_body<gt>(by_tier(5, 6), 2); });
	add("merge_heap", "every history of push, pop, pop_and_push on pq_merge_heap, capacity 1-6, three keys", 3, []() { merge_heap_body<std::less<int>>(by_tier(7, 9), 3); });
	add("merge_heap_greater", "the same with the reversed order", 3, []() { merge_heap_body<std::greater<int>>(by_tier(6, 8), 3); });
	add("merge_op", "merging every set of 1-3 sorted runs with merge_heap_op", 3, []() { merge_body<ami::merge_heap_op<int>>(by_tier(3, 4), by_tier(3, 4)); });
	add("merge_ptr_op", "merging every set of 1-3 sorted runs with merge_heap_ptr_op", 3, []() { merge_body<ami::merge_heap_ptr_op<int>>(by_tier(3, 4), by_tier(3, 3)); });
	add("overflow_heap", "every history of push, pop and sorted_array on pq_overflow_heap", 3, []() { overflow_body(by_tier(8, 10), 3); });
	add("disjoint_4", "every history of make_set, union_set, find_set on four elements", 3, []() { disjoint_body(4, by_tier(4, 5), false); });
	add("disjoint_link", "the same with link on representatives", 3, []() { disjoint_body(3, by_tier(5, 7), true); });
	add("tiny_set", "every history on two tiny::sets, three keys", 3, []() { tiny_set_body<tiny::set<int>, std::set<int>>(by_tier(5, 6), 3); });
	add("tiny_set_greater", "the same with the reversed order", 3, []() { tiny_set_body<tiny::set<int, std::greater<int>>, std::set<int, std::greater<int>>>(by_tier(5, 6), 3); });
	add("tiny_multiset", "every history on two tiny::multisets, two keys", 3, []() { tiny_set_body<tiny::multiset<int>, std::multiset<int>>(by_tier(5, 6), 2); });
	add("tiny_multiset_greater", "the same with the reversed order", 3, []() { tiny_set_body<tiny::multiset<int, std::greater<int>>, std::multiset<int, std::greater<int>>>(by_tier(5, 6), 2); });
	add("tiny_map", "every history on tiny::map", 3, []() { tiny_map_body<false, std::less<int>>(by_tier(6, 7), 3); });
	add("tiny_multimap", "every history on tiny::multimap", 3, []() { tiny_map_body<true, std::less<int>>(by_tier(6, 7), 3); });
	add("tiny_multimap_greater", "the same with the reversed order", 3, []() { tiny_map_body<true, std::greater<int>>(by_tier(6, 7), 3); });
	add("tiny_sort", "every sequence of 7 items from 4 keys", 3, []() { sort_body(mc::choose(8), 4); });
	add("maybe", "every history on two maybe objects", 3, []() { maybe_body(by_tier(6, 8)); });
	add("memory_usage", "stated against accounted memory of every container, 0..199 elements", 3, usage_body);
	return mc::main(argc, argv);
}
