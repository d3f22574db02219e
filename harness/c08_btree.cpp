// C08: every B-tree flavour agrees with an ordered multiset (ordered trees) or
// a sequence (unordered trees), with exact augmentations.
#include "world.h"
#include <tpie/btree.h>
#include <algorithm>
#include <memory>
#include <vector>

using namespace tpie;

namespace {

struct value {
	int key;
	int id;
	bool operator==(const value & o) const { return key == o.key && id == o.id; }
	bool operator!=(const value & o) const { return !(*this == o); }
};
std::ostream & operator<<(std::ostream & o, const value & v) { return o << v.key << "/" << v.id; }

struct key_of { int operator()(const value & v) const noexcept { return v.key; } };
struct greater_comp { bool operator()(int a, int b) const noexcept { return b < a; } };
struct less_comp { bool operator()(int a, int b) const noexcept { return a < b; } };

struct aug_t { uint64_t n, sum; };
struct augmenter {
	template <typename N>
	aug_t operator()(const N & node) {
		aug_t a = {0, 0};
		for (size_t i = 0; i < node.count(); ++i) {
			if (node.is_leaf()) { ++a.n; a.sum += node.value(i).id; }
			else { const aug_t & c = node.get_augmentation(i); a.n += c.n; a.sum += c.sum; }
		}
		return a;
	}
};

struct shape { bool fill = true; size_t a = 0, b = 0; };

template <typename Tree, bool augmented, bool ordered, typename Comp>
struct inspect {
	const Tree & t;
	shape sh;
	std::vector<value> out;
	int leaf_depth = -1;
	Comp comp;

	aug_t walk(typename Tree::node_type n, int depth, bool root, int & min_key) {
		size_t c = n.count();
		MC_CHECK(c > 0, "empty-node", "a node without children or values");
		if (sh.b) MC_CHECK(c <= sh.b, "overfull", "a node with " << c << " entries, at most " << sh.b << " allowed");
		if (sh.fill && sh.a) MC_CHECK(root ? n.is_leaf() || c >= 2 : c >= sh.a, "underfull", "a node with " << c << " entries, at least " << sh.a << " required");
		MC_CHECK(n.has_parent() == !root, "has_parent", "wrong at depth " << depth);
		aug_t a = {0, 0};
		for (size_t i = 0; i < c; ++i) {
			int k = 0;
			if (n.is_leaf()) {
				const value v = n.value(i);
				out.push_back(v);
				++a.n; a.sum += v.id;
				k = v.key;
			} else {
				auto ch = n.get_child(i);
				MC_CHECK(ch.index() == i, "index", "child " << i << " says index " << ch.index());
				auto back = ch.get_parent();
				MC_CHECK(back.count() == c && back.is_leaf() == false, "parent", "parent of child " << i << " is another node");
				aug_t x = walk(ch, depth + 1, false, k);
				augcheck(n, i, x, std::integral_constant<bool, augmented>());
				a.n += x.n; a.sum += x.sum;
			}
			keycheck(n, i, k, std::integral_constant<bool, ordered>());
			if (i == 0) min_key = k;
		}
		if (n.is_leaf()) {
			MC_CHECK(leaf_depth == -1 || leaf_depth == depth, "balance", "leaves at depth " << depth << " and " << leaf_depth);
			leaf_depth = depth;
		}
		return a;
	}
	template <typename N> void augcheck(N & n, size_t i, aug_t x, std::true_type) {
		const aug_t & s = n.get_augmentation(i);
		MC_CHECK(s.n == x.n && s.sum == x.sum, "augment", "stored augmentation (" << s.n << "," << s.sum << "), recomputed (" << x.n << "," << x.sum << ")");
	}
	template <typename N> void augcheck(N &, size_t, aug_t, std::false_type) {}
	template <typename N> void keycheck(N & n, size_t i, int k, std::true_type) {
		MC_CHECK(n.min_key(i) == k, "min_key", "min_key(" << i << ") is " << n.min_key(i) << ", smallest key below is " << k);
	}
	template <typename N> void keycheck(N &, size_t, int, std::false_type) {}
};

template <typename Tree, bool augmented, bool ordered, typename Comp>
std::vector<value> contents(const Tree & t, shape sh) {
	inspect<Tree, augmented, ordered, Comp> in{t, sh, {}, -1, Comp()};
	if (!t.empty()) { int k; in.walk(t.root(), 0, true, k); }
	// iterators agree with the walk, in both directions
	std::vector<value> f, b;
	size_t guard = in.out.size() + 2;
	for (auto i = t.begin(), e = t.end(); i != e && f.size() < guard; ++i) f.push_back(*i);
	MC_CHECK(f == in.out, "iterate", "iteration gives " << mc::show(f) << ", the nodes hold " << mc::show(in.out));
	auto i = t.end();
	for (size_t k = 0; k < in.out.size(); ++k) { --i; b.push_back(*i); }
	MC_CHECK(i == t.begin(), "iterate-back", "not at begin after going back over all values");
	std::reverse(b.begin(), b.end());
	MC_CHECK(b == in.out, "iterate-back", "backward iteration gives " << mc::show(b) << ", the nodes hold " << mc::show(in.out));
	MC_CHECK(t.size() == in.out.size(), "size", "size() " << t.size() << " for " << in.out.size() << " values");
	MC_CHECK(t.empty() == in.out.empty(), "empty", "empty() wrong");
	return in.out;
}

template <typename Tree, typename Comp>
void lookups(const Tree & t, const std::vector<value> & s, std::true_type) {
	Comp c;
	for (size_t i = 1; i < s.size(); ++i) MC_CHECK(!c(s[i].key, s[i - 1].key), "order", "values out of order: " << mc::show(s));
	std::vector<int> keys;
	for (auto & v : s) { keys.push_back(v.key); keys.push_back(v.key + 1); keys.push_back(v.key - 1); }
	keys.push_back(0);
	std::sort(keys.begin(), keys.end());
	keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
	auto at = [&](typename Tree::iterator i, size_t pos, const char * what, int k) {
		if (pos == s.size()) MC_CHECK(i == t.end(), what, what << " " << k << " should be end() in " << mc::show(s));
		else MC_CHECK(i != t.end() && *i == s[pos], what, what << " " << k << " should be value " << pos << " of " << mc::show(s));
	};
	for (int k : keys) {
		size_t lo = 0, hi = 0;
		while (lo < s.size() && c(s[lo].key, k)) ++lo;
		while (hi < s.size() && !c(k, s[hi].key)) ++hi;
		at(t.lower_bound(k), lo, "lower_bound", k);
		at(t.upper_bound(k), hi, "upper_bound", k);
		at(t.find(k), lo < hi ? lo : s.size(), "find", k);
	}
}
template <typename Tree, typename Comp>
void lookups(const Tree &, const std::vector<value> &, std::false_type) {}

template <typename Tree>
typename Tree::iterator nth(const Tree & t, size_t n) {
	auto i = t.begin();
	while (n--) ++i;
	return i;
}

template <bool aug, bool ordered, typename Comp, typename... O>
struct flavour {
	typedef typename std::conditional<aug,
		typename std::conditional<ordered, btree<value, btree_key<key_of>, btree_comp<Comp>, btree_augment<augmenter>, O...>, btree<value, btree_unordered, btree_augment<augmenter>, O...>>::type,
		typename std::conditional<ordered, btree<value, btree_key<key_of>, btree_comp<Comp>, O...>, btree<value, btree_unordered, O...>>::type>::type tree;
	typedef typename std::conditional<aug,
		typename std::conditional<ordered, btree_builder<value, btree_key<key_of>, btree_comp<Comp>, btree_augment<augmenter>, O...>, btree_builder<value, btree_unordered, btree_augment<augmenter>, O...>>::type,
		typename std::conditional<ordered, btree_builder<value, btree_key<key_of>, btree_comp<Comp>, O...>, btree_builder<value, btree_unordered, O...>>::type>::type builder;
	typedef Comp comp;
	static const bool is_aug = aug, is_ordered = ordered;
};

// the key order of a comparator: rank r (0 first) -> key
template <typename Comp> int rank_key(int r) { return Comp()(0, 1) ? r : -r; }

/// Dynamic trees: histories of inserts and erases at every position.
template <typename F, bool external>
struct dynamic {
	typedef typename F::tree tree;
	typedef typename F::builder builder;
	typedef std::integral_constant<bool, F::is_ordered> ord;
	std::unique_ptr<tree> t;
	std::vector<value> m;
	int next_id = 1;
	shape sh;
	std::string path = world::path("btree");
	size_t maxh = 0;

	void open(std::true_type) { t.reset(new tree(path)); }
	void open(std::false_type) { t.reset(new tree()); }
	std::unique_ptr<builder> mkb(std::true_type) { return std::unique_ptr<builder>(new builder(path)); }
	std::unique_ptr<builder> mkb(std::false_type) { return std::unique_ptr<builder>(new builder()); }
	typedef std::integral_constant<bool, external> ext;

	void check() {
		mc::transition();
		std::vector<value> s = contents<tree, F::is_aug, F::is_ordered, typename F::comp>(*t, sh);
		lookups<tree, typename F::comp>(*t, s, ord());
		if (F::is_ordered) {
			// equal keys may come in any order
			auto canon = [](std::vector<value> v) { std::sort(v.begin(), v.end(), [](const value & a, const value & b) { return a.id < b.id; }); return v; };
			MC_CHECK(canon(s) == canon(m), "content", "tree holds " << mc::show(s) << ", model " << mc::show(m));
			m = s;
		} else MC_CHECK(s == m, "content", "tree holds " << mc::show(s) << ", model " << mc::show(m));
		uint64_t h = 3;
		for (auto & v : s) h = mc::mix(h, v.key);
		mc::state(h);
	}
	void ins(int k, size_t pos, std::true_type) { (void)pos; t->insert(value{k, next_id}); }
	void ins(int k, size_t pos, std::false_type) { t->insert_before(value{k, next_id}, pos == m.size() ? t->end() : nth(*t, pos)); }
	void insert(int k, size_t pos) {
		MC_TRACE("insert " << k << "/" << next_id << " at " << pos);
		ins(k, pos, ord());
		m.insert(m.begin() + pos, value{k, next_id++});
	}
	void erase(size_t pos) {
		MC_TRACE("erase value " << pos << " of " << m.size());
		t->erase(nth(*t, pos));
		m.erase(m.begin() + pos);
	}
	void erase_key(int k, std::true_type) {
		MC_TRACE("erase key " << k);
		size_t n = t->erase(k), e = 0;
		for (size_t i = 0; i < m.size();) if (m[i].key == k) { m.erase(m.begin() + i); ++e; } else ++i;
		MC_CHECK(n == e, "erase-count", "erase(" << k << ") removed " << n << ", model " << e);
	}
	void erase_key(int, std::false_type) {}
	void reopen(std::true_type) { MC_TRACE("close and reopen"); t.reset(); open(ext()); }
	void reopen(std::false_type) {}
	void open() { open(ext()); }

	/// way 0: ascending inserts, 1: descending inserts, 2: builder, 3: inserts then erase every other
	void prefill(int n, int way) {
		MC_TRACE("prefill " << n << " values, way " << way);
		auto key = [&](int i) { return rank_key<typename F::comp>((i + 1) * 16); };
		if (way == 2) {
			auto b = mkb(ext());
			for (int i = 0; i < n; ++i) { b->push(value{key(i), next_id}); m.push_back(value{key(i), next_id++}); }
			t.reset(new tree(b->build()));
		} else {
			open();
			if (way == 0) for (int i = 0; i < n; ++i) insert(key(i), i);
			else if (way == 1) for (int i = n; i-- > 0;) insert(key(i), 0);
			else {
				for (int i = 0; i < 2 * n; ++i) insert(key(i), i);
				for (int i = 0; i < n; ++i) erase(i);
			}
		}
		check();
	}
	/// insert at / erase from every position
	void positions(int maxn, int depth, int ways, int minn = 0) {
		int n = minn + mc::choose(maxn + 1 - minn);
		prefill(n, mc::choose(ways));
		for (int d = 0; d < depth; ++d) {
			int z = m.size();
			int o = mc::choose(2 * z + 1 + (external ? 1 : 0));
			if (o <= z) {
				// a key between its neighbours (possibly equal to the left one)
				int s = rank_key<typename F::comp>(1);
				int l = o == 0 ? 0 : s * m[o - 1].key, r = o == z ? l + 32 : s * m[o].key;
				insert(s * ((l + r) / 2), o);
			} else if (o <= 2 * z) erase(o - z - 1);
			else reopen(ext());
			check();
		}
		reopen(ext());
		check();
		mc::outcome(mc::mix(m.size(), next_id));
	}
	/// histories over few keys, with duplicates
	void duplicates(int keys, int depth, int base) {
		open();
		int n = mc::choose(base + 1);
		MC_TRACE("prefill " << n << " equal keys");
		for (int i = 0; i < n; ++i) insert(rank_key<typename F::comp>(2), 0);
		check();
		for (int d = 0; d < depth; ++d) {
			int z = m.size();
			int o = mc::choose(2 * keys + z);
			if (o < keys) insert(rank_key<typename F::comp>(1 + o), 0);
			else if (o < 2 * keys) erase_key(rank_key<typename F::comp>(1 + o - keys), ord());
			else erase(o - 2 * keys);
			check();
		}
		mc::outcome(mc::mix(m.size(), next_id));
	}
	/// empty it completely in every order
	void drain(int n) {
		prefill(n, mc::choose(3));
		while (!m.empty()) { erase(mc::choose(m.size())); check(); }
		insert(rank_key<typename F::comp>(5), 0);
		check();
	}
};

/// Static trees: every bulk-load size.
template <typename F, bool internal_, bool serialized>
struct bulk {
	typedef typename F::tree tree;
	typedef typename F::builder builder;
	typedef std::integral_constant<bool, F::is_ordered> ord;
	std::string path = world::path("btree");

	std::unique_ptr<builder> mkb(btree_flags, std::true_type) { return std::unique_ptr<builder>(new builder()); }
	std::unique_ptr<builder> mkb(btree_flags f, std::false_type) { return std::unique_ptr<builder>(new builder(path, typename tree::comp_type(), typename tree::augmenter_type(), f)); }
	std::unique_ptr<tree> reopen(std::true_type) { return nullptr; }
	std::unique_ptr<tree> reopen(std::false_type) { return std::unique_ptr<tree>(new tree(path)); }

	void run(int lo, int n, shape sh, btree_flags flags) {
		int z = lo + mc::choose(n);
		int dup = mc::choose(2) ? 3 : 1;   // runs of equal keys
		int meta = serialized ? mc::choose(3) : 0;
		MC_TRACE("bulk load " << z << " values" << (dup > 1 ? ", runs of 3 equal keys" : "") << (meta ? ", metadata" : ""));
		std::string md = meta == 1 ? std::string("hello") : std::string(40, 'x');
		std::vector<value> m;
		auto b = mkb(flags, std::integral_constant<bool, internal_>());
		for (int i = 0; i < z; ++i) {
			m.push_back(value{rank_key<typename F::comp>((i / dup + 1) * 2), i + 1});
			b->push(m.back());
			mc::transition();
		}
		std::unique_ptr<tree> t(new tree(meta ? b->build(md) : b->build()));
		b.reset();
		auto check = [&](const char * what) {
			MC_TRACE("check " << what);
			if (serialized) for (int k = 0; k < 2; ++k) {
				std::string g = t->get_metadata();
				MC_CHECK(g == (meta ? md : std::string()), "metadata", "metadata read back wrong " << what);
				if (k == 0) { std::vector<value> s = contents<tree, F::is_aug, F::is_ordered, typename F::comp>(*t, sh); }
			}
			std::vector<value> s = contents<tree, F::is_aug, F::is_ordered, typename F::comp>(*t, sh);
			MC_CHECK(s == m, "content", "tree of " << z << " holds " << mc::show(s) << ", pushed " << mc::show(m));
			lookups<tree, typename F::comp>(*t, s, ord());
		};
		check("after building");
		if (!internal_) {
			t.reset();
			t = reopen(std::integral_constant<bool, internal_>());
			check("after reopening");
		}
		mc::state(mc::mix(z, dup));
		mc::outcome(z);
	}
};

void add(const std::string & name, const std::string & what, int tiers, std::function<void()> f) {
	mc::suite_t s;
	s.name = name; s.tiers = tiers; s.what = what;
	s.body = [=]() {
		world::config c;
		c.block_size = 1024;
		c.s.reduce = false;
		world::run(c, f);
		mc::clean_scratch();
	};
	mc::add(s);
}

typedef btree_fanout<2, 4> fan;

template <typename F, bool external>
void add_dynamic(const std::string & name, const std::string & kind, shape sh, int q_n, int t_n, int q_d, int t_d) {
	for (int th = 0; th < 2; ++th) {
		int n = th ? t_n : q_n;
		std::string suf = th ? "_deep" : "";
		int tiers = th ? 2 : 1;
		add(name + suf, mc::strm() << kind << ": from every size up to " << n << " (built by ascending inserts, descending inserts, bulk load, inserts and erases), every history of "
			<< 2 << " inserts at / erases from every position" << (external ? ", reopening" : ""), tiers,
			[=]() { dynamic<F, external> d; d.sh = sh; d.positions(n, 2, 4); });
		int m = external ? 5 : 7, dd = th ? t_d : q_d;
		add(name + "_history" + suf, mc::strm() << kind << ": from every size up to " << m << ", every history of " << dd << " inserts at / erases from every position", tiers,
			[=]() { dynamic<F, external> d; d.sh = sh; d.positions(m, dd, 1); });
		if (F::is_ordered)
			add(name + "_duplicates" + suf, mc::strm() << kind << ": from 0..9 equal keys, every history of " << dd << " inserts of / erases of 3 keys and erases of every position", tiers,
				[=]() { dynamic<F, external> d; d.sh = sh; d.duplicates(3, dd, 9); });
	}
	int z = external ? 6 : 7;
	add(name + "_drain", mc::strm() << kind << ": trees of up to " << z << " values emptied in every order", 3, [=]() { dynamic<F, external> d; d.sh = sh; d.drain(1 + mc::choose(z)); });
}

template <typename F, bool internal_, bool serialized>
void add_bulk(const std::string & name, const std::string & kind, shape sh, int lo, int n, btree_flags flags = btree_flags::defaults, int tiers = 3) {
	add(name, mc::strm() << kind << ": bulk load of every size from " << lo << " to " << lo + n - 1 << ", distinct keys and runs of equal keys" << (serialized ? ", with and without metadata" : "")
		<< (internal_ ? "" : ", before and after reopening"), tiers, [=]() { bulk<F, internal_, serialized> b; b.run(lo, n, sh, flags); });
}

shape sh(size_t a, size_t b, bool fill = true) { shape s; s.fill = fill; s.a = a; s.b = b; return s; }

} // unnamed

int main(int argc, char ** argv) {
	add_dynamic<flavour<true, true, less_comp, btree_internal, fan>, false>("internal_aug", "internal ordered augmented tree, fan-out 2-4", sh(2, 4), 36, 60, 4, 6);
	add_dynamic<flavour<false, true, greater_comp, btree_internal, fan>, false>("internal", "internal ordered tree, reversed order, fan-out 2-4", sh(2, 4), 28, 40, 4, 5);
	add_dynamic<flavour<true, false, less_comp, btree_internal, fan>, false>("internal_unordered", "internal unordered augmented tree, fan-out 2-4", sh(2, 4), 28, 40, 4, 5);
	add_dynamic<flavour<true, true, less_comp, btree_internal, btree_fanout<3, 6>>, false>("internal_3_6", "internal ordered augmented tree, fan-out 3-6", sh(3, 6), 28, 50, 4, 5);
	add_dynamic<flavour<true, true, less_comp, btree_external, fan>, true>("external_aug", "external ordered augmented tree, fan-out 2-4", sh(2, 4), 24, 40, 4, 5);
	add_dynamic<flavour<false, true, less_comp, btree_external, fan, btree_blocksize<136>>, true>("external_small", "external ordered tree, fan-out 2-4, 136-byte blocks", sh(2, 4), 20, 36, 3, 4);
	add_dynamic<flavour<true, false, less_comp, btree_external, fan>, true>("external_unordered", "external unordered augmented tree, fan-out 2-4", sh(2, 4), 20, 36, 3, 4);
	add("external_evict", "external ordered augmented tree, fan-out 2-4, more nodes than the 32-block cache: from every size from 70 to 76 (quick) or 90 built by ascending or descending inserts or bulk load, every insert at / erase from every position", 3,
		[]() { dynamic<flavour<true, true, less_comp, btree_external, fan>, true> d; d.sh = sh(2, 4); d.positions(mc::by_tier(76, 90), 1, 3, 70); });
	add_bulk<flavour<true, true, less_comp, btree_internal, btree_static, fan>, true, false>("bulk_internal", "internal static augmented tree, fan-out 2-4", sh(2, 4, false), 0, 150);
	add_bulk<flavour<false, false, less_comp, btree_internal, btree_static, fan>, true, false>("bulk_internal_unordered", "internal static unordered tree, fan-out 2-4", sh(2, 4, false), 0, 100);
	add_bulk<flavour<true, true, less_comp, btree_internal, fan>, true, false>("bulk_internal_dynamic", "internal dynamic augmented tree, fan-out 2-4", sh(2, 4), 0, 200);
	add_bulk<flavour<true, true, less_comp, btree_internal, btree_fanout<3, 7>>, true, false>("bulk_internal_dynamic_3_7", "internal dynamic augmented tree, fan-out 3-7", sh(3, 7), 0, 250);
	add_bulk<flavour<true, true, greater_comp, btree_external, btree_static, fan>, false, false>("bulk_external", "external static augmented tree, fan-out 2-4", sh(2, 4, false), 0, 100);
	add_bulk<flavour<true, true, less_comp, btree_external, fan>, false, false>("bulk_external_dynamic", "external dynamic augmented tree, fan-out 2-4", sh(2, 4), 0, 100);
	add_bulk<flavour<true, true, less_comp, btree_external, btree_static>, false, false>("bulk_external_default", "external static augmented tree, default fan-out", sh(0, 0), 860, 30);
	typedef flavour<true, true, less_comp, btree_external, btree_static, btree_serialized, btree_fanout<3, 4>> ser;
	add_bulk<ser, false, true>("bulk_serialized", "serialized augmented tree, 3 children, 4 values per node, uncompressed", sh(0, 4), 0, 120, btree_flags::compress_none);
	add_bulk<ser, false, true>("bulk_serialized_lz4", "the same with lz4", sh(0, 4), 0, 60, btree_flags::compress_lz4);
	add_bulk<ser, false, true>("bulk_serialized_snappy", "the same with snappy", sh(0, 4), 0, 60, btree_flags::compress_snappy);
	add_bulk<ser, false, true>("bulk_serialized_zstd", "the same with zstd", sh(0, 4), 0, 60, btree_flags::compress_zstd | btree_flags::compress_level_3);
	add_bulk<flavour<false, true, less_comp, btree_external, btree_static, btree_serialized, btree_blocksize<96>>, false, true>("bulk_serialized_blocks", "serialized tree, 96-byte blocks", sh(0, 0), 0, 120, btree_flags::compress_none);
	add_bulk<flavour<false, false, less_comp, btree_external, btree_static, btree_serialized, btree_fanout<3, 4>>, false, true>("bulk_serialized_unordered", "serialized unordered tree", sh(0, 4), 0, 60, btree_flags::compress_none);
	return mc::main(argc, argv);
}
