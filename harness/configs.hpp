// Tree configurations under test.  Every configuration uses different type parameters, so that objects compiled with and
// without safety checks can be linked together.
#pragma once

#include "bpptree/bpptree.hpp"
#include "bpptree/indexed.hpp"
#include "bpptree/max.hpp"
#include "bpptree/min.hpp"
#include "bpptree/ordered.hpp"
#include "bpptree/summed.hpp"
#include "machine.hpp"

namespace pbt {
using namespace bpptree;

#ifdef BPPTREE_SAFETY_CHECKS
constexpr bool safety_on = true;
#else
constexpr bool safety_on = false;
#endif

struct CBase {
    static constexpr bool ordered = false, indexed = false, summed = false, minned = false, maxed = false, safety = safety_on;
    static constexpr bool key_sub = false, idx_sub = false, noexc = false;
    static constexpr bool upd_key = true;       // update_key needs an extractor that can put an element together from a key and a value
    static constexpr size_t soft_cap = 1200;
    // start from a tree that was grown to so many elements, with as many levels as they can have or full, and then thinned out
    static constexpr size_t base_grow = 0, base_keep = 0;
    static constexpr bool base_deep = false;
    static constexpr uint32_t max_steps = 1000;
    using Size = size_t;
    using Sum = int64_t;
    static bool kless(int64_t a, int64_t b) { return a < b; }
    static int64_t sum_of(Rep const&) { return 0; }
    // sums may be of fractions of sum_of
    template <typename S> static int64_t sum_int(S const& x) { return static_cast<int64_t>(x); }
    template <typename S> static S sum_from(int64_t x) { return static_cast<S>(x); }
    static int64_t min_of(Rep const& r) { return r.v; }
    static int64_t max_of(Rep const& r) { return r.v; }
    static bool min_less(int64_t a, int64_t b) { return a < b; }
    static bool max_less(int64_t a, int64_t b) { return b < a; }
};

#if defined(CFG_vec)
// a vector with every positional mixin and tiny nodes
namespace { struct Cfg : CBase {
    static constexpr char const* name = "vec: int32, indexed+summed+min+max, 40/136 byte nodes, linear";
    using VK = KInt<int32_t>;
    using Tree = BppTree<int32_t, 40, 136, 5>::mixins<IndexedBuilder<>, SummedBuilder<>, MinBuilder<>, MaxBuilder<>>;
    static constexpr bool indexed = true, summed = true, minned = true, maxed = true, idx_sub = true;
    using Sum = int32_t;
    static int64_t sum_of(Rep const& r) { return r.v; }
}; }
#define CFG_NAME "vec"
#elif defined(CFG_map)
namespace { struct Cfg : CBase {
    static constexpr char const* name = "map: pair<int32,int32>, ordered+indexed+summed+min+max, tiny nodes, linear search";
    using VK = KPair;
    using Tree = BppTree<std::pair<int32_t, int32_t>, 48, 168, 5>::mixins<OrderedBuilder<>, IndexedBuilder<>, SummedBuilder<PairExtractor<1>>, MinBuilder<PairExtractor<1>>, MaxBuilder<PairExtractor<1>>>;
    static constexpr bool ordered = true, indexed = true, summed = true, minned = true, maxed = true;
    using Sum = int32_t;
    static int64_t sum_of(Rep const& r) { return r.v; }
}; }
#define CFG_NAME "map"
#elif defined(CFG_omap)
// key subscript, no index; binary search; default leaf, small internal
namespace { struct Cfg : CBase {
    static constexpr char const* name = "omap: pair<int32,int32>, BppTreeMap with binary search, 72/80 byte nodes";
    using VK = KPair;
    using Tree = BppTreeMap<int32_t, int32_t>::binary_search<true>::leaf_node_bytes<72>::internal_node_bytes<80>::depth_limit<6>::mixins<>;
    static constexpr bool ordered = true, key_sub = true;
}; }
#define CFG_NAME "omap"
#elif defined(CFG_mapstr)
namespace { struct Cfg : CBase {
    static constexpr char const* name = "mapstr: pair<string,string>, ordered (binary)+summed(int64 parsed)+min, small nodes";
    using VK = KStr;
    using Tree = BppTree<std::pair<std::string, std::string>, 208, 400, 5>::mixins<OrderedBuilder<>::binary_search<true>, SummedBuilder<SumSecond>, MinBuilder<PairExtractor<1>>>;
    static constexpr bool ordered = true, summed = true, minned = true, key_sub = true;
    static constexpr size_t soft_cap = 400;
    static int64_t sum_of(Rep const& r) { return r.v; }
}; }
#define CFG_NAME "mapstr"
#elif defined(CFG_set)
namespace { struct Cfg : CBase {
    static constexpr char const* name = "set: int64 in descending order, binary search, ordered+summed+min";
    using VK = KInt<int64_t>;
    using Tree = BppTreeSet<int64_t, detail::MaxComparator>::binary_search<true>::leaf_node_bytes<48>::internal_node_bytes<136>::depth_limit<5>::mixins<SummedBuilder<>, MinBuilder<>>;
    static constexpr bool ordered = true, summed = true, minned = true, key_sub = true;
    static bool kless(int64_t a, int64_t b) { return b < a; }
    static int64_t sum_of(Rep const& r) { return r.v; }
}; }
#define CFG_NAME "set"
#elif defined(CFG_deque)
namespace { struct Cfg : CBase {
    static constexpr char const* name = "deque: lifetime-tracked elements, no mixins, 80/48 byte nodes";
    using VK = KTrk1;
    using Tree = BppTree<Tracked, 88, 48, 6>::mixins<>;
    static constexpr size_t soft_cap = 300;
}; }
#define CFG_NAME "deque"
#elif defined(CFG_trk)
namespace { struct Cfg : CBase {
    static constexpr char const* name = "trk: pair of lifetime-tracked elements, ordered+indexed+min+summed, sums that own memory, small nodes";
    using VK = KTrk;
    using Tree = BppTree<std::pair<Tracked, Tracked>, 208, 360, 4>::mixins<OrderedBuilder<>, IndexedBuilder<>, MinBuilder<PairExtractor<1>>, SummedBuilder<SumAmount>>;
    static constexpr bool ordered = true, indexed = true, minned = true, summed = true;
    using Sum = Amount;
    static int64_t sum_of(Rep const& r) { return r.v; }
    static constexpr size_t soft_cap = 300;
}; }
#define CFG_NAME "trk"
#elif defined(CFG_big)
namespace { struct Cfg : CBase {
    static constexpr char const* name = "big: 184 byte elements, one per leaf, indexed+summed+max";
    using VK = KBig;
    using Tree = BppTree<Big, 200, 128, 6>::mixins<SummedBuilder<BigVal>, MaxBuilder<BigVal>, IndexedBuilder<uint32_t>>;
    static constexpr bool indexed = true, summed = true, maxed = true;
    static constexpr size_t soft_cap = 300;
    using Size = uint32_t;
    static int64_t sum_of(Rep const& r) { return r.v; }
}; }
#define CFG_NAME "big"
#elif defined(CFG_u8)
namespace { struct Cfg : CBase {
    static constexpr char const* name = "u8: uint8 elements, summed(uint32)+min+max+indexed(uint32), 24/120 byte nodes";
    using VK = KInt<uint8_t>;
    using Tree = BppTree<uint8_t, 17, 120, 6>::mixins<SummedBuilder<detail::CastingExtractor<uint32_t>>, MaxBuilder<>, MinBuilder<>, IndexedBuilder<uint32_t>>;
    static constexpr bool indexed = true, summed = true, minned = true, maxed = true, idx_sub = true;
    using Size = uint32_t;
    using Sum = uint32_t;
    static int64_t sum_of(Rep const& r) { return r.v; }
}; }
#define CFG_NAME "u8"
#elif defined(CFG_i16)
// no exceptions, no safety checks: positional tree with a greatest-first min
namespace { struct Cfg : CBase {
    static constexpr char const* name = "i16: int16 elements, no safety checks, exceptions disabled, min by descending order+indexed+summed(int64)";
    using VK = KInt<int16_t>;
    using Tree = BppTree<int16_t, 26, 136, 7, true>::mixins<MinBuilder<>::compare<detail::MaxComparator>, IndexedBuilder<>, SummedBuilder<detail::CastingExtractor<int64_t>>>;
    static constexpr bool indexed = true, summed = true, minned = true, idx_sub = true, noexc = true;
    static constexpr size_t soft_cap = 600;
    static bool min_less(int64_t a, int64_t b) { return b < a; }
    static int64_t sum_of(Rep const& r) { return r.v; }
}; }
#define CFG_NAME "i16"
#elif defined(CFG_dflt)
namespace { struct Cfg : CBase {
    static constexpr char const* name = "dflt: int32, default 512 byte nodes, indexed+summed+min+max";
    using VK = KInt<int32_t>;
    using Tree = BppTree<int32_t, 512, 512, 4>::mixins<IndexedBuilder<>, SummedBuilder<detail::CastingExtractor<int64_t>>, MinBuilder<>, MaxBuilder<>>;
    static constexpr bool indexed = true, summed = true, minned = true, maxed = true, idx_sub = true;
    static constexpr size_t soft_cap = 5000;
    static int64_t sum_of(Rep const& r) { return r.v; }
}; }
#define CFG_NAME "dflt"
#elif defined(CFG_dfltmap)
namespace { struct Cfg : CBase {
    static constexpr char const* name = "dfltmap: BppTreeMap<int32,int32> with default 512 byte nodes, no safety checks, +indexed+summed(double, quarters)";
    using VK = KPair;
    using Tree = BppTreeMap<int32_t, int32_t>::depth_limit<4>::mixins<SummedBuilder<Quarters>, IndexedBuilder<>>;
    static constexpr bool ordered = true, indexed = true, summed = true;
    using Sum = double;
    template <typename S> static int64_t sum_int(S const& x) { return static_cast<double>(static_cast<int64_t>(x * 4)) == x * 4 ? static_cast<int64_t>(x * 4) : -987654330; }
    template <typename S> static S sum_from(int64_t x) { return static_cast<S>(x) / 4; }
    static constexpr size_t soft_cap = 5000;
    static int64_t sum_of(Rep const& r) { return r.v; }
}; }
#define CFG_NAME "dfltmap"
#elif defined(CFG_ptr)
namespace { struct Cfg : CBase {
    static constexpr char const* name = "ptr: shared_ptr elements ordered by pointers to strings they own, binary search, custom extractors and comparator, +indexed+max+min of the same pointers";
    using VK = KPtr;
    using Tree = BppTree<RecPtr, 88, 200, 5>::mixins<MaxBuilder<PtrVal>, OrderedBuilder<PtrExtractor, PtrLess>::binary_search<true>, MinBuilder<PtrExtractor, PtrLess>, IndexedBuilder<>>;
    static constexpr bool ordered = true, indexed = true, maxed = true, minned = true;
    static constexpr size_t soft_cap = 300;
    static int64_t min_of(Rep const& r) { return r.k; }
}; }
#define CFG_NAME "ptr"
#elif defined(CFG_tuple)
namespace { struct Cfg : CBase {
    static constexpr char const* name = "tuple: (value, key) tuples ordered by their second field, permuted mixins, no safety checks";
    using VK = KTuple;
    using Tree = BppTree<std::tuple<int64_t, uint32_t>, 80, 180, 7>::mixins<SummedBuilder<TupleExtractor<0>>, MinBuilder<TupleExtractor<0>>, OrderedBuilder<TupleExtractor<1>>, IndexedBuilder<>>;
    static constexpr bool ordered = true, indexed = true, summed = true, minned = true;
    static constexpr size_t soft_cap = 600;
    static int64_t sum_of(Rep const& r) { return r.v; }
}; }
#define CFG_NAME "tuple"
#elif defined(CFG_shallow)
// the depth limit is reached quickly
namespace { struct Cfg : CBase {
    static constexpr char const* name = "shallow: tuple<int32 key, int64>, depth limit 2, ordered+min+sum";
    using VK = KTup;
    using Tree = BppTree<std::tuple<int32_t, int64_t>, 72, 150, 2>::mixins<OrderedBuilder<>::extractor<TupleExtractor<0>>, MinBuilder<TupleExtractor<1>>, SummedBuilder<TupleExtractor<1>>>;
    static constexpr bool ordered = true, minned = true, summed = true, key_sub = true;
    static int64_t sum_of(Rep const& r) { return r.v; }
}; }
#define CFG_NAME "shallow"
#elif defined(CFG_shallowv)
namespace { struct Cfg : CBase {
    static constexpr char const* name = "shallowv: int64, depth limit 3, indexed(int32)+max";
    using VK = KInt<int64_t>;
    using Tree = BppTree<int64_t, 24, 136, 3>::mixins<IndexedBuilder<int32_t>, MaxBuilder<>>;
    static constexpr bool indexed = true, maxed = true, idx_sub = true;
    using Size = int32_t;
}; }
#define CFG_NAME "shallowv"
#elif defined(CFG_rpair)
namespace { struct Cfg : CBase {
    static constexpr char const* name = "rpair: pair<int64 value, int32 key> ordered by the second field, descending, key subscript, 64/96 byte nodes, +max+sum";
    using VK = KRPair;
    using Tree = BppTree<std::pair<int64_t, int32_t>, 64, 120, 6>::mixins<OrderedBuilder<>::extractor<PairExtractor<1>>::compare<detail::MaxComparator>, MaxBuilder<PairExtractor<0>>, SummedBuilder<PairExtractor<0>>>;
    static constexpr bool ordered = true, maxed = true, summed = true, key_sub = true;
    static bool kless(int64_t a, int64_t b) { return b < a; }
    static int64_t sum_of(Rep const& r) { return r.v; }
}; }
#define CFG_NAME "rpair"
#elif defined(CFG_triple)
namespace { struct Cfg : CBase {
    static constexpr char const* name = "triple: tuple<int32, string, int32 key> ordered by the third field, binary search, min and max of different fields, indexed(uint16)";
    using VK = KTriple;
    using Tree = BppTree<std::tuple<int32_t, std::string, int32_t>, 160, 240, 5>::mixins<MinBuilder<TupleExtractor<0>>, MaxBuilder<TupleExtractor<2>>, IndexedBuilder<uint16_t>, OrderedBuilder<>::binary_search<true>::extractor<TupleExtractor<2>>>;
    static constexpr bool ordered = true, indexed = true, minned = true, maxed = true, upd_key = false;
    static constexpr size_t soft_cap = 500;
    using Size = uint16_t;
    static int64_t max_of(Rep const& r) { return r.k; }
}; }
#define CFG_NAME "triple"
#elif defined(CFG_deep)
// iterator positions of more than 32 bits
namespace { struct Cfg : CBase {
    static constexpr char const* name = "deep: pair<int32,int32>, two per leaf, four children, 13 levels, sparse nodes, ordered+indexed";
    using VK = KPair;
    using Tree = BppTree<std::pair<int32_t, int32_t>, 24, 80, 14>::mixins<OrderedBuilder<>, IndexedBuilder<int32_t>>;
    static constexpr bool ordered = true, indexed = true;
    static constexpr size_t soft_cap = 600, base_grow = 9000, base_keep = 300;
    static constexpr bool base_deep = true;
    using Size = int32_t;
}; }
#define CFG_NAME "deep"
#elif defined(CFG_wide)
namespace { struct Cfg : CBase {
    static constexpr char const* name = "wide: int32, four per leaf, more than 256 children, indexed+summed+min";
    using VK = KInt<int32_t>;
    using Tree = BppTree<int32_t, 24, 8000, 3>::mixins<IndexedBuilder<int64_t>, SummedBuilder<>, MinBuilder<>>;
    static constexpr bool indexed = true, summed = true, minned = true, idx_sub = true;
    static constexpr size_t soft_cap = 2500, base_grow = 1600, base_keep = 1500;
    static constexpr uint32_t max_steps = 60;
    using Size = int64_t;
    using Sum = int32_t;
    static int64_t sum_of(Rep const& r) { return r.v; }
}; }
#define CFG_NAME "wide"
#elif defined(CFG_broad)
namespace { struct Cfg : CBase {
    static constexpr char const* name = "broad: uint8, 700 per leaf, indexed+max";
    using VK = KInt<uint8_t>;
    using Tree = BppTree<uint8_t, 708, 100, 4>::mixins<IndexedBuilder<>, MaxBuilder<>>;
    static constexpr bool indexed = true, maxed = true, idx_sub = true;
    static constexpr size_t soft_cap = 4000, base_grow = 3000, base_keep = 2900;
    static constexpr uint32_t max_steps = 60;
}; }
#define CFG_NAME "broad"
#elif defined(CFG_huge)
// more than 2^16 elements, also below one child of the root
namespace { struct Cfg : CBase {
    static constexpr char const* name = "huge: int32, 80000 elements, indexed(uint32)+summed+min";
    using VK = KInt<int32_t>;
    using Tree = BppTree<int32_t, 2056, 2800, 5>::mixins<IndexedBuilder<uint32_t>, SummedBuilder<>, MinBuilder<>>;
    static constexpr bool indexed = true, summed = true, minned = true, idx_sub = true;
    static constexpr size_t soft_cap = 80500, base_grow = 80000, base_keep = 79800;
    static constexpr uint32_t max_steps = 12;
    using Size = uint32_t;
    using Sum = int32_t;
    static int64_t sum_of(Rep const& r) { return r.v; }
}; }
#define CFG_NAME "huge"
#elif !defined(CFG_NONE)
#error "no configuration selected"
#endif

} // namespace pbt
