// Trees whose comparators and extractors count their calls.
#include "cost.hpp"
namespace pbt {
namespace {
struct Base {
    static constexpr bool ordered = false, indexed = false, summed = false, minned = false, binary = false, pair = false;
    static constexpr size_t key_bytes = 0, min_leaf = 1, min_fan = 2;
    static constexpr uint32_t max_n = 5000;
    using Key = int64_t;
};
#if CFG_COST == 0
struct Cvec : Base {
    static constexpr char const* name = "int32 vector, indexed+summed+min, 40/136 byte nodes";
    static constexpr size_t leaf_bytes = 40, int_bytes = 136;
    static constexpr uint32_t max_n = 2500;
    using Value = int32_t;
    using Tree = BppTree<int32_t, 40, 136, 12>::mixins<IndexedBuilder<>, SummedBuilder<CountValue>, MinBuilder<CountValue, CountLess>>;
    static constexpr bool indexed = true, summed = true, minned = true;
};
static Register r0("cost-vec", &Cost<Cvec>::unit);
struct Cdeq : Base {
    static constexpr char const* name = "int64 deque without mixins, 72/80 byte nodes";
    static constexpr size_t leaf_bytes = 72, int_bytes = 80;
    using Value = int64_t;
    using Tree = BppTree<int64_t, 72, 80, 12>::mixins<>;
};
static Register r1("cost-deque", &Cost<Cdeq>::unit);
#elif CFG_COST == 1
struct Cmap : Base {
    static constexpr char const* name = "map, linear search, 72/160 byte nodes, ordered+summed+min";
    static constexpr size_t leaf_bytes = 72, int_bytes = 160, key_bytes = 4;
    using Key = int32_t;
    using Value = std::pair<int32_t, int32_t>;
    using Tree = BppTree<Value, 72, 160, 12>::mixins<OrderedBuilder<PairExtractor<0>, CountLess>, SummedBuilder<CountSecond>, MinBuilder<CountSecond, CountLess>>;
    static constexpr bool ordered = true, summed = true, minned = true, pair = true;
};
static Register r0("cost-map", &Cost<Cmap>::unit);
struct Cset : Base {
    static constexpr char const* name = "set of int32, binary search, 512 byte nodes";
    static constexpr size_t leaf_bytes = 512, int_bytes = 512, key_bytes = 4, min_leaf = 50, min_fan = 15;
    using Key = int32_t;
    using Value = int32_t;
    using Tree = BppTreeSet<int32_t, CountLess>::binary_search<true>;
    static constexpr bool ordered = true, binary = true;
};
static Register r1("cost-set-512", &Cost<Cset>::unit);
#elif CFG_COST == 2
struct Cvec512 : Base {
    static constexpr char const* name = "int32 vector, 512 byte nodes, indexed+summed";
    static constexpr size_t leaf_bytes = 512, int_bytes = 512, min_leaf = 50, min_fan = 8;
    using Value = int32_t;
    using Tree = BppTreeVector<int32_t>::mixins<SummedBuilder<CountValue>>;
    static constexpr bool indexed = true, summed = true;
};
static Register r0("cost-vec-512", &Cost<Cvec512>::unit);
struct Cmap512 : Base {
    static constexpr char const* name = "map, binary search, 1024/256 byte nodes, indexed";
    static constexpr size_t leaf_bytes = 1024, int_bytes = 256, key_bytes = 4, min_leaf = 50, min_fan = 4;
    using Key = int32_t;
    using Value = std::pair<int32_t, int64_t>;
    using Tree = BppTree<Value, 1024, 256, 6>::mixins<IndexedBuilder<>, OrderedBuilder<PairExtractor<0>, CountLess>::binary_search<true>>;
    static constexpr bool ordered = true, indexed = true, binary = true, pair = true;
};
static Register r1("cost-map-1024", &Cost<Cmap512>::unit);
#endif
}
}
