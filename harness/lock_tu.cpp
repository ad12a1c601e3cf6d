// Configurations of the lockstep units.  Parts 4 and 9 are built without safety checks and use node sizes of their own.
#include "lock_impl.hpp"
namespace pbt {
namespace {
using MO_L = OrderedBuilder<>;
using MO_B = OrderedBuilder<>::binary_search<true>;
using S2 = SummedBuilder<PairExtractor<1>>;
using N2 = MinBuilder<PairExtractor<1>>;
using X2 = MaxBuilder<PairExtractor<1>>;
using PV = std::pair<int32_t, int32_t>;
using I32 = IndexedBuilder<uint32_t>;
bool added[] = {
#if LOCK_PART == 0
    lock_add<BppTree<int32_t, 512, 512, 6>::mixins<IndexedBuilder<>>, false, MI>("512/512, indexed"),
    lock_add<BppTree<int32_t, 32, 120, 8>::mixins<SummedBuilder<>>, false, MS>("32/120, summed"),
    lock_add<BppTree<int32_t, 20, 64, 12>::mixins<>, false, 0>("20/64, no mixins"),
#elif LOCK_PART == 1
    lock_add<BppTree<int32_t, 40, 200, 8>::mixins<MinBuilder<>, MaxBuilder<>, IndexedBuilder<>, SummedBuilder<>>, false, MI | MS | MN | MX>("40/200, min+max+indexed+summed"),
    lock_add<BppTree<int32_t, 48, 160, 8>::mixins<I32, MaxBuilder<>, MinBuilder<>>, false, MI | MN | MX>("48/160, indexed(uint32)+max+min"),
#elif LOCK_PART == 2
    lock_add<BppTree<int32_t, 100, 300, 6, true>::mixins<SummedBuilder<>, IndexedBuilder<>>, false, MI | MS>("100/300, summed+indexed, exceptions disabled"),
    lock_add<BppTree<int32_t, 16, 80, 12>::mixins<MaxBuilder<>>, false, MX>("16/80, max"),
#elif LOCK_PART == 3
    lock_add<BppTree<int32_t, 64, 96, 10>::mixins<SummedBuilder<>, MaxBuilder<>>, false, MS | MX>("64/96, summed+max"),
    lock_add<BppTreeVector<int32_t>::mixins<MinBuilder<>>, false, MI | MN>("default vector, +min"),
#elif LOCK_PART == 4
    lock_add<BppTree<int32_t, 37, 141, 9>::mixins<MaxBuilder<>, SummedBuilder<>, I32>, false, MI | MS | MX>("37/141, max+summed+indexed(uint32), no safety checks"),
    lock_add<BppTree<int32_t, 13, 101, 12, true>::mixins<IndexedBuilder<>>, false, MI>("13/101, indexed, exceptions disabled, no safety checks"),
    lock_add<BppTree<int32_t, 77, 203, 8>::mixins<MinBuilder<>, SummedBuilder<>>, false, MS | MN>("77/203, min+summed, no safety checks"),
#elif LOCK_PART == 5
    lock_add<BppTreeMap<int32_t, int32_t>, true, MO>("default map"),
    lock_add<BppTree<PV, 512, 512, 6>::mixins<MO_B, IndexedBuilder<>>, true, MO | MI>("512/512, ordered(binary)+indexed"),
#elif LOCK_PART == 6
    lock_add<BppTree<PV, 40, 120, 10>::mixins<MO_L, S2, IndexedBuilder<>>, true, MO | MS | MI>("40/120, ordered+summed+indexed"),
    lock_add<BppTree<PV, 24, 100, 12>::mixins<MO_B>, true, MO>("24/100, ordered(binary)"),
#elif LOCK_PART == 7
    lock_add<BppTree<PV, 64, 250, 8>::mixins<S2, MO_L, N2, X2, IndexedBuilder<>>, true, MO | MS | MN | MX | MI>("64/250, summed+ordered+min+max+indexed"),
#elif LOCK_PART == 8
    lock_add<BppTree<PV, 72, 168, 8, true>::mixins<N2, MO_B, S2>, true, MO | MN | MS>("72/168, min+ordered(binary)+summed, exceptions disabled"),
    lock_add<BppTree<PV, 104, 88, 10>::mixins<X2, I32, MO_L>, true, MO | MX | MI>("104/88, max+indexed(uint32)+ordered"),
#elif LOCK_PART == 9
    lock_add<BppTree<PV, 57, 153, 9>::mixins<IndexedBuilder<>, X2, MO_L, S2>, true, MO | MX | MI | MS>("57/153, indexed+max+ordered+summed, no safety checks"),
    lock_add<BppTree<PV, 201, 97, 9>::mixins<MO_B, N2>, true, MO | MN>("201/97, ordered(binary)+min, no safety checks"),
#endif
};
}
}
