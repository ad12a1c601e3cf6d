// Known finding of P19: the persistent half of the inverted index does not compile when it is used.
#include <algorithm>
#include <cstdint>

#include "inverted_index.hpp"

int main() {
    InvertedIndex<uint32_t>::Persistent const empty;
    auto one = empty.insert(1u, 1u);
    auto range = one.term_doc_iterator(1u);
    return range.first == range.second ? 1 : 0;
}
