// Known finding of P19: InvertedIndex::Transient::insert dereferences the end of the term list for a term greater than
// every term of the index (here the first one).  Exit status 1 and a line when it does.
#include <algorithm>
#include <cstdint>
#include <cstdio>

#include "inverted_index.hpp"

struct Term {
    static inline int raw = 0;
    uint32_t v;
    Term const volatile* self;
    Term() : v(0), self(this) {}
    explicit Term(uint32_t x) : v(x), self(this) {}
    Term(Term const& o) : v(o.v), self(this) {}
    Term& operator=(Term const& o) { v = o.v; return *this; }
    ~Term() { self = nullptr; }
    friend bool operator<(Term const& a, Term const& b) { return a.v < b.v; }
    friend bool operator!=(Term const& a, Term const& b) {
        if (a.self != &a || b.self != &b) { ++raw; return true; }
        return a.v != b.v;
    }
};

int main() {
    try {
        InvertedIndex<Term>::Transient index;
        index.insert(Term(1), 1u);
        index.insert(Term(2), 1u);
    } catch (std::exception const&) {
        ++Term::raw;
    }
    if (Term::raw) std::puts("the end of the term list was dereferenced");
    return Term::raw ? 1 : 0;
}
