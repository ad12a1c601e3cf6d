// P17: trees of different configurations driven in lockstep.  One abstract history, one set of observations; every
// configuration that supports an operation must give the same answers.
#pragma once

#include <cstdint>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "engine.hpp"
#include "values.hpp"

namespace pbt {

using Obs = std::optional<std::vector<int64_t>>;      // nullopt: not supported by this configuration

enum LockEdit { L_INSERT, L_ERASE, L_ASSIGN };
enum LockQuery { LQ_CONTENT, LQ_REVERSE, LQ_SIZE, LQ_SUM, LQ_PREFIX, LQ_SUM_LB, LQ_EXTREMA, LQ_RANGE, LQ_ELEMENT, LQ_INDEX, LQ_KEY, LQ_WALK, LQ_COUNT };

struct LockTree {
    virtual ~LockTree() = default;
    virtual char const* name() const = 0;
    virtual bool full(size_t version) const = 0;                          // no growth possible
    virtual size_t versions() const = 0;
    // edits of the transient tree; `how` selects among the ways the configuration offers
    virtual void edit(LockEdit e, size_t pos, Rep r, size_t n, unsigned how) = 0;
    virtual void snapshot() = 0;                                          // append persistent() as a version
    virtual void edit_version(size_t version, LockEdit e, size_t pos, Rep r, size_t n, unsigned how) = 0;   // appends a version
    virtual void restore(size_t version) = 0;                             // transient = version
    virtual void drop(size_t version) = 0;
    virtual void clear() = 0;
    // version == versions(): the transient tree
    virtual Obs observe(size_t version, LockQuery q, size_t a, size_t b, int64_t k, unsigned how) = 0;
};

struct LockFactory {
    char const* family;
    std::unique_ptr<LockTree> (*make)();
};
std::vector<LockFactory>& lock_factories();
struct LockRegister {
    LockRegister(char const* family, std::unique_ptr<LockTree> (*make)()) { lock_factories().push_back({family, make}); }
};

} // namespace pbt
