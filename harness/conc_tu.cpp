// P15: several threads, each with tree objects of its own that share nodes with those of the others.  Built with
// ThreadSanitizer; every thread drives the model-based machine of machine.hpp.
#include <atomic>
#include <sched.h>
#include <thread>

#include "configs.hpp"

namespace pbt {
namespace {

template <typename C>
struct Conc {
    using M = Machine<C>;
    using P = typename M::P;
    using T = typename M::T;

    struct Worker {
        std::unique_ptr<Src> src;
        std::unique_ptr<Ctx> ctx;
        std::unique_ptr<M> m;
        uint32_t yield_every = 1, spin = 0;
        bool destroy_inside = false;
        std::string error;
        bool failed = false;
    };

    static void body(Worker& w, std::atomic<int>& gate, int n, P const* common, Model const* common_m) {
        gate.fetch_add(1);
        while (gate.load() < n) sched_yield();
        try {
            for (uint32_t i = 0; i < w.spin; ++i) sched_yield();
            uint32_t k = 0;
            M& m = *w.m;
            m.loop([&] {
                if (++k % w.yield_every == 0) sched_yield();
                if (common && k % 3 == 0) {
                    // an object that every thread reads and none changes
                    if (k % 2) m.check_content(*common, *common_m, "a tree object read by several threads", k % 4 == 1);
                    else {
                        P mine(*common);
                        m.check_content(mine, *common_m, "copy of a tree object read by several threads", false);
                        T t = common->transient();
                        m.check_content(t, *common_m, "transient of a tree object read by several threads", false);
                    }
                }
            });
            m.audit_all("at the end of a thread");
            for (int i = 0; i < 3; ++i) m.op_query();
            if (w.destroy_inside) {
                m.ts.clear();
                m.ps.clear();
            }
        } catch (std::exception const& e) {
            w.error = e.what();
            w.failed = true;
        }
    }

    static void unit(Src& s, Ctx& ctx) {
        Tracked::misuse = nullptr;
        int64_t before = Tracked::live;
        run(s, ctx);
        int64_t after = Tracked::live;
        PBT_CHECK(ctx, after == before, "%lld elements are still alive after every thread ended and all trees were destroyed", static_cast<long long>(after - before));
        char const* w = Tracked::misuse;
        if (w) ctx.fail("element lifetime: %s", w);
    }

    static void run(Src& s, Ctx& ctx) {
        M m(s, ctx);
        m.setup();
        // versions that share structure
        s.set_steps(3 + s.draw(14));
        {
            Src::Scope sc(s);
            int g = m.grow;
            m.grow = 8;
            m.op_bulk();
            m.grow = g;
            auto snapshot = [&](size_t i) {
                T const& c = *m.ts[i].t;
                m.store(c.persistent(), m.ts[i].m);
            };
            snapshot(0);
            if (m.ts[0].m.empty()) for (size_t i = 1; i < m.ts.size(); ++i) snapshot(i);
        }
        m.loop();
        if (m.ps.empty()) return;
        int n = 2 + static_cast<int>(s.draw(3));
        bool use_common = s.draw(2);
        bool main_drops = s.draw(2), main_waits = s.draw(2);
        // transients of the main thread are handed to one thread or dropped
        size_t heir = s.draw(static_cast<uint64_t>(n) + 1);
        std::unique_ptr<P> common;
        Model common_m;
        if (use_common) {
            size_t j = s.draw(m.ps.size());
            common = std::make_unique<P>(*m.ps[j].p);
            common_m = m.ps[j].m;
        }
        std::vector<Worker> ws(static_cast<size_t>(n));
        bool shared_multi = false;
        for (size_t i = 0; i < ws.size(); ++i) {
            Src::Scope sc(s);
            Worker& w = ws[i];
            w.src = std::make_unique<Src>((static_cast<uint64_t>(s.draw(1u << 31)) << 20) + i, false);
            w.ctx = std::make_unique<Ctx>();
            w.ctx->check = ctx.check;
            w.m = std::make_unique<M>(*w.src, *w.ctx);
            w.m->key_range = m.key_range;
            w.m->vlo = m.vlo;
            w.m->vhi = m.vhi;
            w.m->kmul = m.kmul;
            w.m->kadd = m.kadd;
            w.m->vmul = m.vmul;
            w.m->vadd = m.vadd;
            w.m->dups = m.dups;
            w.m->cap = m.cap;
            w.m->grow = 2 + static_cast<int>(s.draw(5));
            std::copy(std::begin(m.weights), std::end(m.weights), std::begin(w.m->weights));
            w.src->set_steps(s.draw(24) + s.draw(8));
            w.yield_every = 1 + s.draw(4);
            w.spin = s.skewed(40);
            w.destroy_inside = s.draw(2);
            for (auto& p : m.ps) {
                w.m->store(P(*p.p), p.m);
                shared_multi |= p.p->depth() > 1;
            }
            w.m->ts.resize(1 + s.draw(2));
            size_t j = s.draw(m.ps.size());
            if (s.draw(2)) {
                w.m->ts[0].t = std::make_unique<T>(m.ps[j].p->transient());
                w.m->ts[0].m = m.ps[j].m;
            }
            if (i == heir) for (auto& t : m.ts) w.m->ts.push_back(std::move(t));
            ctx.log("thread %zu: %zu persistent trees, %zu transient trees%s", i, w.m->ps.size(), w.m->ts.size(), w.destroy_inside ? ", destroys them itself" : "");
        }
        m.ts.clear();
        std::atomic<int> gate{0};
        std::vector<std::thread> threads;
        for (Worker& w : ws) threads.emplace_back([&w, &gate, n, &common, &common_m] { body(w, gate, n, common.get(), &common_m); });
        if (main_waits) while (gate.load() < n) sched_yield();
        if (main_drops) m.ps.clear();
        for (auto& t : threads) t.join();
        for (size_t i = 0; i < ws.size(); ++i) {
            Worker& w = ws[i];
            ctx.ops += w.ctx->ops;
            ctx.oracle_evals += w.ctx->oracle_evals;
            for (auto& [k, v] : w.ctx->labels) ctx.labels[k] += v;
            if (w.failed) ctx.fail("thread %zu of %d: %s", i, n, w.error.c_str());
        }
        ctx.label("threads", static_cast<uint64_t>(n));
        ctx.nontrivial = shared_multi;
        bool edited = false;
        for (Worker& w : ws) edited |= w.m->seen.shared_edit || w.m->seen.multi_level;
        ctx.nontrivial = ctx.nontrivial && edited;
    }
};

static Register r("threads-" CFG_NAME, &Conc<Cfg>::unit);
}
}
