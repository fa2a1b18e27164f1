// C20: the asio backend, real threads under TSAN
#include "race.h"
#include "rotor/asio.hpp"

namespace ra = rotor::asio;
namespace asio = boost::asio;
using namespace race;

namespace {
using sup = sup_t<ra::supervisor_asio_t>;
using strand_ptr_t = std::shared_ptr<asio::io_context::strand>;
void run(src_t &src) {
    world_t w;
    begin();
    int n_ctx = (int)src.weighted({3, 2}) + 1;
    std::vector<std::unique_ptr<asio::io_context>> ios;
    std::vector<int> threads;
    std::vector<r::intrusive_ptr_t<ra::system_context_asio_t>> ctxs;
    for (int i = 0; i < n_ctx; ++i) {
        threads.push_back((int)src.range(1, 3));
        ios.push_back(std::make_unique<asio::io_context>());
    }
    w.slow = src.chance(40);
    static const int polls[] = {0, 100, 1000};
    int n_roots = (int)src.range(n_ctx, 3);
    for (int i = 0; i < n_roots; ++i) {
        auto &io = *ios[i % n_ctx];
        auto strand = std::make_shared<asio::io_context::strand>(io);
        ctxs.emplace_back(new ra::system_context_asio_t(io));
        auto s = ctxs.back()->create_supervisor<sup>().strand(strand).guard_context(true).timeout(r::pt::seconds{300}).poll_duration(r::pt::microseconds{polls[src.draw(3)]}).finish();
        w.roots.push_back(s);
        w.sups.push_back(s);
        auto k = (int)src.range(1, 3);
        while (k--)
            add_actor(w, *s, false);
        auto nested = (int)src.draw(3);
        while (nested--) {
            auto st = strand;
            if (src.chance(60))
                st = std::make_shared<asio::io_context::strand>(src.chance(70) ? io : *ios[src.draw((uint32_t)ios.size())]);
            auto b = s->create_actor<sup>().strand(st).guard_context(true).poll_duration(r::pt::microseconds{polls[src.draw(3)]});
            if (w.slow && src.chance(50))
                std::move(b).policy(r::supervisor_policy_t::shutdown_failed);
            int us;
            draw_init(w, src, b, us);
            auto c = std::move(b).finish();
            c->hold_us = us;
            w.sups.push_back(c);
            auto k = (int)src.range(1, 2);
            while (k--)
                add_actor(w, *c, false);
            if (src.chance(50)) {
                s = c;
                strand = st;
            }
        }
    }
    draw(w, src);
    std::vector<std::thread> th;
    for (int i = 0; i < n_ctx; ++i)
        for (int k = 0; k < threads[i]; ++k)
            th.emplace_back([io = ios[i].get()] { io->run(); });
    for (auto &s : w.roots)
        s->start();
    control(w, [](r::supervisor_t &s) { s.shutdown(); });
    for (auto &t : th)
        t.join();
    end();
    judge(w);
    w.roots.clear();
    while (!w.sups.empty())
        w.sups.pop_back();
    ctxs.clear();
    ios.clear();
}
} // namespace

eng::property_t eng::property = {"C20", "at least 12 handlers have been run", 1500, 30000, 10, 6, 1000, 60, run, nullptr};
