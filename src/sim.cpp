#include "sim.h"
#include <sys/time.h>
// the spawners look at the wall clock: it shows the virtual time
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept {
    uint64_t t = sim::W ? sim::W->now : 0;
    tv->tv_sec = 1700000000 + t / sim::SEC;
    tv->tv_usec = t % sim::SEC;
    return 0;
}

namespace sim {
world_t *W = nullptr;
next_t NEXT;

world_t::world_t(src_t &s) : src{s} {
    W = this;
    // varies the addresses of everything allocated later, i.e. the iteration order of hash containers
    auto k = src.draw(24);
    for (uint32_t i = 0; i < k; ++i)
        noise.push_back(malloc(16 + 16 * ((i * 7 + k) % 37)));
    for (size_t i = 0; i < noise.size(); i += 2) {
        free(noise[i]);
        noise[i] = nullptr;
    }
}
world_t::~world_t() {
    NEXT = {};
    timers.clear();
    for (auto &l : locs)
        l->inbound.clear();
    keep.clear();
    ctxs.clear();
    for (auto p : noise)
        free(p);
    W = nullptr;
}
loc_t *world_t::new_loc() {
    auto l = std::make_unique<loc_t>();
    l->id = (int)locs.size();
    locs.push_back(std::move(l));
    return locs.back().get();
}
mon_t &world_t::new_mon(r::actor_base_t *a, bool sup, int loc) {
    auto m = std::make_unique<mon_t>();
    m->id = (int)mons.size();
    m->parent = next_parent;
    m->name = next_name.empty() ? (sup ? "S" : "A") + std::to_string(m->id) : next_name;
    m->tag = next_tag;
    m->loc = loc;
    m->sup = sup;
    m->ptr = a;
    if (m->parent >= 0)
        mons[m->parent]->children.push_back(m->id);
    next_parent = -1;
    next_name.clear();
    next_tag = 0;
    mons.push_back(std::move(m));
    return *mons.back();
}
void world_t::hook(mon_t &m, hook_t h) {
    ++ev_no;
    ++m.n[h];
    m.at[h] = ev_no;
    m.t_at[h] = now;
    eng::trace("[t=%llu loc=%d] %s: %s", (unsigned long long)now, cur_loc, m.name.c_str(), hook_name(h));
    if (on_hook)
        on_hook(m, h);
}
bool world_t::has_work(int l) {
    auto &L = *locs[l];
    return !L.inbound.empty() || (L.leader && L.leader->queue_len());
}
bool world_t::process(int l, size_t max_inbound) {
    auto &L = *locs[l];
    if (!L.leader || !has_work(l))
        return false;
    r::intrusive_ptr_t<sup_t> guard(L.leader);
    auto old = cur_loc;
    cur_loc = l;
    while (max_inbound-- && !L.inbound.empty()) {
        auto m = std::move(L.inbound.front());
        L.inbound.pop_front();
        L.leader->put(std::move(m));
    }
    L.leader->do_process();
    cur_loc = old;
    return true;
}
bool world_t::any_work() {
    for (auto &l : locs)
        if (l->leader && has_work(l->id))
            return true;
    return false;
}
void world_t::drain(bool random_order) {
    while (true) {
        std::vector<int> w;
        for (auto &l : locs)
            if (l->leader && has_work(l->id))
                w.push_back(l->id);
        if (w.empty())
            return;
        process(random_order && w.size() > 1 ? src.pick(w) : w[0]);
    }
}
std::list<timer_rec_t>::iterator world_t::earliest() {
    auto best = timers.end();
    for (auto it = timers.begin(); it != timers.end(); ++it)
        if (best == timers.end() || it->deadline < best->deadline)
            best = it;
    return best;
}
void world_t::fire(std::list<timer_rec_t>::iterator it) {
    auto rec = *it;
    timers.erase(it);
    if (rec.deadline > now)
        now = rec.deadline;
    r::intrusive_ptr_t<sup_t> guard(rec.sup);
    auto old = cur_loc;
    cur_loc = rec.sup->loc->id;
    fired.emplace_back(rec.id, cur_loc);
    eng::trace("[t=%llu loc=%d] timer %llu of %s fires", (unsigned long long)now, cur_loc, (unsigned long long)rec.id,
               rec.sup->m->name.c_str());
    r::actor_ptr_t owner(rec.handler->owner);
    owner->access<to::on_timer_trigger, r::request_id_t, bool>(rec.id, false);
    cur_loc = old;
}
bool world_t::fire_earliest(uint64_t limit) {
    auto it = earliest();
    if (it == timers.end() || it->deadline > limit)
        return false;
    // ties are broken by choice
    std::vector<std::list<timer_rec_t>::iterator> ties;
    for (auto i = timers.begin(); i != timers.end(); ++i)
        if (i->deadline == it->deadline)
            ties.push_back(i);
    fire(ties.size() > 1 ? src.pick(ties) : ties[0]);
    return true;
}
void world_t::settle(uint64_t limit) {
    while (true) {
        drain();
        if (!fire_earliest(limit))
            return;
    }
}
bool world_t::step(uint64_t limit) {
    std::vector<int> w;
    for (auto &l : locs)
        if (l->leader && has_work(l->id))
            w.push_back(l->id);
    auto it = earliest();
    bool timer = it != timers.end() && it->deadline <= limit;
    if (w.empty() && !timer)
        return false;
    if (w.empty() || (timer && src.chance(15))) {
        fire_earliest(limit);
        return true;
    }
    int l = w.size() > 1 ? src.pick(w) : w[0];
    size_t max = (size_t)-1;
    if (locs[l]->inbound.size() > 1 && src.chance(40))
        max = 1 + src.draw((uint32_t)locs[l]->inbound.size());
    process(l, max);
    return true;
}

void ctx_t::on_error(r::actor_base_t *actor, const r::extended_error_ptr_t &ec) noexcept {
    world_t::error_rec_t e;
    e.actor = -1;
    for (auto &m : W->mons)
        if (m->ptr == actor && actor)
            e.actor = m->id;
    e.msg = ec ? ec->message() : "(none)";
    e.root = ec ? ec->root()->ec : std::error_code{};
    eng::trace("[t=%llu] on_error: %s: %s", (unsigned long long)W->now, e.actor >= 0 ? W->mon(e.actor).name.c_str() : "-",
               e.msg.c_str());
    W->errors.push_back(e);
}
ctx_t::~ctx_t() {}

sup_t::sup_t(sup_config_t &cfg) : parent_t(cfg), loc{cfg.loc} {
    m = &W->new_mon(this, true, loc ? loc->id : -1);
    W->hook(*m, H_CTOR);
    cfg_fn = std::move(NEXT.cfg_fn);
    auto f = std::move(NEXT.ctor_fn);
    NEXT = {};
    if (f)
        f(this);
}
sup_t::~sup_t() {
    if (loc && loc->leader == this)
        loc->leader = nullptr;
}
void sup_t::do_initialize(r::system_context_t *ctx) noexcept {
    if (!loc->leader)
        loc->leader = this;
    parent_t::do_initialize(ctx);
}
void sup_t::do_start_timer(const pt::time_duration &interval, r::timer_handler_base_t &handler) noexcept {
    timer_rec_t rec;
    rec.id = handler.request_id;
    rec.handler = &handler;
    rec.interval = (uint64_t)interval.total_microseconds();
    rec.deadline = W->now + rec.interval;
    rec.seq = ++W->timer_seq;
    rec.sup = this;
    rec.owner = -1;
    rec.started_at = W->ev_no;
    for (auto &t : W->timers)
        EXPECT(!(t.id == rec.id && t.sup->loc == loc), "timer-id", "timer id %llu started twice in one locality",
               (unsigned long long)rec.id);
    W->timers.push_back(rec);
}
void sup_t::do_cancel_timer(r::request_id_t timer_id) noexcept {
    for (auto it = W->timers.begin(); it != W->timers.end(); ++it) {
        if (it->id == timer_id && it->sup == this) {
            auto rec = *it;
            W->timers.erase(it);
            eng::trace("[t=%llu] timer %llu of %s cancelled", (unsigned long long)W->now, (unsigned long long)timer_id, m->name.c_str());
            rec.handler->owner->access<to::on_timer_trigger, r::request_id_t, bool>(timer_id, true);
            return;
        }
    }
    eng::fail("timer-cancel", "cancellation of a timer (%llu) that is not outstanding", (unsigned long long)timer_id);
}
void sup_t::enqueue(r::message_ptr_t message) noexcept { loc->inbound.push_back(std::move(message)); }
void sup_t::intercept(r::message_ptr_t &message, const void *tag, const r::continuation_t &cont) noexcept {
    if (intercept_fn && intercept_fn(message, tag, cont))
        return;
    r::supervisor_t::intercept(message, tag, cont);
}
void sup_t::configure(r::plugin::plugin_base_t &p) noexcept {
    r::supervisor_t::configure(p);
    if (cfg_fn)
        cfg_fn(p);
}
act_t::act_t(config_t &cfg) : mon_base_t<r::actor_base_t>(cfg) {
    auto s = dynamic_cast<sup_t *>(supervisor);
    if (W->next_parent < 0 && s && s->m)
        W->next_parent = s->m->id;
    m = &W->new_mon(this, false, s ? s->loc->id : -1);
    W->hook(*m, H_CTOR);
    cfg_fn = std::move(NEXT.cfg_fn);
    unlink_fn = std::move(NEXT.unlink_fn);
    auto f = std::move(NEXT.ctor_fn);
    NEXT = {};
    if (f)
        f(this);
}

void check_nothing_left(const char *tag) {
    EXPECT(W->timers.empty(), tag, "%zu timers outstanding after everything was shut down", W->timers.size());
    for (auto &l : W->locs) {
        EXPECT(l->inbound.empty(), tag, "inbound messages left");
    }
    for (auto &l : W->locs)
        l->leader = nullptr;
    W->keep.clear();
    W->ctxs.clear();
    if (W->live_objects) {
        std::string names;
        for (auto &m : W->mons)
            if (m->alive())
                names += " " + m->name;
        eng::fail(tag, "objects still alive after the last external reference was dropped:%s", names.c_str());
    }
}
} // namespace sim
