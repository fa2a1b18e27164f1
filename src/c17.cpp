// C17: errors and messages describe themselves totally and faithfully
#include "sim.h"
#include "rotor/misc/default_stringifier.h"
#include <iostream>
#include <regex>
#include <set>
#include <sstream>
using namespace sim;
namespace pl = rotor::payload;
namespace ms = rotor::message;

namespace {
constexpr uint64_t LIMIT = 500 * SEC;
uint64_t W_ID() { return (uint64_t)W->src.draw(100000); }
template <typename T> std::string text_of(const T &v) {
    std::ostringstream s;
    s << v;
    return s.str();
}
bool has(const std::string &s, const std::string &part) { return s.find(part) != std::string::npos; }

struct user_cat_t : std::error_category {
    const char *name() const noexcept override { return "user"; }
    std::string message(int c) const override { return c % 3 == 0 ? "" : "user failure " + std::to_string(c); }
};
const user_cat_t USER;

struct note_res {};
struct note_req {
    using response_t = note_res;
    int v;
    explicit note_req(int v_) : v{v_} {}
};
struct heavy_req : r::arc_base_t<heavy_req> {
    virtual ~heavy_req() = default;
    using response_t = note_res;
};

// the user's own stringifier, as the documentation of default_stringifier_t suggests
struct my_stringifier_t : r::misc::default_stringifier_t {
    bool try_visit(const r::message_base_t &m, void *ctx) const override {
        if (m.type_index == msg_t<7>::message_type) {
            *static_cast<std::ostream *>(ctx) << "my::parcel #" << static_cast<const msg_t<7> &>(m).payload.id;
            return true;
        }
        return default_stringifier_t::try_visit(m, ctx);
    }
};
struct my_ctx_t : ctx_t {
    mutable int made = 0;
    r::message_stringifier_ptr_t make_stringifier() const noexcept override {
        ++made;
        return r::message_stringifier_ptr_t(new my_stringifier_t());
    }
};

struct tact_t : act_t {
    using act_t::act_t;
    void on_a(msg_t<0> &) noexcept {}
    void on_b(msg_t<7> &) noexcept {}
    r::handler_ptr_t some_handler(int i) { return i ? r::wrap_handler(*this, &tact_t::on_b) : r::wrap_handler(*this, &tact_t::on_a); }
};

struct gen_t {
    src_t &src;
    std::vector<r::intrusive_ptr_t<tact_t>> actors;
    std::vector<r::address_ptr_t> addrs;
    const r::message_stringifier_t *st = nullptr;
    bool custom = false;
    uint64_t rendered = 0;

    std::string word() {
        static const char *W[] = {"", "svc", "a name", "actor 0x12", "<-", " [x] ", "\xd1\x84\xd1\x8b", "%s%n", "'quoted'", "=>"};
        std::string s = W[src.draw(10)];
        if (src.chance(20))
            for (auto n = src.range(1, 200); n > 0; --n)
                s += (char)('a' + (n * 7) % 26);
        return s;
    }
    std::error_code code() {
        switch (src.draw(5)) {
        case 0:
            return r::make_error_code((r::error_code_t)src.range(0, 11));
        case 1:
            return r::make_error_code((r::shutdown_code_t)src.range(0, 5));
        case 2:
            return std::error_code((int)src.range(0, 200), std::generic_category());
        case 3:
            return std::error_code((int)src.range(0, 20), USER);
        default:
            return {};
        }
    }
    const r::address_ptr_t &addr() { return src.pick(addrs); }

    struct expected_t {
        std::string with, without; // texts with and without a stringifier
        std::error_code root;
        size_t len = 0, requests = 0;
    };
    // the chain is built from its innermost cause
    r::extended_error_ptr_t error(expected_t &x, int max_len, int depth) {
        auto n = (int)src.range(1, max_len);
        r::extended_error_ptr_t e;
        for (int i = 0; i < n; ++i) {
            auto ctx = word();
            auto ec = code();
            r::message_ptr_t rq;
            std::string rtext;
            if (depth > 0 && src.chance(30)) {
                rq = message(depth - 1);
                rtext = " [" + st->stringify(*rq) + "]";
                ++x.requests;
            }
            std::string base = ctx + " " + ec.message();
            if (!e)
                x.root = ec;
            x.with = base + rtext + (e ? " <- " + x.with : "");
            x.without = base + (e ? " <- " + x.without : "");
            e = r::make_error(ctx, ec, e, rq);
            ++x.len;
        }
        return e;
    }
    r::extended_error_ptr_t maybe_error(std::string &must, int depth) {
        if (!src.chance(60))
            return {};
        expected_t x;
        auto e = error(x, 4, depth);
        must = x.without;
        return e;
    }
    template <typename T> using req_t = typename r::request_traits_t<T>::request::message_t;
    template <typename T> using res_t = typename r::request_traits_t<T>::response::message_t;
    template <typename T, typename... A> r::intrusive_ptr_t<req_t<T>> request(A &&...a) {
        auto id = (r::request_id_t)src.range(0, 1 << 20);
        return r::intrusive_ptr_t<req_t<T>>(new req_t<T>(addr(), id, addr(), addr(), std::forward<A>(a)...));
    }
    template <typename T, typename... A> r::message_ptr_t response(std::vector<std::string> &must, int depth, r::intrusive_ptr_t<req_t<T>> rq, A &&...a) {
        std::string f;
        auto e = maybe_error(f, depth);
        if (e) {
            must.push_back(f);
            return r::message_ptr_t(new res_t<T>(addr(), e, rq));
        }
        return r::message_ptr_t(new res_t<T>(addr(), std::move(rq), std::forward<A>(a)...));
    }

    r::message_ptr_t message(int depth) {
        std::vector<std::string> must;
        std::string name;
        r::message_ptr_t m = make(depth, name, must);
        auto s = st->stringify(*m);
        ++rendered;
        std::ostringstream o;
        st->stringify_to(o, *m);
        EXPECT(o.str() == s, "differs", "stringify() and stringify_to() differ: '%s' and '%s'", s.c_str(), o.str().c_str());
        EXPECT(st->stringify(*m) == s, "unstable", "the same message is rendered differently: '%s'", s.c_str());
        EXPECT(!s.empty() && has(s, name), "type", "the message '%s' does not name its type %s", s.c_str(), name.c_str());
        auto dest = " => " + text_of(m->address);
        EXPECT(s.size() > dest.size() && s.compare(s.size() - dest.size(), dest.size(), dest) == 0, "destination",
               "the message '%s' does not mention its destination%s", s.c_str(), dest.c_str());
        for (auto &x : must)
            EXPECT(has(s, x), "detail", "the message '%s' does not mention '%s'", s.c_str(), x.c_str());
        // a framework message does not look like another one
        auto head = s.substr(0, s.find_first_of(" ", s.find_first_not_of(" ")));
        auto &old = seen[name];
        if (old.empty()) {
            for (auto &p : seen)
                EXPECT(p.first == name || name[0] == '*' || p.second != head || head == "[?]", "ambiguous", "'%s' is the description of both %s and %s",
                       head.c_str(), name.c_str(), p.first.c_str());
            old = head;
        }
        EXPECT(old == head, "ambiguous", "%s is described as '%s' and as '%s'", name.c_str(), head.c_str(), old.c_str());
        return m;
    }
    static std::map<std::string, std::string> seen;
    r::subscription_point_t point() {
        auto &a = *src.pick(actors);
        auto h = a.some_handler((int)src.draw(2));
        auto t = (r::owner_tag_t)src.draw(4);
        return r::subscription_point_t(h, addr(), &a, t);
    }

    r::message_ptr_t make(int depth, std::string &name, std::vector<std::string> &must) {
        auto k = src.draw(37);
        if (k >= 29 && k <= 30 && depth <= 0)
            k = 31;
        switch (k) {
#define P(N, T) \
    name = N; \
    { \
        auto p = point(); \
        must.push_back(text_of((void *)p.address.get())); \
        return r::make_message<T>(addr(), p); \
    }
        case 0:
            P("unsubscription", pl::unsubscription_confirmation_t)
        case 1:
            P("unsubscription_external", pl::external_unsubscription_t)
        case 2:
            P("subscription", pl::subscription_confirmation_t)
        case 3:
            P("external_subscription", pl::external_subscription_t)
        case 4:
            P("commit_unsubscription", pl::commit_unsubscription_t)
#undef P
        case 5:
            name = "init_request";
            return request<pl::initialize_actor_t>();
        case 6:
            name = "init_response";
            return response<pl::initialize_actor_t>(must, depth, request<pl::initialize_actor_t>());
        case 7:
            name = "start_trigger";
            return r::make_message<pl::start_actor_t>(addr());
        case 8: {
            name = "shutdown_trigger";
            std::string f;
            auto e = maybe_error(f, depth);
            must.push_back(f);
            must.push_back(text_of(addrs[0]).substr(0, 2));
            return r::make_message<pl::shutdown_trigger_t>(addr(), addr(), e);
        }
        case 9: {
            name = "shutdown_request";
            std::string f;
            auto e = maybe_error(f, depth);
            must.push_back(f);
            return request<pl::shutdown_request_t>(e);
        }
        case 10:
            name = "shutdown_response";
            return response<pl::shutdown_request_t>(must, depth, request<pl::shutdown_request_t>(r::extended_error_ptr_t{}));
        case 11: {
            name = "create_actor";
            must.push_back("act_t");
            return r::make_message<pl::create_actor_t>(addr(), r::actor_ptr_t(src.pick(actors)), us(5));
        }
        case 12: {
            name = "spawn_actor";
            auto &a = addr();
            must.push_back(text_of(a));
            return r::make_message<pl::spawn_actor_t>(addr(), a);
        }
#define S(N, ...) \
    name = N; \
    { \
        auto w = word(); \
        must.push_back(w); \
        __VA_ARGS__ \
    }
        case 13:
            S("registration_request", auto &a = addr(); must.push_back(text_of(a)); return request<pl::registration_request_t>(w, a);)
        case 14:
            S("registration_response",
              return response<pl::registration_request_t>(must, depth, request<pl::registration_request_t>(w, addr()));)
        case 15: {
            name = "deregistration_notify";
            auto &a = addr();
            must.push_back(text_of(a));
            return r::make_message<pl::deregistration_notify_t>(addr(), a);
        }
        case 16:
            S("deregistration_service", return r::make_message<pl::deregistration_service_t>(addr(), w);)
        case 17:
            S("discovery_request", return request<pl::discovery_request_t>(w);)
        case 18:
            S("discovery_response", return response<pl::discovery_request_t>(must, depth, request<pl::discovery_request_t>(w), addr());)
        case 19:
            S("discovery_promise", return request<pl::discovery_promise_t>(w);)
        case 20:
            S("discovery_future", return response<pl::discovery_promise_t>(must, depth, request<pl::discovery_promise_t>(w), addr());)
#undef S
        case 21: {
            name = "discovery_cancel";
            auto &a = addr();
            must.push_back(text_of(a));
            using c_t = r::request_traits_t<pl::discovery_promise_t>::cancel::cancel_payload_t;
            return r::make_message<c_t>(addr(), c_t{(r::request_id_t)src.draw(100), a});
        }
        case 22:
            name = "link_request";
            return request<pl::link_request_t>(src.chance(50));
        case 23:
            name = "link_response";
            return response<pl::link_request_t>(must, depth, request<pl::link_request_t>(src.chance(50)));
        case 24: {
            name = "unlink_notify";
            auto &a = addr();
            must.push_back(text_of(a));
            return r::make_message<pl::unlink_notify_t>(addr(), a);
        }
        case 25: {
            name = "unlink_request";
            auto &a = addr();
            must.push_back(text_of(a));
            return request<pl::unlink_request_t>(a);
        }
        case 26:
            name = "unlink_response";
            return response<pl::unlink_request_t>(must, depth, request<pl::unlink_request_t>(addr()), addr());
        case 27:
        case 28:
        case 29:
        case 30: { // a call of a handler of other locality, with any message in it
            name = "handler_call";
            auto m = message(depth - 1);
            must.push_back(st->stringify(*m));
            auto &a = src.pick(actors);
            must.push_back(text_of((void *)static_cast<r::actor_base_t *>(a.get())));
            return r::make_message<pl::handler_call_t>(addr(), m, a->some_handler(0));
        }
        case 31:
            name = "*payload_t<0>";
            must.push_back("sim::payload_t<0>");
            name = "payload_t<0>";
            return r::make_message<payload_t<0>>(addr(), W_ID());
        case 32: {
            auto id = W_ID();
            name = custom ? "my::parcel" : "payload_t<7>";
            if (custom)
                must.push_back("#" + std::to_string(id) + " ");
            return r::make_message<payload_t<7>>(addr(), id);
        }
        case 33:
            name = "note_req";
            return request<note_req>(5);
        case 34: {
            name = "wrapped_response_t";
            std::string f;
            (void)maybe_error(f, 0);
            return response<note_req>(*std::make_unique<std::vector<std::string>>(), 0, request<note_req>(5));
        }
        case 35: {
            name = "cancellation_t";
            using c_t = r::request_traits_t<note_req>::cancel::cancel_payload_t;
            return r::make_message<c_t>(addr(), c_t{1, addr()});
        }
        default:
            name = "heavy_req";
            return request<heavy_req>();
        }
    }
};
std::map<std::string, std::string> gen_t::seen;


void check_codes() {
    std::set<std::string> texts;
    auto one = [&](const std::error_code &ec, int v) {
        auto t = ec.message();
        EXPECT(ec.value() == v, "code", "the value of the code %d is %d", v, ec.value());
        EXPECT(!t.empty() && t.find("unknown") != 0, "code", "%s:%d has no description", ec.category().name(), v);
        EXPECT(texts.insert(t).second, "code", "the description '%s' is used twice", t.c_str());
        EXPECT((bool)ec == (v != 0), "code", "%s:%d is %sa failure", ec.category().name(), v, ec ? "" : "not ");
    };
    using e = r::error_code_t;
    for (auto c : {e::success, e::cancelled, e::request_timeout, e::supervisor_defined, e::already_registered, e::actor_misconfigured,
                   e::actor_not_linkable, e::already_linked, e::failure_escalation, e::registration_failed, e::discovery_failed, e::unknown_service}) {
        std::error_code x = c;
        EXPECT(x == r::make_error_code(c) && x.category() == r::error_code_category(), "code", "wrong category of %d", (int)c);
        one(x, (int)c);
    }
    using s = r::shutdown_code_t;
    for (auto c : {s::normal, s::supervisor_shutdown, s::child_down, s::child_init_failed, s::init_failed, s::unlink_requested}) {
        std::error_code x = c;
        EXPECT(x == r::make_error_code(c) && x.category() == r::shutdown_code_category(), "code", "wrong category of %d", (int)c);
        one(x, (int)c);
    }
    EXPECT(std::string(r::error_code_category().name()) != r::shutdown_code_category().name(), "code", "categories are not distinguished");
    EXPECT(r::make_error_code(e::success) != r::make_error_code(s::normal), "code", "codes of different categories are equal");
    for (int c : {-1, 12, 100, 1 << 30})
        EXPECT(!r::error_code_category().message(c).empty() && !r::shutdown_code_category().message(c).empty(), "code", "code %d has no text", c);
}

// real traffic with the inspection of the delivery
struct live_t : act_t {
    static std::vector<r::address_ptr_t> *A;
    static int *SENT;
    static src_t *S;
    using act_t::act_t;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        act_t::configure(p);
        auto &src = *S;
        p.with_casted<r::plugin::registry_plugin_t>([&](auto &p) {
            if (m->tag & 1)
                p.register_name("svc-" + std::to_string(m->id), get_address());
            if (m->tag & 2)
                p.discover_name("svc-" + std::to_string(m->id - 1), found, true).link(src.chance(50));
        });
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &p) {
            p.subscribe_actor(&live_t::on);
            p.subscribe_actor(&live_t::on_req);
            p.subscribe_actor(&live_t::on_res);
            if (A->size() && src.chance(50))
                p.subscribe_actor(&live_t::on, src.pick(*A));
            A->push_back(get_address());
        });
    }
    r::address_ptr_t found;
    void on(msg_t<0> &) noexcept {}
    void on_req(r::request_traits_t<note_req>::request::message_t &q) noexcept {
        if (S->chance(30))
            reply_with_error(q, make_error(r::make_error_code(r::error_code_t::cancelled)));
        else if (S->chance(50))
            reply_to(q);
    }
    void on_res(r::request_traits_t<note_req>::response::message_t &) noexcept {}
    void act() {
        auto &src = *S;
        auto &a = src.pick(*A);
        if (src.chance(60)) {
            ++*SENT;
            send<payload_t<0>>(a, (uint64_t)1);
        } else
            request<note_req>(a, 5).send(us(src.range(1, 20) * MS));
    }
};
std::vector<r::address_ptr_t> *live_t::A;
int *live_t::SENT;
src_t *live_t::S;

void live(src_t &src) {
    std::ostringstream out;
    auto *old = std::cout.rdbuf(out.rdbuf());
    int level = src.pick(std::vector<int>{30, 0, 1, 5, 8, 9, 10, 15});
    setenv("ROTOR_INSPECT_DELIVERY", std::to_string(level).c_str(), 1);
    int sent = 0;
    std::vector<r::address_ptr_t> addrs;
    std::set<std::string> kinds;
    size_t lines = 0;
    {
        world_t w(src);
        live_t::A = &addrs;
        live_t::SENT = &sent;
        live_t::S = &src;
        sup_opts_t o;
        o.registry = true;
        o.loc = w.new_loc();
        std::vector<sup_t *> sups{make_root<>(o)};
        o.registry = false;
        for (auto c = src.range(0, 2); c > 0; --c) {
            o.loc = src.chance(60) ? w.new_loc() : sups[0]->loc;
            w.in_loc(sups[0]->loc->id, [&] { sups.push_back(make_child_sup<>(*sups[0], o)); });
        }
        w.settle(0);
        std::vector<r::intrusive_ptr_t<live_t>> l;
        for (auto c = src.range(1, 5); c > 0; --c) {
            auto *s = src.pick(sups);
            act_opts_t ao;
            ao.tag = (int)src.draw(4);
            ao.init_timeout = src.range(5, 50) * MS;
            w.in_loc(s->loc->id, [&] { l.push_back(make_actor<live_t>(*s, ao)); });
            if (src.chance(50))
                w.settle(w.now);
        }
        if (src.chance(30)) {
            auto n = std::make_shared<int>(0);
            w.in_loc(sups[0]->loc->id, [&] {
                sups[0]->spawn([n](r::supervisor_t &s, const r::address_ptr_t &a) -> r::actor_ptr_t {
                    if (++*n == 1)
                        throw std::runtime_error("no actor");
                    W->next_parent = static_cast<sup_t &>(s).m->id;
                    return s.create_actor<act_t>().timeout(us(FAR)).spawner_address(a).finish();
                }).restart_policy(r::restart_policy_t::always).restart_period(us(1 * MS)).spawn();
            });
        }
        w.settle(w.now + 100 * MS);
        for (auto c = src.range(2, 30); c > 0; --c) {
            auto &x = src.pick(l);
            if (x->m->operational())
                w.in_loc(x->m->loc, [&] { x->act(); });
            else if (!x->m->stopping() && src.chance(20))
                w.in_loc(x->m->loc, [&] { x->do_shutdown(); });
            if (src.chance(60))
                w.step(w.now + 5 * MS);
        }
        w.settle(w.now + 100 * MS);
        l.clear();
        addrs.clear();
        if (!sups[0]->m->stopping())
            w.in_loc(sups[0]->loc->id, [&] { sups[0]->do_shutdown(); });
        w.settle(w.now + LIMIT);
        check_nothing_left("leftover");
    }
    std::cout.rdbuf(old);
    int user = 0;
    std::istringstream in(out.str());
    std::string line;
    static const std::regex RE("^(>> |<DISCARDED> )\\{([0-9]+)\\} (.+) => (0x[0-9a-f]+|0)$");
    while (std::getline(in, line)) {
        ++lines;
        std::smatch x;
        EXPECT(std::regex_match(line, x, RE), "inspection", "malformed dump of a message: %s", line.c_str());
        EXPECT(std::stoi(x[2]) <= level, "inspection-level", "a message above the level %d is shown: %s", level, line.c_str());
        auto t = x[3].str();
        bool fw = t.compare(0, 3, "r::") == 0;
        if (fw)
            kinds.insert(t.substr(0, t.find(' ')));
        EXPECT(fw || t.compare(0, 4, "[?] ") == 0, "inspection", "unexpected dump %s", line.c_str());
        user += !fw && has(t, "payload_t<0>");
    }
    EXPECT(user == sent, "inspection", "%d user messages have been sent, %d of them are shown", sent, user);
    eng::count("lines of the live inspection", lines);
    eng::label("live traffic");
    if (level >= 15 ? kinds.size() >= 5 : lines > 0)
        eng::nontrivial();
}

// the same small life under two thresholds: the kinds of messages up to the threshold are shown equally often
struct plain_t : act_t {
    using act_t::act_t;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        act_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &pl) { pl.subscribe_actor(&plain_t::on); });
    }
    void on(msg_t<0> &) noexcept {}
};
// (no registry: linked actors go down in the order of pointers)
void levels(src_t &src) {
    int threshold = (int)src.draw(22);
    int n = (int)src.range(1, 3), children = (int)src.draw(2), msgs = (int)src.draw(4);
    bool spawn = src.chance(50);
    using key_t = std::pair<std::string, int>;
    auto life = [&](int level) {
        std::ostringstream out;
        auto *old = std::cout.rdbuf(out.rdbuf());
        setenv("ROTOR_INSPECT_DELIVERY", std::to_string(level).c_str(), 1);
        {
            world_t w(src);
            sup_opts_t o;
            o.loc = w.new_loc();
            auto *root = make_root<>(o);
            auto run = [&] { // no choices
                while (w.any_work())
                    w.process(0);
            };
            run();
            for (int i = 0; i < children; ++i)
                w.in_loc(0, [&] { make_child_sup<>(*root, o); });
            run();
            std::vector<r::intrusive_ptr_t<plain_t>> l;
            for (int i = 0; i < n; ++i) {
                w.in_loc(0, [&] { l.push_back(make_actor<plain_t>(*root)); });
                run();
            }
            if (spawn)
                w.in_loc(0, [&] {
                    root->spawn([](r::supervisor_t &s, const r::address_ptr_t &a) -> r::actor_ptr_t {
                        W->next_parent = static_cast<sup_t &>(s).m->id;
                        return s.create_actor<act_t>().timeout(us(FAR)).spawner_address(a).finish();
                    }).spawn();
                });
            for (int i = 0; i < msgs; ++i)
                w.in_loc(0, [&] { l[0]->send<payload_t<0>>(l[i % n]->get_address(), (uint64_t)1); });
            run();
            l.clear();
            w.in_loc(0, [&] { root->do_shutdown(); });
            run();
            check_nothing_left("leftover");
        }
        std::cout.rdbuf(old);
        std::map<key_t, int> c;
        std::istringstream in(out.str());
        std::string line;
        static const std::regex RE("^(>> |<DISCARDED> )\\{([0-9]+)\\} (\\S+).*$");
        while (std::getline(in, line)) {
            std::smatch x;
            EXPECT(std::regex_match(line, x, RE), "inspection", "malformed dump of a message: %s", line.c_str());
            ++c[{x[3].str(), std::stoi(x[2])}];
        }
        return c;
    };
    auto all = life(1000), some = life(threshold);
    int exact = 0;
    for (auto &[k, v] : all) {
        auto want = k.second <= threshold ? v : 0;
        auto it = some.find(k);
        auto got = it == some.end() ? 0 : it->second;
        EXPECT(want == got, "inspection-level", "with the level %d chosen, %d messages '%s' of the level %d are shown, expected %d", threshold,
               got, k.first.c_str(), k.second, want);
        exact += k.second == threshold;
    }
    EXPECT(all.size() >= 5, "inspection", "%zu kinds of messages are shown", all.size());
    eng::label(exact ? "messages of exactly the chosen level" : "levels");
    eng::nontrivial();
}

void run(src_t &src) {
    if (src.chance(15))
        return live(src);
    if (src.chance(5))
        return levels(src);
    check_codes();
    world_t w(src);
    gen_t g{src};
    g.seen.clear();
    g.custom = src.chance(40);
    r::intrusive_ptr_t<ctx_t> c(g.custom ? new my_ctx_t() : new ctx_t());
    w.ctxs.push_back(c);
    sup_opts_t o;
    o.loc = w.new_loc();
    r::intrusive_ptr_t<sup_t> root;
    w.in_loc(0, [&] { root = apply_opts(c->create_supervisor<sup_t>(), o); });
    w.keep.push_back(root);
    g.st = &c->get_stringifier();
    g.addrs.push_back(root->get_address());
    for (auto n = src.range(1, 3); n > 0; --n) {
        w.in_loc(0, [&] { g.actors.push_back(make_actor<tact_t>(*root)); });
        g.addrs.push_back(g.actors.back()->get_address());
    }
    w.settle(0);
    auto n = src.range(1, 12);
    size_t chain = 0, rqs = 0;
    for (int i = 0; i < n; ++i) {
        if (src.chance(50)) {
            auto m = g.message(2);
            eng::trace("  %s", g.st->stringify(*m).c_str());
        } else {
            gen_t::expected_t x;
            auto e = g.error(x, src.chance(10) ? (eng::thorough() ? 300 : 60) : 6, 2);
            auto a = e->message(g.st), b = e->message();
            eng::trace("  %s", a.c_str());
            EXPECT(b == x.without, "error-text", "the text of an error is '%s', expected '%s'", b.c_str(), x.without.c_str());
            EXPECT(a == x.with, "error-text", "the text of an error with the requests is '%s', expected '%s'", a.c_str(), x.with.c_str());
            auto root = e->root();
            EXPECT(root && !root->next && root->ec == x.root, "root", "wrong root of an error of %zu levels", x.len);
            auto *p = e.get();
            while (p->next)
                p = p->next.get();
            EXPECT(p == root.get(), "root", "the root is not the innermost cause");
            chain = std::max(chain, x.len);
            rqs += x.requests;
            // the error which is made by an actor
            auto &act = src.pick(g.actors);
            auto ec = g.code();
            auto y = act->make_error(ec, e);
            EXPECT(y->context == act->identity && y->ec == ec && y->next == e && !y->request, "make_error", "make_error() of an actor loses something");
            EXPECT(y->message() == act->identity + " " + ec.message() + " <- " + x.without, "error-text", "wrong text '%s'", y->message().c_str());
            EXPECT(y->root() == root, "root", "wrong root after wrapping");
        }
    }
    if (g.custom)
        EXPECT(static_cast<my_ctx_t &>(*c).made == 1, "stringifier", "the stringifier is made %d times", static_cast<my_ctx_t &>(*c).made);
    EXPECT(&c->get_stringifier() == g.st, "stringifier", "the stringifier is changed");
    eng::count("messages rendered", g.rendered);
    eng::count("errors with causes", chain > 1);
    eng::count("requests in errors", rqs);
    if (chain > 1 && g.rendered > 1)
        eng::nontrivial();
    g.actors.clear();
    g.addrs.clear();
    c.reset();
    root->do_shutdown();
    w.settle(LIMIT);
    root.reset();
    check_nothing_left("leftover");
}
} // namespace

eng::property_t eng::property = {
    "C17",
    "chains of errors (1-60, thorough 1-300 levels) with random contexts, codes and requests in them; messages of every framework type and of "
    "user types with optional parts, nested calls, default and user-defined stringifiers; live traffic of small systems under "
    "inspection of the delivery; non-trivial: a chain with a cause and at least two messages, or live traffic with at least five kinds of messages",
    20000, 500000, 40, 8, 20, 0, run, nullptr};
