// Configuration: what is built from what (P20).
#include "sim.hpp"
#include <algorithm>
#include <atomic>

namespace sim { namespace cfg { namespace tag {
struct init_to {}; struct shut_to {}; struct mask {}; struct spawner {};
struct policy {}; struct registry {}; struct sync {}; struct queue_size {}; struct poll {}; struct flag {}; struct freq {}; struct parent {}; struct fire {}; struct queue {};
} } }
namespace rotor {
namespace ct = sim::cfg::tag;
template <> inline auto &actor_base_t::access<ct::init_to>() noexcept { return init_timeout; }
template <> inline auto &actor_base_t::access<ct::shut_to>() noexcept { return shutdown_timeout; }
template <> inline auto &actor_base_t::access<ct::mask>() noexcept { return continuation_mask; }
template <> inline auto &actor_base_t::access<ct::spawner>() noexcept { return spawner_address; }
template <> inline auto actor_base_t::access<ct::fire, request_id_t, bool>(request_id_t id, bool cancelled) noexcept { on_timer_trigger(id, cancelled); }
template <> inline auto &supervisor_t::access<ct::policy>() noexcept { return policy; }
template <> inline auto &supervisor_t::access<ct::registry>() noexcept { return create_registry; }
template <> inline auto &supervisor_t::access<ct::sync>() noexcept { return synchronize_start; }
template <> inline auto &supervisor_t::access<ct::queue_size>() noexcept { return inbound_queue_size; }
template <> inline auto &supervisor_t::access<ct::poll>() noexcept { return poll_duration; }
template <> inline auto &supervisor_t::access<ct::flag>() noexcept { return shutdown_flag; }
template <> inline auto &supervisor_t::access<ct::freq>() noexcept { return shutdown_poll_frequency; }
template <> inline auto &supervisor_t::access<ct::parent>() noexcept { return parent; }
template <> inline auto &supervisor_t::access<ct::queue>() noexcept { return queue; }
}
namespace sim { namespace cfg {
static int alive, built;
struct ctx2_t : r::system_context_t {
    std::vector<r::extended_error_ptr_t> errs; std::vector<r::actor_base_t *> by;
    void on_error(r::actor_base_t *a, const r::extended_error_ptr_t &e) noexcept override { errs.push_back(e); by.push_back(a); tracef("error %s", e->ec.message().c_str()); }
};
struct acfg_t : r::actor_config_t { using r::actor_config_t::actor_config_t; int foo = -1; std::string bar = "none"; };
template <class A> struct abuild_t : r::actor_config_builder_t<A> {
    using builder_t = typename A::template config_builder_t<A>;
    using parent_t = r::actor_config_builder_t<A>;
    using parent_t::parent_t;
    constexpr static const std::uint32_t FOO = 1 << 2;
    constexpr static const std::uint32_t requirements_mask = parent_t::requirements_mask | FOO;
    builder_t &&foo(int v) && { parent_t::config.foo = v; parent_t::mask &= ~FOO; return std::move(*static_cast<builder_t *>(this)); }
    builder_t &&bar(std::string v) && { parent_t::config.bar = v; return std::move(*static_cast<builder_t *>(this)); }
    bool validate() noexcept override { return parent_t::validate() && parent_t::config.bar != "bad"; }
};
struct rich_t : r::actor_base_t {
    using config_t = acfg_t; template <class A> using config_builder_t = abuild_t<A>;
    int foo; std::string bar; bool up = false;
    explicit rich_t(acfg_t &c) : r::actor_base_t(c), foo(c.foo), bar(c.bar) { ++alive; ++built; }
    ~rich_t() { --alive; }
    void on_start() noexcept override { r::actor_base_t::on_start(); up = true; }
};
struct poor_t : r::actor_base_t { // the stock builder
    bool up = false;
    explicit poor_t(r::actor_config_t &c) : r::actor_base_t(c) { ++alive; ++built; }
    ~poor_t() { --alive; }
    void on_start() noexcept override { r::actor_base_t::on_start(); up = true; }
};
struct csup_t : r::supervisor_t {
    struct tm_t { r::timer_handler_base_t *h; r::pt::time_duration i; };
    std::map<r::request_id_t, tm_t> timers; std::vector<r::pt::time_duration> intervals; bool up = false, down = false;
    explicit csup_t(r::supervisor_config_t &c) : r::supervisor_t(c) { ++alive; ++built; }
    ~csup_t() { --alive; }
    void do_start_timer(const r::pt::time_duration &i, r::timer_handler_base_t &h) noexcept override { timers[h.request_id] = {&h, i}; intervals.push_back(i); }
    void do_cancel_timer(r::request_id_t id) noexcept override { auto it = timers.find(id); if (it == timers.end()) { violate("P05", "cancel of an unknown timer"); return; } auto o = it->second.h->owner; timers.erase(it); o->access<tag::fire, r::request_id_t, bool>(id, true); }
    void start() noexcept override {} void shutdown() noexcept override {}
    void enqueue(r::message_ptr_t m) noexcept override { this->access<tag::queue>().emplace_back(std::move(m)); }
    void on_start() noexcept override { r::supervisor_t::on_start(); up = true; }
    void shutdown_finish() noexcept override { r::supervisor_t::shutdown_finish(); down = true; }
    size_t children() { return alive_actors_count(); }
    size_t alive_actors_count();
};
struct alive_tag {};
} }
namespace rotor { template <> inline auto &supervisor_t::access<sim::cfg::alive_tag>() noexcept { return alive_actors; } }
namespace sim { namespace cfg {
size_t csup_t::alive_actors_count() { return this->access<alive_tag>().size(); }
using td = r::pt::time_duration;
struct want_t { // options, as they were set
    bool has_i = false, has_s = false, has_foo = false; td i, s; r::address_ptr_t spawner; bool esc = false, aut = false;
    int foo = -1; std::string bar = "none";
    r::supervisor_policy_t policy = r::supervisor_policy_t::shutdown_self; bool reg = false, sync = false; r::address_ptr_t reg_addr; size_t qsize = 64; td poll = r::pt::millisec{1}; const std::atomic_bool *flag = nullptr; td freq = r::pt::millisec{100};
};
struct model_t {
    world_t &w; rng_t &g; std::vector<std::unique_ptr<std::atomic_bool>> flags;
    td t() { return g.chance(0.1) ? td(r::pt::microseconds(g.range(0, 3))) : us(1000000 + g.below(100000000)); }
    template <class B> void actor_option(B &b, want_t &x, const std::vector<r::address_ptr_t> &addrs, double p_timeout) {
        switch (g.range(0, 5)) {
        case 0: if (g.chance(p_timeout)) { auto v = t(); std::move(b).timeout(v); x.i = x.s = v; x.has_i = x.has_s = true; tracef(".timeout"); } break;
        case 1: if (g.chance(p_timeout)) { auto v = t(); std::move(b).init_timeout(v); x.i = v; x.has_i = true; tracef(".init_timeout"); } break;
        case 2: if (g.chance(p_timeout)) { auto v = t(); std::move(b).shutdown_timeout(v); x.s = v; x.has_s = true; tracef(".shutdown_timeout"); } break;
        case 3: if (!addrs.empty() && g.chance(0.3)) { auto a = g.pick(addrs); std::move(b).spawner_address(a); x.spawner = a; tracef(".spawner_address"); } break;
        case 4: { bool v = g.chance(0.5); std::move(b).escalate_failure(v); x.esc = v; tracef(".escalate"); } break;
        case 5: { bool v = g.chance(0.5); std::move(b).autoshutdown_supervisor(v); x.aut = v; tracef(".autoshutdown"); } break;
        }
    }
    template <class B> void sup_option(B &b, want_t &x, const std::vector<r::address_ptr_t> &addrs) {
        switch (g.range(0, 6)) {
        case 0: { auto v = g.chance(0.5) ? r::supervisor_policy_t::shutdown_self : r::supervisor_policy_t::shutdown_failed; std::move(b).policy(v); x.policy = v; tracef(".policy"); } break;
        case 1: { bool v = g.chance(0.5); std::move(b).create_registry(v); x.reg = v; tracef(".create_registry(%d)", v); } break;
        case 2: { bool v = g.chance(0.5); std::move(b).synchronize_start(v); x.sync = v; tracef(".sync"); } break;
        case 3: if (!addrs.empty() && g.chance(0.5)) { auto a = g.chance(0.2) ? r::address_ptr_t() : g.pick(addrs); std::move(b).registry_address(a); x.reg_addr = a; tracef(".registry_address(%d)", bool(a)); } break;
        case 4: { size_t v = g.below(2000); std::move(b).inbound_queue_size(v); x.qsize = v; tracef(".queue"); } break;
        case 5: { auto v = us(g.below(5000)); std::move(b).poll_duration(v); x.poll = v; tracef(".poll"); } break;
        case 6: { flags.emplace_back(new std::atomic_bool(false)); auto v = us(1 + g.below(100000)); std::move(b).shutdown_flag(*flags.back(), v); x.flag = flags.back().get(); x.freq = v; tracef(".flag"); } break;
        }
    }
    template <class B> void rich_option(B &b, want_t &x) {
        if (g.chance(0.5)) { int v = g.range(0, 100); std::move(b).foo(v); x.foo = v; x.has_foo = true; tracef(".foo"); }
        else { std::string v = g.chance(0.3) ? "bad" : fmt("b%d", g.range(0, 99)); std::move(b).bar(v); x.bar = v; tracef(".bar"); }
    }
    void same(const char *what, bool ok) { if (!ok) violate("P20", "option '%s' is not as configured", what); }
    void check_actor(r::actor_base_t &a, want_t &x) {
        same("init_timeout", a.access<tag::init_to>() == x.i); same("shutdown_timeout", a.access<tag::shut_to>() == x.s);
        same("spawner_address", a.access<tag::spawner>() == x.spawner);
        auto m = a.access<tag::mask>();
        same("escalate_failure", bool(m & r::actor_base_t::ESCALATE_FALIURE) == x.esc); same("autoshutdown_supervisor", bool(m & r::actor_base_t::AUTOSHUTDOWN_SUPERVISOR) == x.aut);
        if (!a.get_address()) violate("P20", "an instance without address");
    }
    void check_sup(csup_t &s, want_t &x, csup_t *parent) {
        check_actor(s, x);
        same("policy", s.access<tag::policy>() == x.policy); same("create_registry", s.access<tag::registry>() == x.reg); same("synchronize_start", s.access<tag::sync>() == x.sync);
        same("inbound_queue_size", s.access<tag::queue_size>() == x.qsize); same("poll_duration", s.access<tag::poll>() == x.poll);
        same("shutdown_flag", s.access<tag::flag>() == x.flag); same("shutdown_poll_frequency", s.access<tag::freq>() == x.freq);
        auto &ra = s.get_registry_address();
        if (x.reg) { if (!ra || ra == x.reg_addr || (parent && ra == parent->get_registry_address())) violate("P20", "no registry is created though it was asked for"); }
        else if (x.reg_addr) { if (ra != x.reg_addr) violate("P20", "another registry address than configured"); }
        else if (parent ? ra != parent->get_registry_address() : bool(ra)) violate("P20", "unexpected registry address");
        if (s.access<tag::parent>() != parent) violate("P20", "another parent than configured");
    }
    bool has(const std::vector<td> &v, td x) { return std::find(v.begin(), v.end(), x) != v.end(); }
};
template <class B> static void shuffle_options(model_t &m, B &&one) { int n = m.g.range(0, 14); while (n--) one(); }

static void fn(world_t &w) {
    auto &g = w.rng; model_t m{w, g, {}};
    alive = built = 0;
    {
        r::intrusive_ptr_t<ctx2_t> ctx(new ctx2_t());
        std::vector<r::address_ptr_t> none;
        r::intrusive_ptr_t<csup_t> root; want_t rx;
        size_t errs = 0;
        auto failed = [&](const char *what, std::initializer_list<r::error_code_t> codes) {
            if (ctx->errs.size() != errs + 1) violate("P20", "%d errors are reported for a misconfigured %s", int(ctx->errs.size() - errs), what);
            else { bool ok = false; for (auto c : codes) ok |= ctx->errs.back() && ctx->errs.back()->ec == r::make_error_code(c); if (!ok) violate("P20", "misconfiguration of %s is reported as '%s'", what, ctx->errs.back()->message().c_str()); }
            errs = ctx->errs.size(); count(std::string("misconfigured, ") + what);
        };
        // the root: several attempts
        for (int k = 0; !root && k < 20; ++k) {
            want_t x; int b0 = built;
            tracef("root?");
            auto b = ctx->create_supervisor<csup_t>();
            shuffle_options(m, [&] { if (g.chance(0.6)) m.actor_option(b, x, none, k > 10 ? 1 : 0.7); else m.sup_option(b, x, none); });
            if (g.chance(0.1)) { if (built != b0 || ctx->errs.size() != errs) violate("P20", "an unfinished configuration has effects"); continue; }
            bool ok = x.has_i && x.has_s;
            auto s = std::move(b).finish();
            if (!ok) {
                if (s || ctx->get_supervisor()) violate("P20", "a root supervisor is made of an incomplete configuration");
                if (built != b0) violate("P20", "an instance is created of an incomplete configuration");
                failed("root", {r::error_code_t::actor_misconfigured});
                if (s) { root = s; rx = x; }
            } else {
                if (!s) { violate("P20", "a root supervisor is not made of a complete configuration"); continue; }
                if (built != b0 + 1) violate("P20", "%d instances are created instead of one", built - b0);
                if (ctx->errs.size() != errs) { violate("P20", "an error is reported for a complete configuration"); errs = ctx->errs.size(); }
                root = s; rx = x; count("configured, root");
                if (ctx->get_supervisor() != root) violate("P20", "the root supervisor is not known to the system");
            }
        }
        if (root) {
            m.check_sup(*root, rx, nullptr);
            if (!m.has(root->intervals, rx.i)) violate("P20", "initialization of the root is not limited by its timeout");
            std::vector<r::address_ptr_t> addrs{root->get_address()};
            std::vector<r::intrusive_ptr_t<csup_t>> sups{root}; std::vector<want_t> wants{rx}; std::vector<bool> processed{false};
            struct child_t { r::actor_ptr_t a; want_t x; size_t sup; std::function<bool()> up; };
            std::vector<child_t> kids;
            bool risky = false; // instances which time out or shut down others are not followed
            int n = g.range(1, 12);
            auto second = [&] {
                want_t x; int b0 = built; auto sz = root->access<tag::queue>().size(); auto iv = root->intervals.size(), tm = root->timers.size();
                tracef("second root?");
                auto b = ctx->create_supervisor<csup_t>();
                shuffle_options(m, [&] { if (g.chance(0.6)) m.actor_option(b, x, addrs, 0.8); else m.sup_option(b, x, addrs); });
                bool ok = x.has_i && x.has_s && !(x.reg && x.reg_addr);
                auto s = std::move(b).finish();
                if (s) violate("P20", "the second root supervisor is created");
                if (!ok && built != b0) violate("P20", "an instance is created of an incomplete configuration");
                if (ok) failed("second root", {r::error_code_t::supervisor_defined}); else failed("second root, incomplete", {r::error_code_t::supervisor_defined, r::error_code_t::actor_misconfigured});
                if (ctx->get_supervisor() != root) violate("P20", "the second root supervisor replaces the first one");
                if (root->access<tag::queue>().size() != sz || root->intervals.size() != iv || root->timers.size() != tm) violate("P20", "the second root supervisor disturbs the first one");
                m.check_sup(*root, rx, nullptr);
            };
            for (int k = 0; k < n; ++k) {
                if (g.chance(0.15)) { second(); continue; }
                size_t si = g.below(sups.size()); auto p = sups[si].get();
                want_t x; int b0 = built; auto qs = root->access<tag::queue>().size(); auto ch = p->children();
                auto judge = [&](bool ok, r::actor_base_t *a, const char *what) {
                    if (!ok) {
                        if (a) violate("P20", "%s is made of an incomplete configuration", what);
                        if (built != b0) violate("P20", "an instance is created of an incomplete configuration");
                        if (root->access<tag::queue>().size() != qs || p->children() != ch) violate("P20", "a misconfigured %s disturbs its supervisor", what);
                        failed(what, {r::error_code_t::actor_misconfigured});
                        return false;
                    }
                    if (!a) { violate("P20", "%s is not made of a complete configuration", what); errs = ctx->errs.size(); return false; }
                    if (built != b0 + 1) violate("P20", "%d instances are created instead of one", built - b0);
                    if (ctx->errs.size() != errs) { violate("P20", "an error is reported for a complete configuration"); errs = ctx->errs.size(); }
                    count(std::string("configured, ") + what);
                    addrs.push_back(a->get_address());
                    return true;
                };
                int kind = g.range(0, 2);
                tracef("%s?", kind == 0 ? "plain" : kind == 1 ? "rich" : "sup");
                if (kind == 0) {
                    auto b = p->create_actor<poor_t>();
                    shuffle_options(m, [&] { m.actor_option(b, x, none, 0.8); });
                    auto a = std::move(b).finish();
                    if (judge(x.has_i && x.has_s, a.get(), "actor")) { m.check_actor(*a, x); auto q = a.get(); if (&q->get_supervisor() != p) violate("P20", "another supervisor than configured"); kids.push_back({a, x, si, [q] { return q->up; }}); }
                } else if (kind == 1) {
                    auto b = p->create_actor<rich_t>();
                    shuffle_options(m, [&] { if (g.chance(0.5)) m.actor_option(b, x, none, 0.9); else m.rich_option(b, x); });
                    auto a = std::move(b).finish();
                    if (judge(x.has_i && x.has_s && x.has_foo && x.bar != "bad", a.get(), "actor with own options")) { m.check_actor(*a, x); m.same("foo", a->foo == x.foo); m.same("bar", a->bar == x.bar); auto q = a.get(); kids.push_back({a, x, si, [q] { return q->up; }}); }
                } else {
                    auto b = p->create_actor<csup_t>();
                    shuffle_options(m, [&] { if (g.chance(0.6)) m.actor_option(b, x, none, 0.9); else m.sup_option(b, x, addrs); });
                    bool conflict = x.reg && x.reg_addr;
                    auto a = std::move(b).finish();
                    if (conflict && x.has_i && x.has_s) count("two registries");
                    if (judge(x.has_i && x.has_s && !conflict, a.get(), "supervisor")) { m.check_sup(*a, x, p); sups.push_back(a); wants.push_back(x); auto q = a.get(); kids.push_back({a, x, si, [q] { return q->up; }}); }
                }
                if (g.chance(0.2)) { risky = true; root->do_process(); }
                if (root->down) break;
            }
            (void)risky;
            root->do_process();
            // the requests are limited by the timeouts configured
            for (auto &k : kids) if (!m.has(sups[k.sup]->intervals, k.x.i)) violate("P20", "initialization of an actor is not limited by its timeout");
            if (!root->up) violate("P20", "the root is not started");
            for (auto &k : kids) { if (!k.up()) violate("P20", "a configured actor is not started"); m.check_actor(*k.a, k.x); }
            for (size_t i = 0; i < sups.size(); ++i) {
                auto &s = *sups[i]; auto &x = wants[i];
                m.check_sup(s, x, i ? static_cast<csup_t *>(s.access<tag::parent>()) : nullptr);
                size_t own = 0; for (auto &k : kids) own += k.sup == i;
                if (s.children() != own + x.reg + 1) violate("P20", "%d children instead of %d", int(s.children()) - 1, int(own + x.reg));
                if (x.flag && !m.has(s.intervals, x.freq)) violate("P20", "the shutdown flag is not polled with the period configured");
            }
            // a flag shuts down its supervisor
            std::vector<size_t> flagged; for (size_t i = 0; i < sups.size(); ++i) if (wants[i].flag) flagged.push_back(i);
            if (!flagged.empty() && g.chance(0.5)) {
                auto i = g.pick(flagged); auto s = sups[i];
                for (int set = 0; set < 2; ++set) {
                    if (set) *const_cast<std::atomic_bool *>(wants[i].flag) = true;
                    r::request_id_t id = 0; for (auto &t : s->timers) if (t.second.h->owner == s.get() && t.second.i == wants[i].freq) id = t.first;
                    if (!id) { violate("P20", "the shutdown flag is not polled anymore"); break; }
                    s->timers.erase(id);
                    static_cast<r::actor_base_t &>(*s).access<tag::fire, r::request_id_t, bool>(id, false); root->do_process();
                    if (s->down != bool(set)) violate("P20", set ? "the shutdown flag is ignored" : "shut down though the flag is not set");
                }
                count("shutdown flags");
            }
            root->do_shutdown(); root->do_process();
            if (!root->down) violate("P20", "the root is not shut down");
            for (auto &k : kids) if (!m.has(sups[k.sup]->intervals, k.x.s)) violate("P20", "shutdown of an actor is not limited by its timeout");
            if (g.chance(0.3)) { second(); }
        }
        root.reset(); 
    }
    if (alive) violate("P15", "%d instances are never destroyed", alive);
    w.finish();
}
static workload_reg r1("cfg", [](world_t &w) { fn(w); });
} }
