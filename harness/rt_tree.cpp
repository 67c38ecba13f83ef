// A forest which grows and dies while it runs: supervisors on own strands are created, initialized, killed and shut down
// by handlers, with their parents and children executed in other threads. The hooks leave stamps, which are compared.
#include "rt.hpp"
#include "rotor/asio.hpp"
#include <unordered_map>
namespace { namespace to { struct state {}; } }
namespace rotor { template <> inline auto &actor_base_t::access<to::state>() noexcept { return state; } }

namespace rt { namespace grow {
namespace ra = r::asio; namespace asio = boost::asio;
namespace payload {
struct kick_t {};                          // the first thing on the own strand
struct bury_t { r::actor_ptr_t whom; };    // what is sent to a child before its parent knows of its death, is routed first
struct item_t { uint32_t from; counted_t c; };
struct ans_t { uint32_t n; counted_t c; explicit ans_t(uint32_t n_ = 0) : n(n_) {} };
struct ask_t { using response_t = ans_t; uint32_t n; int how; counted_t c; ask_t(uint32_t n_, int h) : n(n_), how(h) {} };
}
using kick_m = r::message_t<payload::kick_t>;
using item_m = r::message_t<payload::item_t>;
using ask_m = r::request_traits_t<payload::ask_t>::request::message_t;
using ans_m = r::request_traits_t<payload::ask_t>::response::message_t;

enum class init_t { at_once, delayed, never, quits };
static constexpr int max_recs = 96, n_strands = 6;
struct group_t { // of a spawner; on the strand of its supervisor
    r::restart_policy_t policy; size_t max; int64_t period_us; bool as_sup; uint32_t attempts = 0; int last = -1; bool throws = false; tp_t last_try; int throwing = 0;
};
struct rec_t {
    std::atomic<uint64_t> init_start{0}, init_finish{0}, start{0}, shut_start{0}, shut_finish{0}, child_down{0};
    std::atomic<int64_t> failed{-1}; // with an error?
    // by the creator, before anybody else sees it
    int parent = -1, strand = 0; bool is_sup = false, sync = false, links = false; std::string name;
    r::actor_ptr_t keep; std::atomic<r::supervisor_t *> sup{nullptr};
    std::atomic<int> n_linked{0}; std::array<std::atomic<int>, 4> linked{}; std::array<std::atomic<uint64_t>, 4> unlinked{}; // its servers
};
struct case_t {
    std::array<rec_t, max_recs> recs;
    asio::io_context *io = nullptr; std::array<mon_t, n_strands> mons; std::array<ra::supervisor_config_asio_t::strand_ptr_t, n_strands> strands;
    std::atomic<int> n{0}; int budget = 0; bool escalates = false, keep = true, links = false, registry = false; double p_die = 0, p_fail = 0, p_fast = 0.5;
    std::atomic<uint64_t> seq{0}; std::atomic<bool> ending{false}; std::atomic<int64_t> open{0}; // requests of those who do not shut down
    std::atomic<uint64_t> n_req{0}, n_ans{0}, n_exp{0}, n_items{0}, n_kill{0}, n_spawned{0}, n_throw{0}, n_links{0}, n_nested{0}, n_initdown{0}, n_grown{0}, n_init_err{0}, n_fw{0}, n_fw_done{0}, n_fw_late{0};
    int alloc() { int i = n.fetch_add(1, relaxed); if (i >= budget) { n.fetch_sub(1, relaxed); return -1; } return i; }
    bool full() { return n.load(relaxed) >= budget; }
    uint64_t stamp() { return seq.fetch_add(1, relaxed) + 1; }
};
struct peer_t { r::address_ptr_t addr; int rec; };
struct spec_t { case_t *C; int rec; uint64_t seed; init_t init; int64_t delay; std::vector<peer_t> known; int initial; group_t *group = nullptr; };
static thread_local const spec_t *spec = nullptr;

struct plain_t : r::actor_base_t {
    explicit plain_t(r::actor_config_t &c) : r::actor_base_t(c) { live_actors.fetch_add(1, relaxed); }
    ~plain_t() override { live_actors.fetch_sub(1, relaxed); }
    template <class S> using config_builder_t = r::actor_config_builder_t<S>;
};
struct strand_sup_t : sup_of<ra::supervisor_asio_t> {
    using sup_of<ra::supervisor_asio_t>::sup_of;
    template <class S> using config_builder_t = ra::supervisor_config_asio_builder_t<S>;
};
template <class Base> struct unit_t;
using node_t = unit_t<plain_t>; using sup_t = unit_t<strand_sup_t>;

struct grown_t { r::actor_ptr_t actor; int rec = -1; };
static grown_t grow(case_t &C, sup_t &parent, rng_t &g, const std::vector<peer_t> &known, bool as_sup, group_t *group, const r::address_ptr_t &spawner, int depth);

template <class Base> struct unit_t : Base {
    static constexpr bool is_sup = std::is_base_of_v<r::supervisor_t, Base>;
    case_t &C; int no; rec_t &rec; mon_t &mon; rng_t rng; init_t init; int64_t delay; std::vector<peer_t> known; std::vector<peer_t> kids; group_t *group;
    std::vector<std::unique_ptr<group_t>> groups; std::list<r::address_ptr_t> found; std::vector<std::pair<r::intrusive_ptr_t<ask_m>, int>> deferred;
    std::vector<int> asked; int n_open = 0, ticks; r::plugin::resources_plugin_t *res = nullptr; bool over = false;
    template <class Cfg> explicit unit_t(Cfg &c) : Base(c), C(*spec->C), no(spec->rec), rec(spec->C->recs[spec->rec]), mon(spec->C->mons[rec.strand]), rng(spec->seed), init(spec->init), delay(spec->delay), known(spec->known), group(spec->group) { ticks = rng.range(5, is_sup ? 60 : 25); outer = std::make_unique<asio::steady_timer>(*C.io); outer_kill = rng.chance(0.5); }
    r::state_t st() { return static_cast<r::actor_base_t *>(this)->template access<to::state>(); }
    const char *nm() { return rec.name.c_str(); }
    void mark(std::atomic<uint64_t> &s, const char *what) {
        if (s.exchange(C.stamp(), relaxed)) bad("P06", "%s of %s is called twice", what, nm());
        if (&s != &rec.shut_finish && rec.shut_finish.load(relaxed)) bad("P06", "%s of %s is called after it has shut down", what, nm());
        if (&s != &rec.init_start) mon.order = (mon.order ^ (uint64_t(no) * 8 + uint64_t(what[0] + what[5]))) * 1099511628211ull;
    }
    bool gone() { return rec.shut_start.load(relaxed) != 0; }
    void alive(const char *what) { if (rec.shut_finish.load(relaxed)) bad("P06", "%s of %s is called after it has shut down", what, nm()); }

    void configure(r::plugin::plugin_base_t &plugin) noexcept override { // on the strand of the parent
        Base::configure(plugin);
        plugin.with_casted<r::plugin::address_maker_plugin_t>([&](auto &p) { p.set_identity(rec.name, false); });
        plugin.with_casted<r::plugin::resources_plugin_t>([&](auto &p) { res = &p; if (init != init_t::at_once) p.acquire(0); });
        plugin.with_casted<r::plugin::starter_plugin_t>([&](auto &p) {
            p.subscribe_actor(&unit_t::on_kick); p.subscribe_actor(&unit_t::on_item); p.subscribe_actor(&unit_t::on_ask); p.subscribe_actor(&unit_t::on_ans);
            this->template send<payload::kick_t>(this->address);
        });
        if (C.links && rec.links && no % 2 == 0 && !known.empty()) plugin.with_casted<r::plugin::link_client_plugin_t>([&](auto &p) {
            int k = rng.range(1, 2); std::set<int> done;
            for (int i = 0; i < k; ++i) {
                auto &s = known[rng.below(known.size())];
                if (!done.insert(s.rec).second) continue;
                int sr = s.rec;
                p.link(s.addr, rng.chance(0.5), [this, sr](auto &ee) { if (!ee) { auto i = rec.n_linked.load(relaxed); if (i < 4) { rec.linked[size_t(i)].store(sr, relaxed); rec.n_linked.store(i + 1, relaxed); } C.n_links.fetch_add(1, relaxed); } });
            }
        });
        if (C.registry) plugin.with_casted<r::plugin::registry_plugin_t>([&](auto &p) {
            if (rng.chance(0.9)) p.register_name(rec.name, this->get_address());
            if (rec.links && no % 2 && !known.empty() && rng.chance(0.5)) { // (discovery links, too)
                found.emplace_back(); p.discover_name(C.recs[known[rng.below(known.size())].rec].name, found.back(), rng.chance(0.7)); }
        });
    }
    // ---- life
    void init_start() noexcept override { /* on the strand of the creator */ mark(rec.init_start, "init_start"); Base::init_start(); }
    void init_finish() noexcept override {
        enter_t e(mon, "init_finish", false);
        if (!rec.init_start.load(relaxed)) bad("P06", "%s finishes initialization without a start of it", nm());
        if (gone()) bad("P06", "%s finishes initialization while it shuts down", nm());
        mark(rec.init_finish, "init_finish");
        for (auto &k : kids) { auto &c = C.recs[size_t(k.rec)]; if (!c.init_finish.load(relaxed) && !c.shut_start.load(relaxed)) bad("P07", "supervisor %s has finished initialization, its child %s neither has nor is it going down", nm(), c.name.c_str()); }
        Base::init_finish();
    }
    void on_start() noexcept override {
        enter_t e(mon, "on_start", false);
        if (!rec.init_finish.load(relaxed)) bad("P06", "%s is started and not initialized", nm());
        if (gone()) bad("P06", "%s is started while it shuts down", nm());
        mark(rec.start, "on_start");
        if (rec.parent >= 0) { auto &p = C.recs[size_t(rec.parent)]; if (p.sync && !p.init_finish.load(relaxed)) bad("P07", "%s is started before its supervisor %s is initialized, start is synchronized", nm(), p.name.c_str()); }
        Base::on_start();
        if (st() != r::state_t::OPERATIONAL) bad("P06", "%s is not operational after its start", nm());
    }
    void shutdown_start() noexcept override {
        enter_t e(mon, "shutdown_start", false);
        mark(rec.shut_start, "shutdown_start");
        if (!rec.init_finish.load(relaxed)) C.n_initdown.fetch_add(1, relaxed);
        C.open.fetch_sub(n_open, relaxed); n_open = 0; over = true; deferred.clear(); if (outer_on && outer_kill) outer->cancel();
        if (init != init_t::at_once && res && res->has(0)) res->release(0);
        Base::shutdown_start();
    }
    void shutdown_finish() noexcept override {
        enter_t e(mon, "shutdown_finish", false);
        if (!rec.shut_start.load(relaxed)) bad("P06", "%s finishes shutdown without a start of it", nm());
        auto &why = this->get_shutdown_reason();
        if (!why) bad("P08", "%s has no reason of its shutdown", nm());
        else { rec.failed.store(why->root()->ec ? 1 : 0, relaxed); }
        mark(rec.shut_finish, "shutdown_finish");
        for (auto &k : kids) if (!C.recs[size_t(k.rec)].shut_finish.load(relaxed)) bad("P08", "supervisor %s has shut down before its child %s", nm(), C.recs[size_t(k.rec)].name.c_str());
        Base::shutdown_finish();
        if (st() != r::state_t::SHUT_DOWN) bad("P06", "%s is not in the shut down state after shutdown_finish", nm());
        found.clear(); known.clear();
        for (auto &k : kids) k.addr.reset();
    }
    void child_init(r::actor_base_t *a, const r::extended_error_ptr_t &ee) {
        enter_t e(mon, "on_child_init", false);
        if (ee) C.n_init_err.fetch_add(1, relaxed);
        else if (a) for (auto &k : kids) if (k.addr == a->get_address() && !C.recs[size_t(k.rec)].init_finish.load(relaxed)) bad("P07", "the child %s of %s is reported as initialized too early", C.recs[size_t(k.rec)].name.c_str(), nm());
    }
    void child_down(r::actor_base_t *a) {
        enter_t e(mon, "on_child_shutdown", false);
        for (auto &k : kids) if (k.addr && k.addr == a->get_address()) {
            auto &c = C.recs[size_t(k.rec)];
            if (c.child_down.fetch_add(1, relaxed)) bad("P08", "%s is told twice that its child %s is down", nm(), c.name.c_str());
            if (!c.shut_finish.load(relaxed)) bad("P08", "%s is told too early that its child %s is down", nm(), c.name.c_str());
            k.addr.reset(); // may not be used any more in worlds where the objects are dropped
            if (c.is_sup && !C.keep) this->template send<payload::bury_t>(this->address, payload::bury_t{a});
        }
    }
    bool on_unlink(const r::address_ptr_t &server) noexcept override {
        enter_t e(mon, "on_unlink", false); alive("on_unlink");
        for (int i = 0; i < rec.n_linked.load(relaxed); ++i) for (auto &k : known) if (k.addr == server && k.rec == rec.linked[size_t(i)].load(relaxed)) rec.unlinked[size_t(i)].store(C.stamp(), relaxed);
        return Base::on_unlink(server);
    }
    // ---- completions from outside
    std::unique_ptr<asio::steady_timer> outer; bool outer_on = false, outer_kill = false;
    void go_out() {
        if (outer_on) return;
        outer_on = true; C.n_fw.fetch_add(1, relaxed);
        outer->expires_after(std::chrono::microseconds(rng.range(50, 3000)));
        outer->async_wait(ra::forwarder_t(*this, &unit_t::on_outer, &unit_t::on_outer_fail));
    }
    void on_outer() noexcept {
        enter_t e(mon, "a completion"); C.n_fw_done.fetch_add(1, relaxed);
        if (!outer_on) bad("P22", "a completion comes twice to %s", nm());
        outer_on = false;
        if (gone()) { C.n_fw_late.fetch_add(1, relaxed); return; }
        if (rng.chance(C.p_die) && rec.parent >= 0 && (C.recs[size_t(rec.parent)].init_finish.load(relaxed) || rng.chance(0.2))) this->do_shutdown(this->make_error(r::make_error_code(r::error_code_t::cancelled)));
        else if (rng.chance(0.5)) say();
    }
    void on_outer_fail(const boost::system::error_code &) noexcept {
        enter_t e(mon, "a failed completion"); C.n_fw_done.fetch_add(1, relaxed);
        if (!outer_on) bad("P22", "a completion comes twice to %s", nm());
        outer_on = false;
        if (gone()) C.n_fw_late.fetch_add(1, relaxed);
    }
    // ---- what it does
    void on_kick(kick_m &) noexcept {
        enter_t e(mon, "the first message"); alive("the first message");
        if (init == init_t::delayed) this->start_timer(us(delay), *this, &unit_t::on_ready);
        else if (init == init_t::quits) this->do_shutdown(this->make_error(r::make_error_code(r::shutdown_code_t::normal)));
        this->start_timer(us(rng.range(50, 800)), *this, &unit_t::on_tick);
        if (is_sup && rng.chance(0.4)) act();
    }
    void on_ready(r::request_id_t, bool cancelled) noexcept { enter_t e(mon, "a timer", false); if (!cancelled) alive("a timer"); if (!cancelled && !gone()) { res->release(0); } }
    void on_tick(r::request_id_t, bool cancelled) noexcept {
        enter_t e(mon, "a timer", false); if (!cancelled) alive("a timer");
        if (cancelled || gone() || C.ending.load(relaxed)) return;
        if (over) { bad("P06", "timer of %s fires after its shutdown", nm()); return; }
        act();
        if (--ticks > 0) this->start_timer(us(rng.range(30, 1200)), *this, &unit_t::on_tick);
    }
    peer_t *kid() { for (int i = 0; i < 4 && !kids.empty(); ++i) { auto &k = kids[rng.below(kids.size())]; if (k.addr) return &k; } return nullptr; }
    r::address_ptr_t mate() { // the parent or a child
        if constexpr (is_sup) if (rng.chance(0.7)) { auto k = kid(); return k ? k->addr : r::address_ptr_t{}; }
        if (rec.parent < 0) return {};
        if (C.keep && !known.empty() && rng.chance(0.4)) return known[rng.below(known.size())].addr;
        if constexpr (is_sup) return parent_addr; else return this->get_supervisor().get_address();
    }
    r::address_ptr_t parent_addr;
    void say() { auto a = mate(); if (a) this->template send<payload::item_t>(a, payload::item_t{uint32_t(no), {}}); }
    void ask() {
        if (gone()) return;
        auto a = mate();
        if (!a) return;
        asked.push_back(0); ++n_open; C.open.fetch_add(1, relaxed); C.n_req.fetch_add(1, relaxed);
        this->template request<payload::ask_t>(a, uint32_t(asked.size() - 1), rng.range(0, 3)).send(us(rng.chance(0.5) ? rng.range(200, 5000) : rng.range(5000, 30000)));
    }
    void on_item(item_m &) noexcept { enter_t e(mon, "handler of items"); alive("handler of items"); C.n_items.fetch_add(1, relaxed); if (!gone() && rng.chance(0.3)) say(); }
    void on_ask(ask_m &m) noexcept {
        enter_t e(mon, "handler of requests"); alive("handler of requests");
        auto how = m.payload.request_payload.how; auto n = m.payload.request_payload.n;
        if (gone() || how == 1) return; // no answer
        if (how == 2 && C.keep) { // otherwise the supervisor of the one who asked might be gone, and its address with it
            deferred.emplace_back(&m, 0); this->start_timer(us(rng.range(50, 4000)), *this, &unit_t::on_answer); return; }
        this->template reply_to<ask_m>(m, n);
        if (how == 3) this->template reply_to<ask_m>(m, n + 1000000);
    }
    void on_answer(r::request_id_t, bool cancelled) noexcept {
        enter_t e(mon, "a timer", false); if (!cancelled) alive("a timer");
        if (cancelled || gone() || deferred.empty()) return;
        auto m = deferred.back().first; deferred.pop_back();
        this->template reply_to<ask_m>(*m, m->payload.request_payload.n);
    }
    void on_ans(ans_m &m) noexcept {
        enter_t e(mon, "handler of responses"); alive("handler of responses");
        auto n = m.payload.req->payload.request_payload.n;
        if (n >= asked.size()) { bad("P04", "%s is answered what it has not asked", nm()); return; }
        if (asked[n]++) bad("P04", "request %u of %s has a second outcome", n, nm());
        else if (!over) { --n_open; C.open.fetch_sub(1, relaxed); }
        if (m.payload.ee) C.n_exp.fetch_add(1, relaxed);
        else { C.n_ans.fetch_add(1, relaxed); if (m.payload.res.n != n) bad("P04", "request %u of %s is answered as %u", n, nm(), m.payload.res.n); }
    }
    void act() {
        if (gone()) return;
        if constexpr (is_sup) {
            double d = (rng.range(0, 999) / 1000.0);
            if (d < 0.45) { if (!C.full()) add(rng.chance(0.5), nullptr, {}); return; }
            if (d < 0.55 && !C.full()) { sprout(); return; }
            if (d < 0.55 + C.p_die) { kill(); return; }
        }
        double d = (rng.range(0, 999) / 1000.0);
        if (rng.chance(0.25)) { go_out(); return; }
        if (d < 0.45) say();
        else if (d < 0.45 + 0.45) ask();
        else if (rng.chance(C.p_die) && rec.parent >= 0 && (C.recs[size_t(rec.parent)].init_finish.load(relaxed) || rng.chance(0.2))) this->do_shutdown(rng.chance(0.5) ? r::extended_error_ptr_t{} : this->make_error(r::make_error_code(r::error_code_t::cancelled)));
    }
    void kill() {
        auto k = kid();
        if (!k || (!rec.init_finish.load(relaxed) && rng.chance(0.8))) return; // (everything would end here)
        C.n_kill.fetch_add(1, relaxed);
        auto ee = this->make_error(r::make_error_code(rng.chance(0.5) ? r::shutdown_code_t::normal : r::shutdown_code_t::child_down));
        this->template send<r::payload::shutdown_trigger_t>(this->address, k->addr, ee);
    }
    std::vector<peer_t> what_is_known() { auto v = known; for (auto &k : kids) if (k.addr) v.push_back(k); return v; }
    grown_t add(bool as_sup, group_t *gr, const r::address_ptr_t &spawner) {
        if constexpr (is_sup) {
            auto x = grow(C, *this, rng, what_is_known(), as_sup, gr, spawner, 0);
            if (x.actor) C.n_grown.fetch_add(1, relaxed);
            return x;
        }
        return {};
    }
    void sprout() {
        if constexpr (is_sup) {
            groups.push_back(std::make_unique<group_t>());
            auto gr = groups.back().get();
            static constexpr r::restart_policy_t pols[] = {r::restart_policy_t::always, r::restart_policy_t::normal_only, r::restart_policy_t::fail_only, r::restart_policy_t::never, r::restart_policy_t::ask_actor};
            gr->policy = pols[rng.below(5)]; gr->max = size_t(rng.range(0, 4)); gr->period_us = rng.range(200, 4000); gr->as_sup = rng.chance(0.4); gr->throwing = rng.chance(0.2) ? rng.range(1, 2) : 0;
            auto factory = [this, gr](r::supervisor_t &, const r::address_ptr_t &spawner) -> r::actor_ptr_t {
                enter_t e(mon, "factory", false);
                auto now = clk::now();
                if (gone()) bad("P10", "%s spawns an actor while it shuts down", nm());
                if (gr->last >= 0) {
                    auto &l = C.recs[size_t(gr->last)];
                    if (!l.shut_finish.load(relaxed)) bad("P10", "%s spawns an actor while the previous instance %s is not down", nm(), l.name.c_str());
                    auto failed = l.failed.load(relaxed) == 1;
                    if (gr->policy == r::restart_policy_t::never || gr->policy == r::restart_policy_t::ask_actor || (gr->policy == r::restart_policy_t::normal_only && failed) || (gr->policy == r::restart_policy_t::fail_only && !failed)) bad("P10", "%s spawns an actor against the policy (%d, the previous one has %s)", nm(), int(gr->policy), failed ? "failed" : "not failed");
                }
                if (gr->attempts && us_between(gr->last_try, now) < gr->period_us - 200) bad("P10", "%s spawns an actor %d us after the previous attempt, period is %d", nm(), int(us_between(gr->last_try, now)), int(gr->period_us));
                if (gr->max && gr->attempts >= gr->max) bad("P10", "%s makes attempt %d, %d are allowed", nm(), int(gr->attempts + 1), int(gr->max));
                ++gr->attempts; gr->last_try = now; gr->last = -1;
                if (gr->throwing > 0 && gr->throwing--) { C.n_throw.fetch_add(1, relaxed); throw std::runtime_error("not now"); }
                auto x = add(gr->as_sup, gr, spawner);
                if (!x.actor) { C.n_throw.fetch_add(1, relaxed); throw std::runtime_error("no more"); }
                gr->last = x.rec; C.n_spawned.fetch_add(1, relaxed);
                return x.actor;
            };
            this->spawn(factory).max_attempts(gr->max).restart_period(us(gr->period_us)).restart_policy(gr->policy).escalate_failure(C.escalates && rng.chance(0.3)).spawn();
        }
    }
};
// hooks of supervisors only
struct hooked_sup_t : sup_t {
    using config_t = ra::supervisor_config_asio_t;
    template <class S> using config_builder_t = ra::supervisor_config_asio_builder_t<S>;
    explicit hooked_sup_t(config_t &c) : sup_t(c) {}
    void on_child_init(r::actor_base_t *a, const r::extended_error_ptr_t &ee) noexcept override { child_init(a, ee); sup_t::on_child_init(a, ee); }
    void on_child_shutdown(r::actor_base_t *a) noexcept override { child_down(a); sup_t::on_child_shutdown(a); }
};
struct leaf_t : node_t {
    using config_t = r::actor_config_t;
    template <class S> using config_builder_t = r::actor_config_builder_t<S>;
    explicit leaf_t(config_t &c) : node_t(c) {}
};
static void fill(case_t &C, rng_t &g, spec_t &sp, int rec) {
    double fail = C.recs[size_t(rec)].parent >= 0 && C.recs[size_t(C.recs[size_t(rec)].parent)].init_finish.load(relaxed) ? C.p_fail : C.p_fail * 0.3;
    sp.C = &C; sp.rec = rec; sp.seed = g.u64(); sp.delay = g.range(50, 3000); sp.initial = 0;
    sp.init = g.chance(C.p_fast) ? init_t::at_once : g.chance(1 - fail) ? init_t::delayed : g.chance(0.5) ? init_t::never : init_t::quits;
}
static grown_t grow(case_t &C, sup_t &parent, rng_t &g, const std::vector<peer_t> &known, bool as_sup, group_t *group, const r::address_ptr_t &spawner, int depth) {
    int no = C.alloc();
    if (no < 0) return {};
    auto &rec = C.recs[size_t(no)];
    rec.parent = parent.no; rec.is_sup = as_sup; rec.name = fmt("%s%d", as_sup ? "S" : "a", no);
    rec.strand = !as_sup || g.chance(0.3) ? parent.rec.strand : int(g.below(n_strands)); rec.links = g.chance(0.5);
    spec_t sp; fill(C, g, sp, no); sp.known = known; sp.group = group;
    auto init_timeout = sp.init == init_t::never ? us(g.range(500, 6000)) : rec.links && (C.links || C.registry) ? ms(g.range(3, 60)) : g.chance(0.1) ? us(g.range(300, 3000)) : ms(60000);
    auto old = spec; spec = &sp;
    grown_t out; out.rec = no;
    auto esc = C.escalates && g.chance(0.1), autos = C.escalates && g.chance(0.05);
    if (as_sup) {
        rec.sync = g.chance(0.3);
        auto b = parent.create_actor<hooked_sup_t>();
        std::move(b).strand(C.strands[size_t(rec.strand)]); std::move(b).guard_context(false); std::move(b).timeout(ms(60000)); std::move(b).init_timeout(init_timeout); std::move(b).synchronize_start(rec.sync);
        std::move(b).policy(g.chance(0.35) ? r::supervisor_policy_t::shutdown_self : r::supervisor_policy_t::shutdown_failed).poll_duration(g.chance(0.5) ? us(0) : us(g.range(1, 100)));
        std::move(b).escalate_failure(esc); std::move(b).autoshutdown_supervisor(autos);
        if (spawner) std::move(b).spawner_address(spawner);
        auto s = std::move(b).finish();
        spec = old;
        s->parent_addr = parent.get_address();
        C.n_nested.fetch_add(1, relaxed);
        out.actor = s;
        int k = depth < 3 ? g.range(0, 2) : 0;
        for (int i = 0; i < k; ++i) grow(C, *s, g, s->what_is_known(), depth < 2 && g.chance(0.3), nullptr, {}, depth + 1);
        if (g.chance(0.2) && !C.full()) s->sprout();
        rec.sup.store(s.get(), std::memory_order_release); // might be shut down from outside from now on
    } else {
        auto b = parent.create_actor<leaf_t>();
        std::move(b).timeout(ms(60000)); std::move(b).init_timeout(init_timeout); std::move(b).escalate_failure(esc); std::move(b).autoshutdown_supervisor(autos);
        if (spawner) std::move(b).spawner_address(spawner);
        auto a = std::move(b).finish();
        spec = old;
        out.actor = a;
    }
    if (C.keep) rec.keep = out.actor;
    parent.kids.push_back(peer_t{out.actor->get_address(), no});
    return out;
}
struct ctx_t : ra::system_context_asio_t {
    using ra::system_context_asio_t::system_context_asio_t;
    void on_error(r::actor_base_t *a, const r::extended_error_ptr_t &ee) noexcept override { bad("P08", "a failure is reported to the system context: %s, %s", a ? a->get_identity().c_str() : "?", ee->message().c_str()); }
};

case_t *current = nullptr; // for debuggers
static void fn(rng_t &g) {
    live_payloads.store(0, relaxed); live_actors.store(0, relaxed);
    {
        auto CC = std::make_unique<case_t>(); auto &C = *CC; current = CC.get();
        asio::io_context io; C.io = &io; r::intrusive_ptr_t<ctx_t> ctx(new ctx_t(io));
        for (int i = 0; i < n_strands; ++i) { C.strands[size_t(i)] = std::make_shared<asio::io_context::strand>(io); C.mons[size_t(i)].name = fmt("strand %d", i); }
        int threads = g.range(1, 4);
        C.budget = g.range(4, max_recs - 40); C.links = g.chance(0.4); C.registry = g.chance(0.4); C.keep = C.links || C.registry || g.chance(0.5);
        C.escalates = g.chance(0.3); C.p_fast = g.range(40, 100) / 100.0;
        C.p_die = g.chance(0.3) ? 0 : (g.range(0, 999) / 1000.0) * 0.3; C.p_fail = g.chance(0.6) ? 0 : (g.range(0, 999) / 1000.0) * 0.3;
        int mode = g.range(0, 3); // shut down: at once after a while, when grown, when grown and settled, a nested one first
        int64_t pause = g.chance(0.5) ? g.range(0, 2000) : g.range(0, 20000); uint64_t pick = g.u64();
        int rno = C.alloc(); auto &rrec = C.recs[size_t(rno)]; rrec.is_sup = true; rrec.name = "root"; rrec.sync = g.chance(0.2);
        spec_t sp; fill(C, g, sp, rno); if (sp.init == init_t::never || sp.init == init_t::quits) sp.init = init_t::at_once;
        spec = &sp;
        auto root = ctx->create_supervisor<hooked_sup_t>().strand(C.strands[0]).guard_context(true).timeout(ms(60000)).policy(g.chance(0.8) ? r::supervisor_policy_t::shutdown_failed : r::supervisor_policy_t::shutdown_self).synchronize_start(rrec.sync).create_registry(C.registry).finish();
        spec = nullptr;
        auto down = std::make_shared<std::atomic<bool>>(false); root->down = down; root->ticks = 60;
        rrec.sup.store(root.get(), std::memory_order_release);
        if (C.keep) rrec.keep = root;
        int k = g.range(1, 4);
        for (int i = 0; i < k; ++i) grow(C, *root, g, root->what_is_known(), g.chance(0.6), nullptr, {}, 0);
        root->start();
        std::vector<std::thread> ts; std::atomic<int> back{0};
        for (int i = 0; i < threads; ++i) ts.emplace_back([&] { io.run(); back.fetch_add(1, relaxed); tick(); });
        auto until = [&](auto f) { auto t0 = clk::now(); while (!f() && !down->load(relaxed) && us_between(t0, clk::now()) < 100000) nap(100); return true; };
        if (mode > 0) until([&] { return C.full(); });
        if (C.full()) seen("forests fully grown");
        nap(pause);
        if (down->load(relaxed)) seen("root is down by itself");
        if (mode == 2) {
            awaiting("P04", "outcomes of requests");
            C.ending.store(true, relaxed);
            while (C.open.load(relaxed) > 0 && !down->load(relaxed)) nap(100);
        }
        if (mode == 3 && C.keep) for (int i = 0; i < 3; ++i) { auto s = C.recs[(pick >> (i * 8)) % size_t(std::max(1, C.n.load(relaxed)))].sup.load(std::memory_order_acquire); if (s) s->shutdown(); nap(int64_t(pick >> 40) % 700); }
        C.ending.store(true, relaxed);
        stall_info = [&C] {
            std::string o;
            for (int i = 0; i < C.n.load(relaxed); ++i) { auto &x = C.recs[size_t(i)]; o += fmt("; %s below %d on %d init %d/%d start %d shutdown %d/%d%s", x.name.c_str(), x.parent, x.strand, int(x.init_start), int(x.init_finish), int(x.start), int(x.shut_start), int(x.shut_finish), x.child_down ? " confirmed" : ""); }
            return o;
        };
        awaiting("P08", "shutdown of a forest");
        bool drop = !C.keep && g.chance(0.5);
        root->shutdown();
        if (drop) root.reset();
        while (back.load(relaxed) != threads) nap(100);
        for (auto &t : ts) t.join();
        not_awaiting(); stall_info = {};
        if (!down->load(relaxed)) bad("P08", "the root is not shut down although its loop has ended");
        int n = C.n.load(relaxed); uint64_t h = 0;
        for (int i = 0; i < n; ++i) {
            auto &x = C.recs[size_t(i)];
            h = h * 1099511628211ull + (x.init_finish ? 1 : 0) + (x.start ? 2 : 0) + (x.shut_start > x.init_finish ? 4 : 0) + x.shut_finish;
            if (!x.shut_finish.load(relaxed)) { bad("P08", "%s has never shut down", x.name.c_str()); continue; }
            if (x.parent >= 0 && x.child_down.load(relaxed) != 1) bad("P08", "%s has not been told that its child %s is down", C.recs[size_t(x.parent)].name.c_str(), x.name.c_str());
            for (int l = 0; l < x.n_linked.load(relaxed); ++l) { auto &s = C.recs[size_t(x.linked[size_t(l)].load(relaxed))]; auto u = x.unlinked[size_t(l)].load(relaxed); if (s.shut_finish.load(relaxed) < x.shut_start.load(relaxed) && (!u || s.shut_finish.load(relaxed) < u)) bad("P11", "server %s has shut down before its client %s has unlinked or began to shut down", s.name.c_str(), x.name.c_str()); }
        }
        if (C.n_fw != C.n_fw_done) bad("P22", "%d operations are started, %d are completed", int(C.n_fw), int(C.n_fw_done));
        for (auto &m : C.mons) h = h * 31 + m.order;
        { std::lock_guard<std::mutex> l(big_lock); R.trace_hash ^= h; }
        seen("actors", uint64_t(n)); seen("supervisors created at run time", C.n_nested); seen("actors created by running handlers", C.n_grown); seen("requests", C.n_req); seen("answers", C.n_ans); seen("expired requests", C.n_exp); seen("messages", C.n_items);
        seen("children killed", C.n_kill); seen("spawned actors", C.n_spawned); seen("factories which fail", C.n_throw); seen("links", C.n_links); seen("shut down while initializing", C.n_initdown); seen("failed initializations", C.n_init_err); seen("completions", C.n_fw_done); seen("completions of dead actors", C.n_fw_late);
        for (auto &x : C.recs) x.keep.reset();
        root.reset(); ctx.reset();
    }
    if (auto n = live_payloads.load(relaxed)) bad("P15", "%d payloads are still alive after everything is dropped", int(n));
    if (auto n = live_actors.load(relaxed)) bad("P15", "%d actors are still alive after everything is dropped", int(n));
}
static workload_reg reg("grow", fn);
} } // namespace rt::grow
