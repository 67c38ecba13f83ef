#pragma once
// Simulated, deterministic event loops for the real rotor core.
//
// Several "localities" (event loops) live in one thread under virtual time. Everything that a real
// loop decides - which loop runs next, how many inbound messages it takes, from which sender, when
// a due timer is served, how slow messages are relative to time - is decided here by a seeded
// random generator, within what real loops can do (per-sender FIFO, timers not early and in order
// of deadlines per loop).
#include "util.hpp"
#include <rotor.hpp>
#include <rotor/registry.h>
#include <rotor/misc/default_stringifier.h>
#include <deque>
#include <functional>
#include <list>
#include <memory>

namespace sim { struct own_subscriptions; struct points; }
namespace rotor::plugin {
template <> inline auto &plugin_base_t::access<sim::own_subscriptions>() noexcept { return own_subscriptions; }
template <> inline auto &lifetime_plugin_t::access<sim::points>() noexcept { return points; }
}
namespace sim {
using namespace util;
namespace r = rotor;
using vtime_t = uint64_t; // microseconds

struct world_t;
extern world_t *W;
extern vtime_t virtual_now; // also served to gettimeofday()

struct act_t;
struct plug_t;
struct sup_t;

// life-cycle record of one actor instance; survives the actor
struct rec_t {
    int id;
    std::string name;
    bool is_sup = false;
    rec_t *parent = nullptr; // record of the supervisor
    r::actor_base_t *actor = nullptr;
    int loc = -1;
    // hook stamps (0 = never), global event counter
    uint64_t t_init_start = 0, t_init_finish = 0, t_start = 0, t_shut_start = 0, t_shut_finish = 0, t_destroyed = 0;
    vtime_t v_init_start = 0, v_init_finish = 0, v_start = 0, v_shut_start = 0, v_shut_finish = 0;
    int n_init_start = 0, n_init_finish = 0, n_start = 0, n_shut_start = 0, n_shut_finish = 0;
    int max_state = 0;
    r::extended_error_ptr_t first_reason;
    // results seen by the supervisor
    int child_init_ok = 0, child_init_err = 0, child_shutdown = 0;
    uint64_t t_child_init = 0, t_child_shutdown = 0;
    std::vector<rec_t *> children;
    void *user = nullptr;
    std::shared_ptr<plug_t> plug;
    int tag = 0;
    bool stuck = false; // never confirms its shutdown, deliberately
    bool up() const { return n_start && !n_shut_start; }
    bool down() const { return n_shut_finish > 0; }
};

struct plug_t { // an own plugin of the user: does it let the phases pass
    bool in_middle = false; // its position among the framework's plugins
    std::function<bool()> init, shutdown;
};
struct spec_t { // behaviour of an actor; shared by several instances possibly
    std::string name;
    std::function<void(r::actor_base_t &, r::plugin::plugin_base_t &)> configure;
    std::function<void(r::actor_base_t &)> on_created; // do_initialize done
    std::function<void(r::actor_base_t &)> on_init_finish, on_start, on_shutdown_start, on_shutdown_finish;
    std::function<void(r::actor_base_t &)> pre_shutdown_finish;
    std::function<bool(r::actor_base_t &, const r::address_ptr_t &)> on_unlink;
    std::function<bool(r::actor_base_t &)> should_restart;
    std::function<void(r::message_ptr_t &, const void *, const r::continuation_t &)> intercept;
    std::function<void(rec_t *, const r::extended_error_ptr_t &)> on_child_init;
    std::function<void(rec_t *)> on_child_shutdown;
    std::shared_ptr<plug_t> plug;
};
using spec_ptr_t = std::shared_ptr<spec_t>;

struct timer_rec_t {
    vtime_t deadline;
    uint64_t seq;
    sup_t *sup;
    r::timer_handler_base_t *handler;
    r::request_id_t id;
    bool forced = false; // a fault: never fires (lost responder etc. is modelled elsewhere)
};

struct loc_t {
    int id;
    sup_t *leader = nullptr;
    std::map<int, std::deque<r::message_ptr_t>> inbox; // by source locality (-1: outside)
    std::list<timer_rec_t> timers;                     // sorted by (deadline, seq)
    bool running = false;
    bool kick = false; // the loop has been started explicitly
    bool dead = false; // leader destroyed
    size_t pending() const { size_t n = 0; for (auto &p : inbox) n += p.second.size(); return n; }
};

struct ctx_t : r::system_context_t {
    std::vector<std::pair<rec_t *, r::extended_error_ptr_t>> errors;
    void on_error(r::actor_base_t *a, const r::extended_error_ptr_t &e) noexcept override;
    r::message_stringifier_ptr_t make_stringifier() const noexcept override; // verifies every text (P19)
};
using ctx_ptr_t = r::intrusive_ptr_t<ctx_t>;

struct world_t {
    rng_t rng;
    std::vector<std::unique_ptr<loc_t>> locs;
    std::vector<std::unique_ptr<rec_t>> recs;
    std::map<const r::actor_base_t *, rec_t *> by_actor;
    ctx_ptr_t ctx;
    int cur_loc = -1;
    uint64_t stamp = 0; // global event counter
    uint64_t timer_seq = 0;
    uint64_t steps = 0;
    uint64_t round = 0; // number of the poll of a loop
    int live_actors = 0;
    int depth = 0; // re-entrance monitor
    std::vector<std::function<void()>> ops; // external operations, executed in order at random moments
    size_t next_op = 0;
    std::multimap<vtime_t, std::pair<int, std::function<void()>>> agenda; // what user code does in loops at given times
    void at(vtime_t when, int loc, std::function<void()> f) { agenda.emplace(when, std::make_pair(loc, std::move(f))); }
    void after(vtime_t span, int loc, std::function<void()> f) { at(virtual_now + span, loc, std::move(f)); }
    vtime_t next_event();
    bool slow() const { return p_advance > 0; } // time passes while messages are waiting
    double p_advance = 0.15, p_batch = 0.5, p_op = 0.3, p_jump = 0;
    vtime_t adv_max = 500;
    bool poll_timers = false; // loops check expired timers together with taking messages, before these are processed
    bool inspected = false; // delivery flavour of newly created supervisors
    std::function<void(loc_t &, r::message_ptr_t &)> on_take;  // a loop takes a message from its inbox
    std::function<void(timer_rec_t &)> on_fire, on_fired;      // around the expiry of a timer
    int unanswered = 0;    // reports about children failing to shut down in time
    std::vector<r::supervisor_ptr_t> keep; // "address lifetime should be no longer than supervisor lifetime"
    explicit world_t(uint64_t seed);
    ~world_t();
    loc_t *new_loc() { locs.emplace_back(new loc_t); locs.back()->id = int(locs.size()) - 1; return locs.back().get(); }
    rec_t *rec(const r::actor_base_t *a) { auto it = by_actor.find(a); return it == by_actor.end() ? nullptr : it->second; }
    rec_t *attach(r::actor_base_t *a, const std::string &name, bool is_sup, r::supervisor_t *parent);
    void run_loc(loc_t &l);
    bool fire_one(loc_t &l);
    bool fire(loc_t &l);
    bool step();                    // one scheduling decision; false if nothing is possible
    bool run(size_t max_steps, vtime_t horizon = ~vtime_t(0)); // until quiet (no messages, no ops, no timers <= horizon); false: step limit
    bool messages_pending();
    void run_for(vtime_t span, size_t max_steps = 20000) { run(max_steps, virtual_now + span); }
    void post(r::message_ptr_t m); // from outside of the framework
    template <class F> void in_loc(loc_t &l, F &&f) { // code running in the loop's context
        int old = cur_loc; cur_loc = l.id; l.kick = true; f(); cur_loc = old;
    }
    template <class F> void act(loc_t &l, F &&f); // the same, and the loop processes its queue at once
    void check_lifecycle(); // generic life-cycle monitor (P06), over recs
    void finish();          // drops the system; reclamation monitor (P15)
};

struct user_plugin_t : r::plugin::plugin_base_t {
    static const std::type_index class_identity;
    const std::type_index &identity() const noexcept override { return class_identity; }
    plug_t *plug = nullptr;
    void activate(r::actor_base_t *a) noexcept override { actor = a; plug = W->rec(a)->plug.get(); reaction_on(reaction_t::INIT); reaction_on(reaction_t::SHUTDOWN); plugin_base_t::activate(a); }
    bool handle_init(r::message::init_request_t *) noexcept override { return plug->init(); }
    bool handle_shutdown(r::message::shutdown_request_t *m) noexcept override { return plug->shutdown() && plugin_base_t::handle_shutdown(m); }
};
template <class L, class... D> struct with_user_plugin;
template <class... P> struct with_user_plugin<std::tuple<>, P...> { using last = std::tuple<P..., user_plugin_t>; using middle = last; };
template <class H, class... T, class... P> struct with_user_plugin<std::tuple<H, T...>, P...> {
    using last = typename with_user_plugin<std::tuple<T...>, P..., H>::last;
    template <class X, class Y> struct put { using type = typename with_user_plugin<std::tuple<T...>, P..., H>::middle; };
    template <class Y> struct put<r::plugin::init_shutdown_plugin_t, Y> { using type = std::tuple<P..., H, user_plugin_t, T...>; }; // right after it
    using middle = typename put<H, void>::type;
};
template <class L, class Cfg> void set_plugins(Cfg &cfg, const plug_t *plug) {
    if (!plug) cfg.plugins_constructor = []() -> r::plugin_storage_ptr_t { return std::make_unique<r::plugin_storage_t<L>>(); };
    else if (plug->in_middle) cfg.plugins_constructor = []() -> r::plugin_storage_ptr_t { return std::make_unique<r::plugin_storage_t<typename with_user_plugin<L>::middle>>(); };
    else cfg.plugins_constructor = []() -> r::plugin_storage_ptr_t { return std::make_unique<r::plugin_storage_t<typename with_user_plugin<L>::last>>(); };
}
// ---- actors -------------------------------------------------------------------------------
struct act_cfg_t : r::actor_config_t { using r::actor_config_t::actor_config_t; spec_ptr_t spec; };
template <class A> struct act_builder_t : r::actor_config_builder_t<A> {
    using builder_t = typename A::template config_builder_t<A>;
    using parent_t = r::actor_config_builder_t<A>;
    using parent_t::parent_t;
    builder_t &&spec(spec_ptr_t s) && { if (s->plug) set_plugins<typename A::plugins_list_t>(parent_t::config, s->plug.get()); parent_t::config.spec = std::move(s); return std::move(*static_cast<builder_t *>(this)); }
};
struct sup_cfg_t : r::supervisor_config_t {
    using r::supervisor_config_t::supervisor_config_t;
    spec_ptr_t spec; loc_t *loc = nullptr;
};
template <class A> struct sup_builder_t : r::supervisor_config_builder_t<A> {
    using builder_t = typename A::template config_builder_t<A>;
    using parent_t = r::supervisor_config_builder_t<A>;
    sup_builder_t(typename parent_t::install_action_t &&a, r::supervisor_t *s) : parent_t(std::move(a), s) { flavour(); }
    sup_builder_t(typename parent_t::install_action_t &&a, r::system_context_t &c) : parent_t(std::move(a), c) { flavour(); }
    builder_t &&spec(spec_ptr_t s) && { if (s->plug) flavour(s->plug.get()); parent_t::config.spec = std::move(s); return std::move(*static_cast<builder_t *>(this)); }
    builder_t &&loc(loc_t *l) && { parent_t::config.loc = l; return std::move(*static_cast<builder_t *>(this)); }
    void flavour(const plug_t *plug = nullptr);
};

template <class B> struct probe_t : B {
    spec_ptr_t spec;
    rec_t *rec = nullptr;
    template <class C> explicit probe_t(C &cfg, bool is_sup) : B(cfg), spec(cfg.spec ? cfg.spec : std::make_shared<spec_t>()) {
        rec = W->attach(this, spec->name, is_sup, cfg.supervisor); rec->plug = spec->plug;
    }
    ~probe_t() { rec->t_destroyed = ++W->stamp; rec->actor = nullptr; W->by_actor.erase(this); --W->live_actors; tracef("destroyed %s", rec->name.c_str()); }
    void st(const char *what) {
        int s = int(this->state);
        if (s < rec->max_state) violate("P06", "%s: state went back from %d to %d (seen in %s)", rec->name.c_str(), rec->max_state, s, what);
        else rec->max_state = s;
    }
    void configure(r::plugin::plugin_base_t &p) noexcept override { B::configure(p); if (spec->configure) spec->configure(*this, p); }
    void do_initialize(r::system_context_t *c) noexcept override { B::do_initialize(c); if (spec->on_created) spec->on_created(*this); }
    void init_start() noexcept override {
        st("before init_start"); B::init_start(); st("init_start"); rec->n_init_start++; rec->t_init_start = ++W->stamp; rec->v_init_start = virtual_now;
        if (rec->n_init_start > 1) violate("P06", "%s: initialization started twice", rec->name.c_str());
        tracef("%s init_start", rec->name.c_str());
    }
    void init_finish() noexcept override {
        st("before init_finish");
        rec->n_init_finish++; rec->t_init_finish = ++W->stamp; rec->v_init_finish = virtual_now;
        tracef("%s init_finish", rec->name.c_str());
        if (rec->n_init_finish > 1) violate("P06", "%s: initialization finished twice", rec->name.c_str());
        if (!rec->n_init_start) violate("P06", "%s: initialization finished before started", rec->name.c_str());
        if (rec->n_shut_start) violate("P06", "%s: initialization finished after shutdown started", rec->name.c_str());
        B::init_finish(); st("init_finish");
        if (this->state != r::state_t::INITIALIZED) violate("P06", "%s: not in initialized state after init_finish (%d)", rec->name.c_str(), int(this->state));
        if (spec->on_init_finish) spec->on_init_finish(*this);
    }
    void on_start() noexcept override {
        st("before on_start");
        rec->n_start++; rec->t_start = ++W->stamp; rec->v_start = virtual_now;
        tracef("%s on_start", rec->name.c_str());
        if (rec->n_start > 1) violate("P06", "%s: started twice", rec->name.c_str());
        if (!rec->n_init_finish) violate("P06", "%s: started before initialization finished", rec->name.c_str());
        if (rec->n_shut_start) violate("P06", "%s: started after shutdown started", rec->name.c_str());
        B::on_start(); st("on_start");
        if (this->state != r::state_t::OPERATIONAL) violate("P06", "%s: not operational after start (%d)", rec->name.c_str(), int(this->state));
        if (spec->on_start) spec->on_start(*this);
    }
    void shutdown_start() noexcept override {
        st("before shutdown_start");
        rec->n_shut_start++; rec->t_shut_start = ++W->stamp; rec->v_shut_start = virtual_now;
        rec->first_reason = this->get_shutdown_reason();
        tracef("%s shutdown_start (%s)", rec->name.c_str(), rec->first_reason ? rec->first_reason->ec.message().c_str() : "-");
        if (rec->n_shut_start > 1) violate("P06", "%s: shutdown started twice", rec->name.c_str());
        if (!rec->first_reason) violate("P08", "%s: shutdown started without a reason", rec->name.c_str());
        B::shutdown_start(); st("shutdown_start");
        if (this->state != r::state_t::SHUTTING_DOWN) violate("P06", "%s: not shutting down after shutdown_start (%d)", rec->name.c_str(), int(this->state));
        if (spec->on_shutdown_start) spec->on_shutdown_start(*this);
    }
    void shutdown_finish() noexcept override {
        st("before shutdown_finish");
        if (spec->pre_shutdown_finish) spec->pre_shutdown_finish(*this);
        B::shutdown_finish(); st("shutdown_finish");
        rec->n_shut_finish++; rec->t_shut_finish = ++W->stamp; rec->v_shut_finish = virtual_now;
        tracef("%s shutdown_finish", rec->name.c_str());
        if (rec->n_shut_finish > 1) violate("P06", "%s: shutdown finished twice", rec->name.c_str());
        if (!rec->n_shut_start) violate("P06", "%s: shutdown finished without being started", rec->name.c_str());
        if (this->state != r::state_t::SHUT_DOWN) violate("P06", "%s: not shut down after shutdown_finish (%d)", rec->name.c_str(), int(this->state));
        if (rec->first_reason && this->get_shutdown_reason() != rec->first_reason) violate("P08", "%s: shutdown reason was replaced", rec->name.c_str());
        if (spec->on_shutdown_finish) spec->on_shutdown_finish(*this);
    }
    bool on_unlink(const r::address_ptr_t &a) noexcept override { if (spec->on_unlink) return spec->on_unlink(*this, a); return B::on_unlink(a); }
    bool should_restart() const noexcept override { if (spec->should_restart) return spec->should_restart(const_cast<probe_t &>(*this)); return B::should_restart(); }
    // exposure of protected members for the workloads
    bool asked_to_init() const { return bool(this->init_request); }
    r::state_t get_state() const { return this->state; }
    r::address_ptr_t new_address() { return this->create_address(); }
    r::plugin::resources_plugin_t *res() { return this->resources; }
    // an actor that never shuts down violates the contract; the documented way to get rid of it
    void force_cleanup();
    auto &timers() { return this->timers_map; }
    auto &reqs() { return this->active_requests; }
    r::supervisor_t &sup() { return *this->supervisor; }
};

struct own_subscriptions {}; struct points {};
template <class B> void probe_t<B>::force_cleanup() {
    for (auto p : this->plugins) p->template access<own_subscriptions>().clear();
    if (this->lifetime) this->lifetime->template access<points>().clear();
}
struct act_t : probe_t<r::actor_base_t> {
    using config_t = act_cfg_t;
    template <class A> using config_builder_t = act_builder_t<A>;
    explicit act_t(act_cfg_t &cfg) : probe_t<r::actor_base_t>(cfg, false) {}
};

struct sup_base_t : r::supervisor_t { using r::supervisor_t::supervisor_t; using r::supervisor_t::intercept; };
struct sup_t : probe_t<sup_base_t> {
    using config_t = sup_cfg_t;
    template <class A> using config_builder_t = sup_builder_t<A>;
    loc_t *loc;
    bool stopped = false;
    explicit sup_t(sup_cfg_t &cfg);
    ~sup_t();
    r::address_ptr_t make_address() noexcept override { return instantiate_address(loc); }
    void do_start_timer(const r::pt::time_duration &i, r::timer_handler_base_t &h) noexcept override;
    void do_cancel_timer(r::request_id_t id) noexcept override;
    void start() noexcept override {}
    void shutdown() noexcept override { // as the real backends do: thread-safe, via a message to the upstream supervisor
        auto &up = supervisor->get_address();
        auto reason = make_error(r::make_error_code(r::shutdown_code_t::normal));
        supervisor->enqueue(r::make_message<r::payload::shutdown_trigger_t>(up, address, reason));
    }
    void enqueue(r::message_ptr_t m) noexcept override;
    void intercept(r::message_ptr_t &m, const void *tag, const r::continuation_t &c) noexcept override {
        if (spec->intercept) spec->intercept(m, tag, c); else sup_base_t::intercept(m, tag, c);
    }
    void on_child_init(r::actor_base_t *a, const r::extended_error_ptr_t &ec) noexcept override;
    void on_child_shutdown(r::actor_base_t *a) noexcept override;
    r::messages_queue_t &leader_queue() { return static_cast<sup_t *>(locality_leader)->queue; }
    bool is_leader() { return locality_leader == this; }
    size_t request_count() { return request_map.size(); }
};
using sup_ptr_t = r::intrusive_ptr_t<sup_t>;
using act_ptr_t = r::intrusive_ptr_t<act_t>;

// the framework's own list of plugins with the delivery implementation replaced
template <class P, class D> struct swap_delivery { using type = P; };
template <class L, class D> struct swap_delivery<r::plugin::delivery_plugin_t<L>, D> { using type = r::plugin::delivery_plugin_t<D>; };
template <class T, class D> struct swap_list;
template <class... P, class D> struct swap_list<std::tuple<P...>, D> { using type = std::tuple<typename swap_delivery<P, D>::type...>; };
template <class A> void sup_builder_t<A>::flavour(const plug_t *plug) {
    using own_t = typename A::plugins_list_t;
    if (W->inspected) set_plugins<typename swap_list<own_t, r::plugin::inspected_local_delivery_t>::type>(parent_t::config, plug);
    else set_plugins<typename swap_list<own_t, r::plugin::local_delivery_t>::type>(parent_t::config, plug);
}

template <class F> void world_t::act(loc_t &l, F &&f) {
    if (l.dead || !l.leader) return;
    in_loc(l, [&] { f(); if (l.leader) { r::supervisor_ptr_t guard(l.leader); l.leader->do_process(); } l.kick = false; });
}
template <class B> sup_ptr_t create_root(world_t &w, B &&tune) { // tune: (builder&&) -> builder
    auto l = w.new_loc();
    sup_ptr_t sup;
    w.in_loc(*l, [&] { sup = tune(w.ctx->template create_supervisor<sup_t>().loc(l)).finish(); });
    return sup;
}

inline r::pt::time_duration us(vtime_t n) { return r::pt::microseconds(int64_t(n)); }
inline r::pt::time_duration ms(vtime_t n) { return r::pt::milliseconds(int64_t(n)); }

// workloads register themselves; a workload runs one case in a fresh world
using workload_fn = void (*)(world_t &w);
struct workload_reg { workload_reg(const char *name, workload_fn f); };
} // namespace sim
