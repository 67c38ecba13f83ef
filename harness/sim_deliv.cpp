// Delivery, ordering, subscriptions, routing and interception (P01 P02 P03 P14 P21, and P15 P16 on the way).
// Ghost model: every subscription, every leg of every message and every handler call is recorded with global
// stamps; the rules are checked online (what must not happen) and at quiescence (what must have happened).
#include "sim.hpp"

namespace sim { namespace deliv {
constexpr int NK = 3;   // message types
constexpr int NJ = 3;   // methods with one signature

int live_payloads;
struct live_t { live_t() { ++live_payloads; } live_t(const live_t &) { ++live_payloads; } ~live_t() { --live_payloads; } };
template <int K> struct pay_t {
    int id, leg; uint64_t sum; std::vector<int> visits; std::string text; live_t live;
    pay_t(int id_, uint64_t s_) : id(id_), leg(0), sum(s_), text(size_t(s_ % 40), char('a' + s_ % 26)) {}
    bool intact() const { return text == std::string(size_t(sum % 40), char('a' + sum % 26)); }
};
template <int K> using m_t = r::message_t<pay_t<K>>;
struct res_t : r::arc_base_t<res_t> { int id; int sender; uint64_t seq; res_t(int i, int s, uint64_t q) : id(i), sender(s), seq(q) {} virtual ~res_t() = default; };
struct req_t { using response_t = r::intrusive_ptr_t<res_t>; int id; explicit req_t(int i) : id(i) {} };
} }
namespace payload { using dreq_t = sim::deliv::req_t; }
namespace sim { namespace deliv {
using request_m = r::request_traits_t<req_t>::request::message_t;
using response_m = r::request_traits_t<req_t>::response::message_t;

struct node_t;
enum kind_t { METHOD, LAMBDA, PLUGIN, STARTER, OBSERVER };
enum role_t { ORDINARY, REDIRECTOR, KEEPER };
struct addr_rec {
    int id; r::address_ptr_t addr; rec_t *owner, *sup; int loc; bool main = false; bool observed = false; role_t role = ORDINARY;
};
struct leg_key { int id, leg; addr_rec *to; bool operator<(const leg_key &o) const { return std::tie(id, leg, to) < std::tie(o.id, o.leg, o.to); } };
struct sub_rec {
    int id; node_t *node; rec_t *rec; addr_rec *a; int K, J; kind_t kind; bool local;
    r::subscription_info_ptr_t info; const r::handler_base_t *h = nullptr;
    bool tagged = false;
    uint64_t t_req = 0, t_conf = 0, t_unreq = 0, t_unconf = 0;
    int n_conf = 0, n_unconf = 0;
    std::map<leg_key, int> got;
    bool finished() const { return t_unconf; }
};
struct leg_rec {
    leg_key key; int K; rec_t *sender; uint64_t seq, gseq, s, d = 0, first_call = 0, last_call = 0; int send_loc;
    bool kept = false, automatic = false, foreign_seen = false, void_ = false; int redirected = 0;
    leg_rec *parent = nullptr, *next = nullptr;
    std::vector<int> visits; // expected contents at the beginning of the leg; filled when processed
};

struct model_t {
    world_t &w;
    std::vector<std::unique_ptr<addr_rec>> addrs;
    std::map<const r::address_t *, addr_rec *> by_addr;
    std::vector<std::unique_ptr<sub_rec>> subs;
    std::map<std::pair<addr_rec *, int>, std::vector<sub_rec *>> subs_at;
    std::map<leg_key, std::unique_ptr<leg_rec>> legs;
    std::map<int, std::vector<int>> visits; // message -> subscriptions which processed a leg (appended)
    std::map<std::pair<rec_t *, addr_rec *>, uint64_t> send_seq;
    std::map<std::tuple<rec_t *, rec_t *, addr_rec *>, uint64_t> last_seq; // subscriber, sender, address
    std::map<int, uint64_t> loop_seq, loop_last;
    std::map<std::pair<leg_key, rec_t *>, int> zero;
    std::vector<node_t *> nodes; // alive objects
    std::vector<sup_t *> sups;
    std::vector<std::pair<r::message_ptr_t, leg_rec *>> kept;
    int next_msg = 0, budget = 0, sub_budget = 0;
    bool in_cont = false; int ran = 0; sub_rec *ran_sub = nullptr; // interception in progress
    std::map<int, int> in_handler;        // loop -> depth
    bool p_tag = false, p_dyn = true, p_kill = false, p_hold = false, closing = false, allow_foreign_subs = true;
    std::map<rec_t *, uint64_t> held; // actors which are shutting down, but are held by a resource -> when they were released
    uint64_t held_until(rec_t *r) const { auto it = held.find(r); return it == held.end() ? 0 : it->second; }
    bool is_held(rec_t *r) const { return held_until(r) == ~uint64_t(0); }
    bool gone(rec_t *r) const { return r->n_shut_start && !is_held(r); } // its subscriptions might be over
    explicit model_t(world_t &w_) : w(w_) {}
    leg_rec *leg(const leg_key &k) { auto it = legs.find(k); return it == legs.end() ? nullptr : it->second.get(); }
};
model_t *M;

static void free_node(rec_t *rec);
struct watch_plugin_t final : r::plugin::plugin_base_t {
    static const std::type_index class_identity;
    const std::type_index &identity() const noexcept override { return class_identity; }
    using plugin_base_t::subscribe;
    void activate(r::actor_base_t *a) noexcept override;
    bool handle_subscription(r::message::subscription_t &m) noexcept override;
    bool handle_unsubscription(const r::subscription_point_t &p, bool external) noexcept override;
    template <int K> void on_m(m_t<K> &m) noexcept;
    node_t *node() { return (node_t *)owner; }
    r::actor_base_t *act() { return actor; }
    void *owner = nullptr;
};
const std::type_index watch_plugin_t::class_identity = typeid(watch_plugin_t);

struct node_cfg_t : act_cfg_t { using act_cfg_t::act_cfg_t; };
struct node_t : probe_t<r::actor_base_t> {
    using config_t = node_cfg_t;
    template <class A> using config_builder_t = act_builder_t<A>;
    using plugins_list_t = std::tuple<r::plugin::address_maker_plugin_t, r::plugin::lifetime_plugin_t, r::plugin::init_shutdown_plugin_t,
        r::plugin::link_server_plugin_t, r::plugin::link_client_plugin_t, r::plugin::registry_plugin_t, r::plugin::resources_plugin_t,
        r::plugin::starter_plugin_t, watch_plugin_t>;
    watch_plugin_t *watch = nullptr;
    int loc;
    std::vector<sub_rec *> mine;
    std::vector<r::intrusive_ptr_t<request_m>> pending;
    explicit node_t(node_cfg_t &cfg) : probe_t<r::actor_base_t>(cfg, false), loc(rec->parent->loc) { M->nodes.push_back(this); }
    ~node_t() { M->nodes.erase(std::find(M->nodes.begin(), M->nodes.end(), this)); }
    bool alive() const { return rec->n_init_start && !rec->n_shut_start; }

    sub_rec *find(int K, int J, kind_t kind, const r::address_t *a) {
        for (auto x : mine) if (x->K == K && x->J == J && x->kind == kind && x->a->addr.get() == a && !x->finished()) return x;
        for (auto it = mine.rbegin(); it != mine.rend(); ++it) { auto x = *it; if (x->K == K && x->J == J && x->kind == kind && x->a->addr.get() == a) return x; }
        return nullptr;
    }
    template <int K, int J> void h(m_t<K> &m) noexcept { on(find(K, J, METHOD, m.address.get()), m, fmt("method %d/%d", K, J)); }
    template <int K> void hs(m_t<K> &m) noexcept { on(find(K, 0, STARTER, m.address.get()), m, fmt("starter %d", K)); }
    template <class Msg> void on(sub_rec *x, Msg &m, const std::string &what);
    template <int K> void react(sub_rec *x, m_t<K> &m, leg_rec *leg);
    template <int K> sub_rec *make_sub(addr_rec *a, int J, kind_t kind);
    sub_rec *subscribe_random(addr_rec *a, int K, bool late = false);
    void unsub(sub_rec *x);
    void unsub_random();
    void subscribe_sibling();
    void tag(sub_rec *x) { x->info->tag_io(); x->tagged = true; tracef("%s tags x%d", rec->name.c_str(), x->id); count("tags"); }
    void send_random();
    void shutdown_start() noexcept override {
        probe_t<r::actor_base_t>::shutdown_start();
        auto &g = M->w.rng;
        if (M->p_hold && g.chance(0.6)) {
            resources->acquire(1); M->held[rec] = ~uint64_t(0); count("actors held while shutting down");
            if (M->closing || g.chance(0.3)) M->w.after(g.range(1, 15) * 1000, loc, [rec = rec] { free_node(rec); });
        }
        if (M->p_dyn && !mine.empty() && g.chance(0.3)) // what the handlers do while they are being unsubscribed
            for (int n = g.range(1, 4); n > 0; --n) { auto x = g.pick(mine); if (!x->finished() && x->a->role == ORDINARY && !x->a->sup->down()) send_to(x); }
    }
    void free() { if (!M->is_held(rec)) return; tracef("%s is released", rec->name.c_str()); M->held[rec] = ++W->stamp; resources->release(1); }
    void send_to(sub_rec *x);
    template <int K> void send_msg(addr_rec *to, addr_rec *next);
    void on_req(request_m &m) noexcept;
    void on_res(response_m &m) noexcept;
    void answer(request_m &m);
    void new_request();
    void act_random();
    addr_rec *own_address(bool main, bool observed, role_t role);
    void release_kept();
    void note(addr_rec *a, sub_rec *x, int K, int J, kind_t kind, r::subscription_info_ptr_t info);
    r::plugin::lifetime_plugin_t *life() { return lifetime; }
};

static void free_node(rec_t *rec) { for (auto n : M->nodes) if (n->rec == rec) { n->free(); return; } }
static sub_rec *by_handler(const r::subscription_point_t &p) {
    for (auto it = M->subs.rbegin(); it != M->subs.rend(); ++it) {
        auto &x = **it;
        if (x.h && x.h == p.handler->origin() && x.a->addr.get() == p.address.get()) return &x;
    }
    return nullptr;
}
void watch_plugin_t::activate(r::actor_base_t *a) noexcept {
    actor = a;
    auto n = static_cast<node_t *>(a);
    owner = n; n->watch = this;
    subscribe(&watch_plugin_t::on_m<99>); // a plugin is over as soon as it has no own subscription left
    reaction_on(reaction_t::SUBSCRIPTION);
    plugin_base_t::activate(a);
}
bool watch_plugin_t::handle_subscription(r::message::subscription_t &m) noexcept {
    if (auto x = by_handler(m.payload.point)) {
        x->n_conf++; if (!x->t_conf) x->t_conf = ++W->stamp;
        tracef("x%d confirmed", x->id); count("subscriptions confirmed");
        if (x->n_conf > 1) violate("P03", "subscription x%d was confirmed %d times", x->id, x->n_conf);
        if (x->rec->down()) violate("P03", "subscription x%d confirmed to an actor which is down", x->id);
    }
    return false;
}
bool watch_plugin_t::handle_unsubscription(const r::subscription_point_t &p, bool external) noexcept {
    if (auto x = by_handler(p)) {
        x->n_unconf++; if (!x->t_unconf) x->t_unconf = ++W->stamp;
        tracef("x%d unsubscription confirmed", x->id); count("unsubscriptions confirmed");
        if (x->n_unconf > 1) violate("P03", "unsubscription of x%d was confirmed %d times", x->id, x->n_unconf);
        if (!x->t_unreq && !x->rec->n_shut_start && !W->recs[x->a->sup->id]->n_shut_start)
            violate("P03", "unsubscription of x%d was confirmed though nobody asked for it", x->id);
        if (external == x->local) violate("P03", "unsubscription of x%d: confirmed as %s", x->id, external ? "external" : "internal");
    }
    return plugin_base_t::handle_unsubscription(p, external);
}
template <int K> void watch_plugin_t::on_m(m_t<K> &m) noexcept {
    if constexpr (K != 99) node()->on(node()->find(K, 0, PLUGIN, m.address.get()), m, fmt("plugin method %d", K)); }

void node_t::note(addr_rec *a, sub_rec *x, int K, int J, kind_t kind, r::subscription_info_ptr_t info) {
    x->node = this; x->rec = rec; x->a = a; x->K = K; x->J = J; x->kind = kind; x->info = info; x->local = a->loc == loc;
    x->h = info->handler->origin();
    tracef("%s subscribes x%d (%d/%d kind %d) at A%d%s", rec->name.c_str(), x->id, K, J, kind, a->id, x->local ? "" : " foreign");
    mine.push_back(x);
    M->subs_at[{a, K}].push_back(x);
    count("subscriptions");
}
template <int K> sub_rec *node_t::make_sub(addr_rec *a, int J, kind_t kind) {
    if (kind != LAMBDA && kind != OBSERVER)
        for (auto x : mine) if (x->K == K && x->J == J && x->kind == kind && x->a == a && !x->finished()) return nullptr;
    M->subs.emplace_back(new sub_rec); auto x = M->subs.back().get();
    x->id = int(M->subs.size()) - 1;
    x->t_req = ++W->stamp;
    r::subscription_info_ptr_t info;
    if (kind == METHOD) info = J == 0 ? subscribe(&node_t::h<K, 0>, a->addr) : J == 1 ? subscribe(&node_t::h<K, 1>, a->addr) : subscribe(&node_t::h<K, 2>, a->addr);
    else if (kind == LAMBDA || kind == OBSERVER) {
        if (J == 0) info = subscribe(r::lambda<m_t<K>>([this, x](m_t<K> &m) noexcept { on(x, m, "lambda"); }), a->addr);
        else info = subscribe(r::lambda<m_t<K>>([this, x](m_t<K> &m) noexcept { on(x, m, "lambda'"); }), a->addr);
    }
    else if (kind == PLUGIN) info = watch->subscribe(&watch_plugin_t::on_m<K>, a->addr);
    else if (kind == STARTER) {
        auto p = get_plugin(r::plugin::starter_plugin_t::class_identity);
        info = static_cast<r::plugin::starter_plugin_t *>(p)->subscribe_actor(&node_t::hs<K>, a->addr);
    }
    note(a, x, K, J, kind, info);
    return x;
}
sub_rec *node_t::subscribe_random(addr_rec *a, int K, bool late) {
    if (M->sub_budget <= 0) return nullptr;
    if (a->role != ORDINARY) return nullptr;
    if (a->loc != loc && (!M->allow_foreign_subs)) return nullptr;
    M->sub_budget--;
    auto &g = M->w.rng;
    kind_t kind = g.chance(0.5) ? METHOD : g.chance(0.6) || late ? LAMBDA : PLUGIN;
    int J = kind == METHOD ? g.range(0, NJ - 1) : kind == LAMBDA ? g.range(0, 1) : 0;
    sub_rec *x = K == 0 ? make_sub<0>(a, J, kind) : K == 1 ? make_sub<1>(a, J, kind) : make_sub<2>(a, J, kind);
    if (x && M->p_tag && g.chance(0.4)) { tag(x); if (g.chance(0.2)) tag(x); }
    return x;
}
void node_t::unsub(sub_rec *x) {
    if (x->t_unreq || x->finished() || !lifetime || x->kind == OBSERVER || x->a->role != ORDINARY) return;
    auto &g = M->w.rng;
    x->t_unreq = ++W->stamp;
    count("unsubscriptions");
    bool unique = x->kind == METHOD, equal = false;
    if (unique) for (auto y : mine) if (y != x && y->kind == METHOD && y->K == x->K && y->a == x->a && !y->finished()) { if (y->J == x->J) unique = false; else equal = true; }
    int how = g.range(0, unique ? 2 : 1);
    tracef("%s unsubscribes x%d (way %d)", rec->name.c_str(), x->id, how);
    if (how == 0) lifetime->unsubscribe(x->info);
    else if (how == 1) { if (x->a->addr == address) unsubscribe(x->info->handler); else lifetime->unsubscribe(x->info->handler, x->a->addr); }
    else {
        auto a = x->a->addr;
        if (equal) count("unsubscriptions of a method among others with the same signature");
        auto un = [&](auto k) { constexpr int K = decltype(k)::value; if (x->J == 0) unsubscribe(&node_t::h<K, 0>, a); else if (x->J == 1) unsubscribe(&node_t::h<K, 1>, a); else unsubscribe(&node_t::h<K, 2>, a); };
        if (x->K == 0) un(std::integral_constant<int, 0>()); else if (x->K == 1) un(std::integral_constant<int, 1>()); else un(std::integral_constant<int, 2>());
    }
}
void node_t::unsub_random() {
    std::vector<sub_rec *> c;
    auto &g = M->w.rng;
    bool methods = g.chance(0.4);
    for (auto x : mine) if (!x->t_unreq && !x->finished() && x->kind != OBSERVER && x->a->role == ORDINARY && (!methods || x->kind == METHOD)) c.push_back(x);
    for (int n = g.chance(0.7) ? 1 : 3; n > 0 && !c.empty(); --n) unsub(g.pick(c));
}
void node_t::subscribe_sibling() { // one more method with the same signature on the same address
    std::vector<sub_rec *> c;
    for (auto x : mine) if (!x->finished() && x->kind == METHOD && x->a->role == ORDINARY && (x->a->loc == loc || M->allow_foreign_subs)) c.push_back(x);
    if (c.empty() || M->sub_budget <= 0) return;
    M->sub_budget--;
    auto x = M->w.rng.pick(c);
    int J = M->w.rng.range(0, NJ - 1);
    if (x->K == 0) make_sub<0>(x->a, J, METHOD); else if (x->K == 1) make_sub<1>(x->a, J, METHOD); else make_sub<2>(x->a, J, METHOD);
}
template <int K> void node_t::send_msg(addr_rec *to, addr_rec *next) {
    if (M->budget <= 0) return;
    M->budget--;
    int id = ++M->next_msg;
    auto l = std::make_unique<leg_rec>();
    l->key = {id, 0, to}; l->K = K; l->sender = rec; l->seq = ++M->send_seq[{rec, to}]; l->s = ++W->stamp; l->send_loc = loc;
    l->gseq = loc == to->loc ? ++M->loop_seq[loc] : 0;
    auto lp = l.get();
    M->legs[l->key] = std::move(l);
    if (next) {
        auto n = std::make_unique<leg_rec>();
        n->key = {id, 0, next}; n->K = K; n->sender = rec; n->seq = 0; n->gseq = 0; n->s = lp->s; n->send_loc = -2; n->automatic = true; n->parent = lp;
        lp->next = n.get();
        M->legs[n->key] = std::move(n);
    }
    uint64_t sum = M->w.rng.below(1000);
    tracef("%s sends m%d type %d to A%d%s", rec->name.c_str(), id, K, to->id, next ? fmt(" then A%d", next->id).c_str() : "");
    count(next ? "messages routed" : "messages sent");
    if (next) route<pay_t<K>>(to->addr, next->addr, id, sum); else send<pay_t<K>>(to->addr, id, sum);
}
static addr_rec *random_addr(bool for_next, addr_rec *other) {
    if (M->addrs.empty()) return nullptr;
    for (int i = 0; i < 10; ++i) {
        auto a = M->w.rng.pick(M->addrs).get();
        if (a == other || a->sup->down()) continue;
        if (a->owner->n_shut_start && M->w.rng.chance(0.7)) continue;
        return a;
    }
    return nullptr;
}
void node_t::send_to(sub_rec *x) { switch (x->K) { case 0: send_msg<0>(x->a, nullptr); break; case 1: send_msg<1>(x->a, nullptr); break; default: send_msg<2>(x->a, nullptr); } }
void node_t::send_random() {
    auto &g = M->w.rng;
    auto to = random_addr(false, nullptr);
    if (!to) return;
    auto next = g.chance(0.25) ? random_addr(true, to) : nullptr;
    int n = g.chance(0.3) ? g.range(2, 4) : 1;
    while (n--) switch (g.range(0, NK - 1)) { case 0: send_msg<0>(to, next); break; case 1: send_msg<1>(to, next); break; default: send_msg<2>(to, next); }
}
template <int K> bool redirect_kept(node_t *n, r::message_ptr_t msg, leg_rec *leg) {
    auto &g = M->w.rng;
    auto to = random_addr(false, leg->key.to);
    if (!to) return false;
    auto next = g.chance(0.3) ? random_addr(true, to) : nullptr;
    auto &p = static_cast<m_t<K> *>(msg.get())->payload;
    p.leg++;
    auto l = std::make_unique<leg_rec>();
    l->key = {p.id, p.leg, to}; l->K = K; l->sender = n->rec; l->seq = ++M->send_seq[{n->rec, to}]; l->s = ++W->stamp; l->send_loc = n->loc;
    l->gseq = n->loc == to->loc ? ++M->loop_seq[n->loc] : 0;
    if (M->legs.count(l->key)) { return false; }
    auto lp = l.get();
    M->legs[l->key] = std::move(l);
    if (next) {
        auto x = std::make_unique<leg_rec>();
        x->key = {p.id, p.leg, next}; x->K = K; x->sender = n->rec; x->seq = 0; x->gseq = 0; x->s = lp->s; x->send_loc = -2; x->automatic = true; x->parent = lp;
        lp->next = x.get(); M->legs[x->key] = std::move(x);
    }
    tracef("%s redirects m%d to A%d%s", n->rec->name.c_str(), p.id, to->id, next ? fmt(" then A%d", next->id).c_str() : "");
    count("messages redirected");
    n->redirect(std::move(msg), to->addr, next ? next->addr : r::address_ptr_t{});
    return true;
}
template <int K> void node_t::react(sub_rec *x, m_t<K> &m, leg_rec *leg) {
    auto &g = M->w.rng;
    if (x->a->role == REDIRECTOR && alive()) {
        bool done = redirect_kept<K>(this, r::message_ptr_t(&m), leg);
        if (leg->next && done) leg->kept = true;
        return;
    }
    if (x->a->role == KEEPER && alive()) {
        leg->kept = true;
        for (auto &k : M->kept) if (k.first.get() == &m) return; // a repeated continuation
        tracef("%s keeps m%d", rec->name.c_str(), m.payload.id);
        M->kept.emplace_back(r::message_ptr_t(&m), leg);
        return;
    }
    if (x->kind == OBSERVER) return;
    if (!alive()) { // handlers, which are not yet unsubscribed, still do what they please
        if (M->p_dyn && lifetime && rec->n_shut_start && !rec->n_shut_finish && g.chance(0.5)) {
            auto a = g.chance(0.5) ? x->a : random_addr(false, nullptr);
            if (a && g.chance(0.7)) { if (subscribe_random(a, K, true)) count("subscriptions made during shutdown"); }
            else unsub_random();
        }
        return;
    }
    if (g.chance(0.6)) return;
    switch (g.range(0, 9)) {
    case 0: case 1: case 2: send_random(); break;
    case 3: if (M->p_dyn) subscribe_random(x->a, K); break;
    case 4: if (M->p_dyn) { auto a = random_addr(false, nullptr); if (a) subscribe_random(a, g.range(0, NK - 1)); } break;
    case 5: if (M->p_dyn) unsub(x); break;
    case 6: if (M->p_dyn) unsub_random(); break;
    case 7: if (M->p_tag && !x->finished() && !x->t_unreq) tag(x); break;
    case 8: if (M->p_kill && g.chance(0.1)) do_shutdown(); else new_request(); break;
    case 9: release_kept(); if (!pending.empty()) { auto p = pending.back(); pending.pop_back(); answer(*p); } break;
    }
}
void node_t::release_kept() {
    if (M->kept.empty()) return;
    auto i = M->w.rng.below(M->kept.size());
    auto [m, l] = M->kept[i];
    if (l->key.to->owner != rec) return;
    M->kept.erase(M->kept.begin() + i);
    if (!alive()) return;
    if (l->K == 0) redirect_kept<0>(this, std::move(m), l); else if (l->K == 1) redirect_kept<1>(this, std::move(m), l); else redirect_kept<2>(this, std::move(m), l);
}

template <class Msg> void node_t::on(sub_rec *x, Msg &m, const std::string &what) {
    auto now = ++W->stamp;
    auto &p = m.payload;
    auto ait = M->by_addr.find(m.address.get());
    auto a = ait == M->by_addr.end() ? nullptr : ait->second;
    count("deliveries");
    tracef("%s x%d gets m%d at A%d%s", rec->name.c_str(), x ? x->id : -1, p.id, a ? a->id : -1, M->in_cont ? " (intercepted)" : "");
    if (!x) { violate("P03", "%s: %s runs without a subscription on that address", rec->name.c_str(), what.c_str()); violate("P01", "%s: %s runs without a subscription on that address", rec->name.c_str(), what.c_str()); return; }
    if (!p.intact()) violate("P01", "m%d was altered", p.id);
    // P16
    if (W->cur_loc != loc) { violate("P16", "%s of loop %d runs in loop %d", rec->name.c_str(), loc, W->cur_loc); violate("P01", "%s of loop %d runs in loop %d", rec->name.c_str(), loc, W->cur_loc); }
    if (M->in_handler[loc]++) violate("P16", "%s is called while another handler of its loop runs", rec->name.c_str());
    // P21
    bool via_hook = M->in_cont, again = false;
    if (x->tagged && !via_hook) violate("P21", "tagged x%d runs without interception", x->id);
    if (!x->tagged && via_hook) violate("P21", "untagged x%d passes the interception", x->id);
    if (via_hook) { M->ran++; again = M->ran_sub == x; if (M->ran_sub && M->ran_sub != x) violate("P21", "one interception runs two handlers"); M->ran_sub = x; }
    auto leg = a ? M->leg({p.id, p.leg, a}) : nullptr;
    if (!leg) {
        violate("P01", "m%d was never sent to A%d", p.id, a ? a->id : -1); violate("P14", "m%d was never sent or routed to A%d", p.id, a ? a->id : -1);
    } else {
        if (a != x->a) violate("P01", "x%d at A%d called for a message of A%d", x->id, x->a->id, a->id);
        if (!leg->first_call) leg->first_call = now;
        leg->last_call = now;
        if (!x->local) leg->foreign_seen = true;
        if (x->kind == OBSERVER && !leg->d) leg->d = now;
        if (!again) {
            if (++x->got[leg->key] > 1) { violate("P01", "m%d delivered %d times to x%d", p.id, x->got[leg->key], x->id); if (leg->automatic) violate("P14", "m%d delivered %d times to x%d of its follow-up address", p.id, x->got[leg->key], x->id); if (x->tagged) violate("P21", "m%d intercepted %d times for x%d", p.id, x->got[leg->key], x->id); }
            if (x->t_unconf && x->t_unconf < now) { violate("P03", "x%d runs after its unsubscription was confirmed", x->id); if (x->tagged) violate("P21", "tagged x%d runs after its unsubscription was confirmed", x->id); }
            if (rec->down()) violate("P03", "x%d runs after its actor was shut down", x->id);
            // P02
            if (leg->seq) {
                auto &l = M->last_seq[{rec, leg->sender, a}];
                if (leg->seq < l) violate("P02", "x%d gets message %llu from %s via A%d after message %llu", x->id, (unsigned long long)leg->seq, leg->sender->name.c_str(), a->id, (unsigned long long)l);
                else l = leg->seq;
            }
            if (leg->gseq && x->local) {
                auto &l = M->loop_last[loc];
                if (leg->gseq < l) violate("P02", "loop %d processes local message %llu after %llu", loc, (unsigned long long)leg->gseq, (unsigned long long)l);
                else l = leg->gseq;
            }
            // P14
            if (leg->automatic) {
                auto pl = leg->parent;
                if (pl->kept) violate("P14", "m%d was forwarded to its follow-up address though it is kept", p.id);
                for (auto y : M->subs_at[{pl->key.to, pl->K}]) {
                    if (y->t_unreq || M->gone(y->rec) || y->a->sup->n_shut_start || !y->t_conf || y->t_conf > pl->s) continue;
                    if (y->got.count(pl->key)) continue;
                    if (y->tagged && M->zero[{pl->key, y->rec->parent}]) continue;
                    violate("P14", "m%d reached its follow-up address before x%d processed it", p.id, y->id);
                }
            }
            for (auto n = leg->next; n;) { if (n->first_call) violate("P14", "x%d processes m%d after it was forwarded", x->id, p.id); break; }
            auto &v = M->visits[p.id];
            if (p.visits != v) violate(leg->automatic ? "P14" : "P01", "m%d lost or changed what the recipients wrote into it", p.id);
            if (p.visits.size() < 50) { p.visits.push_back(x->id); v = p.visits; }
        }
        if constexpr (std::is_same_v<Msg, m_t<0>>) react<0>(x, m, leg);
        else if constexpr (std::is_same_v<Msg, m_t<1>>) react<1>(x, m, leg);
        else react<2>(x, m, leg);
    }
    --M->in_handler[loc];
}

// requests: replies take part in the order of messages
void node_t::answer(request_m &m) {
    auto a = M->by_addr.find(m.payload.origin.get());
    uint64_t seq = a == M->by_addr.end() ? 0 : ++M->send_seq[{rec, a->second}];
    tracef("%s answers q%d", rec->name.c_str(), m.payload.request_payload.id);
    reply_to(m, m.payload.request_payload.id, rec->id, seq);
}
void node_t::on_req(request_m &m) noexcept {
    count("requests");
    if (!alive()) return;
    if (M->w.rng.chance(0.5)) answer(m); else pending.emplace_back(&m);
}
void node_t::on_res(response_m &m) noexcept {
    count("responses");
    if (M->in_handler[loc]) violate("P16", "%s is called while another handler of its loop runs", rec->name.c_str());
    if (W->cur_loc != loc) violate("P16", "%s of loop %d runs in loop %d", rec->name.c_str(), loc, W->cur_loc);
    if (m.payload.ee) return;
    auto &r = *m.payload.res;
    tracef("%s gets the answer q%d", rec->name.c_str(), r.id);
    auto a = M->by_addr.find(address.get());
    if (a == M->by_addr.end() || !r.seq) return;
    auto &l = M->last_seq[{rec, M->w.recs[r.sender].get(), a->second}];
    if (r.seq < l) violate("P02", "%s gets answer %llu of %s after message %llu", rec->name.c_str(), (unsigned long long)r.seq, M->w.recs[r.sender]->name.c_str(), (unsigned long long)l);
    else l = r.seq;
}
void node_t::new_request() {
    if (M->budget <= 0 || M->nodes.empty()) return;
    auto n = M->w.rng.pick(M->nodes);
    if (n == this || !n->rec->n_start || n->rec->n_shut_start || n->rec->parent->n_shut_start) return;
    M->budget--;
    static int q = 0;
    request<req_t>(n->get_address(), ++q).send(ms(60000));
}
void node_t::act_random() {
    auto &g = M->w.rng;
    if (!alive()) return;
    switch (g.range(0, 12)) {
    case 0: case 1: case 2: case 3: case 4: send_random(); break;
    case 5: { auto a = random_addr(false, nullptr); if (a) subscribe_random(a, g.range(0, NK - 1)); } break;
    case 6: if (M->p_dyn) unsub_random(); break;
    case 12: if (M->p_dyn) subscribe_sibling(); break;
    case 7: if (M->p_tag && !mine.empty()) { auto x = g.pick(mine); if (!x->finished() && !x->t_unreq && x->kind != OBSERVER) tag(x); } break;
    case 8: if (M->p_kill && g.chance(0.2)) do_shutdown(); else new_request(); break;
    case 9: release_kept(); break;
    case 10: if (!pending.empty()) { auto p = pending.front(); pending.erase(pending.begin()); answer(*p); } break;
    case 11: if (M->addrs.size() < 14) own_address(false, g.chance(0.6), g.chance(0.7) ? ORDINARY : g.chance(0.5) ? REDIRECTOR : KEEPER); break;
    }
}
addr_rec *node_t::own_address(bool main, bool observed, role_t role) {
    M->addrs.emplace_back(new addr_rec);
    auto a = M->addrs.back().get();
    a->id = int(M->addrs.size()) - 1; a->addr = main ? address : create_address(); a->owner = rec; a->sup = rec->parent; a->loc = loc; a->main = main;
    a->observed = observed && role == ORDINARY; a->role = role;
    M->by_addr[a->addr.get()] = a;
    tracef("%s has address A%d%s role %d", rec->name.c_str(), a->id, a->observed ? " observed" : "", role);
    if (a->observed) { make_sub<0>(a, 0, OBSERVER); make_sub<1>(a, 0, OBSERVER); make_sub<2>(a, 0, OBSERVER); }
    if (role != ORDINARY) { make_sub<0>(a, 0, LAMBDA); make_sub<1>(a, 0, LAMBDA); make_sub<2>(a, 0, LAMBDA); }
    return a;
}

static void settle() { // what must have happened, once everything is quiet
    auto &w = M->w;
    for (auto &x : M->subs) {
        if (!M->gone(x->rec) && !x->a->sup->n_shut_start && !x->n_conf) violate("P03", "subscription x%d was never confirmed", x->id);
        if (!M->gone(x->rec) && !x->a->sup->n_shut_start && x->t_unreq && !x->n_unconf) violate("P03", "unsubscription of x%d was never confirmed", x->id);
    }
    for (auto &kv : M->legs) {
        auto &l = *kv.second;
        auto a = l.key.to;
        if (l.void_) continue;
        if (a->sup->n_shut_start) continue;
        bool expected = true;
        bool known = false;
        if (l.automatic) {
            auto pl = l.parent;
            if (pl->kept) expected = false;
            auto ps = pl->key.to->sup;
            if (ps->n_shut_start) expected = false;
            for (auto x : M->subs_at[{pl->key.to, pl->K}]) if (!x->local) known = true;
        }
        if (!expected) continue;
        int hooks_needed = 0;
        std::map<rec_t *, int> required_tagged;
        for (auto x : M->subs_at[{a, l.K}]) {
            auto until = M->held_until(x->rec);
            if (!until && (x->rec->n_shut_start || x->rec->parent->n_shut_start)) continue;
            if (!x->t_conf) continue;
            auto d_lo = l.d ? l.d : l.s;
            auto d_hi = l.d ? l.d : l.first_call ? l.first_call : w.stamp;
            bool required = x->t_conf < d_lo;
            if (x->local) { if (x->t_unreq && x->t_unreq <= d_hi) required = false; } else if (x->t_unreq) required = false;
            if (until && until <= (x->local ? d_hi : ~uint64_t(0) - 1)) required = false;
            if (!required) continue;
            count("required deliveries checked");
            if (until) count("required deliveries to actors which are shutting down");
            auto n = x->got.count(l.key);
            if (!n && x->tagged && M->zero[{l.key, x->rec->parent}] > 0) { M->zero[{l.key, x->rec->parent}]--; n = 1; }
            if (!n) {
                if (l.automatic) violate("P14", "m%d was not forwarded to x%d of its follow-up address A%d%s", l.key.id, x->id, a->id, known ? " (the first address has recipients in another event loop)" : "");
                else {
                    violate("P01", "m%d for A%d was never delivered to x%d", l.key.id, a->id, x->id);
                    if (x->tagged) violate("P21", "m%d for A%d was neither intercepted for nor delivered to x%d", l.key.id, a->id, x->id);
                    if (l.key.leg) violate("P14", "redirected m%d for A%d was never delivered to x%d", l.key.id, a->id, x->id);
                    bool churn = false;
                    for (auto y : M->subs_at[{a, l.K}]) if (y != x && (y->t_unreq || y->t_req > l.s)) churn = true;
                    if (churn) violate("P03", "m%d for A%d was never delivered to x%d, others come and go there", l.key.id, a->id, x->id);
                }
            }
        }
        l.void_ = true; // settled; later calls are still judged online
    }
}

static void fn(world_t &w, int focus) {
    auto &g = w.rng;
    model_t m(w); M = &m; live_payloads = 0;
    m.p_tag = focus == 21 || g.chance(0.4);
    m.p_kill = g.chance(0.3);
    m.p_dyn = g.chance(0.8);
    m.p_hold = g.chance(0.5);
    m.allow_foreign_subs = !(focus == 14 && g.chance(0.7));
    m.budget = g.range(10, 60); m.sub_budget = g.range(4, 25);
    struct holder_t { rec_t *rec = nullptr; };
    auto make_spec = [&](std::shared_ptr<holder_t> h) {
        auto sp = std::make_shared<spec_t>();
        sp->intercept = [h](r::message_ptr_t &msg, const void *tag, const r::continuation_t &cont) {
            auto &m = *M; auto &g = m.w.rng;
            if (tag != r::tags::io) violate("P21", "interception with a wrong tag");
            leg_key key{-1, 0, nullptr};
            auto a = m.by_addr.find(msg->address.get());
            auto get = [&](auto &x) { key = {x.payload.id, x.payload.leg, a == m.by_addr.end() ? nullptr : a->second}; };
            if (msg->type_index == m_t<0>::message_type) get(static_cast<m_t<0> &>(*msg));
            else if (msg->type_index == m_t<1>::message_type) get(static_cast<m_t<1> &>(*msg));
            else if (msg->type_index == m_t<2>::message_type) get(static_cast<m_t<2> &>(*msg));
            else { violate("P21", "a message nobody tagged is intercepted"); cont(); return; }
            count("interceptions");
            if (m.in_cont) violate("P21", "nested interception");
            int n = g.chance(0.75) ? 1 : g.chance(0.5) ? 0 : 2;
            m.ran_sub = nullptr;
            for (int i = 0; i < n; ++i) {
                m.ran = 0; m.in_cont = true;
                cont();
                m.in_cont = false;
                if (m.ran != 1) violate("P21", "continuation ran %d handlers", m.ran);
                // a redirecting handler changes the address: do not run it again
                auto b = m.by_addr.find(msg->address.get());
                if (b == m.by_addr.end() || b->second != key.to) break;
            }
            if (!n) {
                m.zero[{key, h->rec}]++;
                int tagged = 0;
                for (int k = 0; k < NK; ++k) for (auto x : m.subs_at[{key.to, k}]) tagged += x->tagged;
                if (!tagged) violate("P21", "interception where nobody is tagged");
            }
        };
        return sp;
    };
    auto h0 = std::make_shared<holder_t>();
    auto root = create_root(w, [&](auto &&b) { return std::move(b).timeout(ms(9000)).spec(make_spec(h0)); });
    h0->rec = root->rec;
    m.sups.push_back(root.get());
    int nloc = focus == 2 ? g.range(1, 3) : g.range(1, 4), nested = g.range(0, 3);
    for (int i = 1; i < nloc + nested; ++i) {
        auto parent = g.pick(m.sups);
        auto h = std::make_shared<holder_t>();
        w.in_loc(*parent->loc, [&] {
            auto b = parent->create_actor<sup_t>().timeout(ms(9000)).spec(make_spec(h));
            auto s = i < nloc ? std::move(b).loc(w.new_loc()).finish() : std::move(b).finish();
            h->rec = s->rec;
            m.sups.push_back(s.get());
            w.keep.push_back(s);
        });
    }
    auto nsp = std::make_shared<spec_t>();
    nsp->configure = [&](r::actor_base_t &a, r::plugin::plugin_base_t &p) {
        auto &n = static_cast<node_t &>(a);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &p) {
            p.subscribe_actor(&node_t::on_req);
            p.subscribe_actor(&node_t::on_res);
            auto ar = n.own_address(true, M->w.rng.chance(0.6), ORDINARY);
            if (M->w.rng.chance(0.5)) n.make_sub<0>(ar, 0, STARTER);
            int k = M->w.rng.chance(0.3) ? 1 : M->w.rng.chance(0.2) ? M->w.rng.range(2, 4) : 0; // elsewhere, too
            while (k-- > 0) { auto o = M->w.rng.pick(M->addrs).get(); if (o != ar && o->role == ORDINARY && (o->loc == n.loc || M->allow_foreign_subs)) { if (M->w.rng.chance(0.5)) n.make_sub<0>(o, 0, STARTER); else n.make_sub<1>(o, 0, STARTER); } }
        });
    };
    nsp->on_init_finish = [&](r::actor_base_t &a) {
        auto &n = static_cast<node_t &>(a);
        int k = 0;
        for (auto x : n.mine) if (x->kind == STARTER) { ++k; if (!x->n_conf) violate("P13", "actor %s is initialized although its initial subscription x%d is not confirmed", n.rec->name.c_str(), x->id); else if (x->a->loc != n.loc) count("initial subscriptions elsewhere"); }
        if (k > 1) count("several initial subscriptions");
    };
    nsp->on_shutdown_finish = [&](r::actor_base_t &a) {
        auto &n = static_cast<node_t &>(a);
        for (auto x : n.mine)
            if (x->kind != PLUGIN && x->kind != STARTER && x->n_unconf != 1) violate("P03", "actor %s is down, unsubscription of x%d confirmed %d times", n.rec->name.c_str(), x->id, x->n_unconf);
        n.pending.clear();
    };
    int nn = g.range(2, 7);
    auto add_node = [&] {
        auto s = g.pick(m.sups);
        if (s->rec->n_shut_start || m.nodes.size() > 9) return;
        w.in_loc(*s->loc, [&] { s->create_actor<node_t>().timeout(ms(9000)).spec(nsp).finish(); });
    };
    for (int i = 0; i < nn; ++i) add_node();
    auto mk_ops = [&](int n) {
        for (int i = 0; i < n; ++i)
            w.ops.push_back([&] {
                int k = g.range(0, 30);
                if (k == 3 && m.p_hold) { // the end of a shutdown, or the beginning of one
                    std::vector<node_t *> c;
                    bool begin = g.chance(0.5);
                    for (auto n : m.nodes) if (begin ? n->alive() : m.is_held(n->rec)) c.push_back(n);
                    if (!c.empty()) { auto n = g.pick(c); w.in_loc(*w.locs[n->loc], [&] { if (begin) n->do_shutdown(); else n->free(); }); }
                } else if (k == 0) add_node();
                else if (k == 1 && m.p_kill && m.sups.size() > 1 && g.chance(0.3)) {
                    auto s = g.pick(m.sups);
                    if (s != m.sups[0] && !s->rec->n_shut_start) w.in_loc(*s->loc, [&] { s->do_shutdown(); });
                } else if (k == 2) { // from outside of the framework
                    auto a = random_addr(false, nullptr);
                    if (a && M->budget > 0) {
                        M->budget--;
                        int id = ++M->next_msg;
                        auto l = std::make_unique<leg_rec>();
                        l->key = {id, 0, a}; l->K = 0; l->sender = nullptr; l->seq = ++M->send_seq[{nullptr, a}]; l->s = ++W->stamp; l->send_loc = -1; l->gseq = 0;
                        M->legs[l->key] = std::move(l);
                        static rec_t outside; outside.name = "outside";
                        M->legs[{id, 0, a}]->sender = &outside;
                        M->legs[{id, 0, a}]->seq = 0;
                        count("messages from outside");
                        tracef("outside sends m%d to A%d", id, a->id);
                        w.post(r::make_message<pay_t<0>>(a->addr, id, uint64_t(id * 7 % 100)));
                    }
                } else if (!m.nodes.empty()) {
                    auto n = g.pick(m.nodes);
                    if (k >= 22) w.in_loc(*w.locs[n->loc], [&] { auto a = random_addr(false, nullptr); if (a && n->alive()) n->subscribe_random(a, g.range(0, NK - 1)); });
                    else w.in_loc(*w.locs[n->loc], [&] { n->act_random(); });
                }
            });
    };
    mk_ops(g.range(5, 40));
    auto run = [&] { // not up to the shutdown timeouts, when somebody is held
        bool held = false;
        bool ok = w.run(40000, virtual_now + 30000);
        for (auto &kv : m.held) held |= kv.second == ~uint64_t(0);
        return ok && (held || w.run(40000));
    };
    bool quiet = run();
    auto rounds = g.range(0, 2);
    while (rounds-- && quiet) { settle(); w.ops.clear(); w.next_op = 0; m.budget = 20; m.sub_budget = 6; mk_ops(g.range(5, 20)); quiet = run(); }
    if (quiet) settle(); else violate("P15", "the system does not become quiet");
    // release what is kept, then down
    m.kept.clear();
    for (auto n : m.nodes) if (g.chance(0.5)) n->pending.clear();
    m.closing = true;
    for (auto n : m.nodes) if (m.is_held(n->rec)) w.after(g.range(1, 15) * 1000, n->loc, [rec = n->rec] { free_node(rec); });
    m.budget = g.range(0, 10);
    w.in_loc(*root->loc, [&] { root->do_shutdown(); });
    if (g.chance(0.5)) { w.ops.clear(); w.next_op = 0; mk_ops(10); }
    w.run(40000);
    w.check_lifecycle();
    m.kept.clear();
    for (auto &x : m.subs) x->info.reset();
    for (auto &a : m.addrs) a->addr.reset();
    root.reset();
    w.finish();
    if (live_payloads) { violate("P15", "%d payload(s) not destroyed after the system was dropped", live_payloads); }
    M = nullptr;
}
static workload_reg r1("deliv", [](world_t &w) { fn(w, 1); });
static workload_reg r14("deliv-route", [](world_t &w) { fn(w, 14); });
static workload_reg r21("deliv-tag", [](world_t &w) { fn(w, 21); });
} }
