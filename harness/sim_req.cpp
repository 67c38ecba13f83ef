// Requests and timers (P04, P05; P15 P16 on the way).
// The outcome of every request is determined by the model from what arrived first at the requester's loop:
// an answer, or the expiry of the request's timer. Every timer is tracked from start to its only callback.
#include "sim.hpp"

namespace sim { namespace req {
int live;
struct live_t { live_t() { ++live; } live_t(const live_t &) { ++live; } live_t(live_t &&) { ++live; } live_t &operator=(const live_t &) = default; ~live_t() { --live; } };
struct ans_t { int q = 0, n = -1; std::string text; live_t l; ans_t() = default; ans_t(int q_, int n_) : q(q_), n(n_), text(size_t(unsigned(q_) % 50), char('a' + n_ % 26)) {} bool ok() const { return text == std::string(size_t(unsigned(q) % 50), char(97 + n % 26)); } };
struct rans_t : r::arc_base_t<rans_t> { ans_t a; rans_t() = default; rans_t(int q, int n) : a(q, n) {} virtual ~rans_t() = default; };
struct r1_t { using response_t = ans_t; int q; std::string text; live_t l; r1_t(int q_) : q(q_), text(size_t(q_ % 60), 'x') {} bool ok() const { return text == std::string(size_t(q % 60), 'x'); } };
struct r2_t : r::arc_base_t<r2_t> { using response_t = r::intrusive_ptr_t<rans_t>; int q; std::string text; live_t l; r2_t(int q_) : q(q_), text(size_t(q_ % 60), 'y') {} virtual ~r2_t() = default; bool ok() const { return text == std::string(size_t(q % 60), 'y'); } };
using q1_m = r::request_traits_t<r1_t>::request::message_t;
using a1_m = r::request_traits_t<r1_t>::response::message_t;
using q2_m = r::request_traits_t<r2_t>::request::message_t;
using a2_m = r::request_traits_t<r2_t>::response::message_t;

struct ractor_t;
struct ans_rec { rec_t *by; uint64_t s; r::extended_error_ptr_t ee; bool payload; uint64_t arrived = 0; };
struct addr_t { r::address_ptr_t a; rec_t *owner; int loc; };
struct q_rec {
    int id, type; rec_t *from, *sup; std::string identity; addr_t reply; addr_t dest; vtime_t sent, timeout; r::request_id_t rid = 0;
    const void *msg = nullptr; std::vector<ans_rec> answers; int arrivals = 0;
    uint64_t round = 0; int resolved = -2; // -2 no, -1 timeout, n: the n-th answer
    int outcomes = 0; int got = 0;
    bool sure = true; // the resolution is certain to be delivered
    int parent = 0;   // forwarded request
    r::message_ptr_t hold;
};
struct t_rec { int id; ractor_t *a; rec_t *rec; r::request_id_t rid; vtime_t started, interval; int fired = 0, cancelled = 0; bool cancelling = false; int kind; bool done() const { return fired + cancelled; } };

struct model_t {
    world_t &w;
    std::map<int, q_rec> qs; int next_q = 0;
    std::map<std::pair<rec_t *, r::request_id_t>, q_rec *> by_rid; // supervisor, id
    std::vector<std::unique_ptr<t_rec>> ts;
    std::map<std::pair<rec_t *, r::request_id_t>, t_rec *> live_t_;
    std::vector<ractor_t *> actors; std::vector<sup_t *> sups;
    std::vector<addr_t> addrs, reply_addrs;
    std::vector<std::pair<r::message_ptr_t, int>> pend; // pending at responders: message, loc
    std::vector<ractor_t *> pend_by;
    int budget = 0, tbudget = 0; bool kill = false; int focus;
    t_rec *firing = nullptr; q_rec *fire_q = nullptr;
    explicit model_t(world_t &w_) : w(w_) {}
};
model_t *M;

struct helper_t { ractor_t *a; void on_timer(r::request_id_t id, bool cancelled) noexcept; };
struct ractor_t : probe_t<r::actor_base_t> {
    using config_t = act_cfg_t;
    template <class A> using config_builder_t = act_builder_t<A>;
    helper_t helper{this};
    std::vector<addr_t> mine;
    std::vector<r::message_ptr_t> kept;
    explicit ractor_t(act_cfg_t &cfg) : probe_t<r::actor_base_t>(cfg, false) { M->actors.push_back(this); }
    ~ractor_t() { M->actors.erase(std::find(M->actors.begin(), M->actors.end(), this)); }
    bool alive() const { return rec->n_init_start && !rec->n_shut_start; }
    void configure(r::plugin::plugin_base_t &p) noexcept override;
    template <class Q> void on_q(Q &m) noexcept;
    template <class A> void on_a(A &m) noexcept;
    void on_q1(q1_m &m) noexcept { on_q(m); }
    void on_q2(q2_m &m) noexcept { on_q(m); }
    void on_a1(a1_m &m) noexcept { on_a(m); }
    void on_a2(a2_m &m) noexcept { on_a(m); }
    void on_timer(r::request_id_t id, bool cancelled) noexcept { timer_event(id, cancelled); }
    void timer_event(r::request_id_t id, bool cancelled);
    void start_one();
    void cancel_one();
    void new_request();
    template <class R> void send_requests(int n);
    template <class Q> void answer(Q &m, bool again = false);
    void act_random(int depth = 0);
    void answer_pending();
};
void helper_t::on_timer(r::request_id_t id, bool cancelled) noexcept { a->timer_event(id, cancelled); }
static void free_timer(ractor_t *a, r::request_id_t id, bool cancelled) noexcept { a->timer_event(id, cancelled); }

static int qid(q1_m &m) { return m.payload.request_payload.ok() ? m.payload.request_payload.q : -1; }
static int qid(q2_m &m) { return m.payload.request_payload->ok() ? m.payload.request_payload->q : -1; }
static const ans_t *ans(a1_m &m) { return &m.payload.res; }
static const ans_t *ans(a2_m &m) { return m.payload.res ? &m.payload.res->a : nullptr; }

void ractor_t::configure(r::plugin::plugin_base_t &p) noexcept {
    probe_t<r::actor_base_t>::configure(p);
    p.with_casted<r::plugin::address_maker_plugin_t>([&](auto &p) { if (M->w.rng.chance(0.5)) p.set_identity(fmt("id-%s", rec->name.c_str()), M->w.rng.chance(0.5)); });
    p.with_casted<r::plugin::starter_plugin_t>([&](auto &p) {
        auto add = [&](const r::address_ptr_t &a) { mine.push_back({a, rec, rec->loc}); M->reply_addrs.push_back(mine.back()); };
        add(address); add(create_address());
        for (auto &x : mine) { p.subscribe_actor(&ractor_t::on_a1, x.a); p.subscribe_actor(&ractor_t::on_a2, x.a); }
        p.subscribe_actor(&ractor_t::on_q1); p.subscribe_actor(&ractor_t::on_q2);
        M->addrs.push_back({address, rec, rec->loc});
        // an address with two responders
        if (!M->addrs.empty() && M->w.rng.chance(0.15)) { auto &o = M->w.rng.pick(M->addrs); if (o.a != address && !o.owner->n_shut_start && o.loc == rec->loc) p.subscribe_actor(&ractor_t::on_q1, o.a); }
    });
}
template <class R> void ractor_t::send_requests(int n) {
    auto &g = M->w.rng;
    struct one_t { q_rec *q; r::request_builder_t<typename r::request_wrapper_t<R>::request_t> b; };
    std::list<one_t> bs;
    for (int i = 0; i < n && M->budget > 0; ++i) {
        M->budget--;
        addr_t to{};
        for (int k = 0; k < 10; ++k) { auto &x = g.pick(M->addrs); if (W->recs[x.owner->id]->parent->n_shut_start) continue; to = x; if (!x.owner->n_shut_start || g.chance(0.2)) break; }
        if (!to.a) break;
        int id = ++M->next_q;
        auto &q = M->qs[id];
        q.id = id; q.type = std::is_same_v<R, r1_t> ? 1 : 2; q.from = rec; q.sup = rec->parent; q.identity = get_identity(); q.dest = to;
        q.reply = mine[0];
        if (g.chance(0.4)) { if (g.chance(0.6)) q.reply = g.pick(mine); else { auto &x = g.pick(M->reply_addrs); if (!x.owner->n_shut_start && !x.owner->parent->n_shut_start) q.reply = x; } }
        if (q.reply.a == address && g.chance(0.7)) bs.push_back({&q, request<R>(to.a, id)});
        else bs.push_back({&q, request_via<R>(to.a, q.reply.a, id)});
    }
    std::vector<one_t *> order;
    for (auto &x : bs) order.push_back(&x);
    g.shuffle(order);
    for (auto xp : order) {
        auto &x = *xp; auto &q = *x.q;
        q.timeout = g.chance(0.3) ? g.range(0, 300) : g.chance(0.5) ? g.range(300, 5000) : g.range(5000, 80000);
        if (g.chance(0.03)) q.timeout = 0;
        q.sent = virtual_now;
        q.rid = x.b.send(us(q.timeout));
        tracef("%s sends q%d type %d to %s%s, timeout %llu", rec->name.c_str(), q.id, q.type, q.dest.owner->name.c_str(), q.dest.loc == rec->loc ? "" : " (foreign)", (unsigned long long)q.timeout);
        count("requests");
        if (M->by_rid.count({q.sup, q.rid})) { violate("P04", "q%d has got an id in use", q.id); violate("P05", "q%d has got a timer id in use", q.id); }
        if (M->live_t_.count({q.sup, q.rid})) { violate("P04", "q%d has got the id of a pending timer", q.id); violate("P05", "q%d has got the id of a pending timer", q.id); }
        M->by_rid[{q.sup, q.rid}] = &q;
        bool ok = false;
        for (auto &t : W->locs[rec->loc]->timers) if (t.id == q.rid && t.deadline == q.sent + q.timeout) ok = true;
        if (!ok) violate("P04", "q%d is not guarded by a timer with its timeout", q.id);
    }
}
void ractor_t::new_request() {
    auto &g = M->w.rng;
    if (M->addrs.empty() || mine.empty()) return;
    int n = g.chance(0.3) ? g.range(2, 3) : 1;
    if (g.chance(0.5)) send_requests<r1_t>(n); else send_requests<r2_t>(n);
}
static void at_loop(q_rec &q, int n) { // answer n has been put into the queue of the requester's loop
    q.arrivals++;
    if (q.answers[n].arrived) return;
    q.answers[n].arrived = ++W->stamp;
    if (q.from->n_shut_start || q.sup->n_shut_start) q.sure = false;
    if (q.resolved == -2 && !q.from->n_shut_finish) { q.resolved = n; q.round = W->round; if (!W->poll_timers) M->by_rid.erase({q.sup, q.rid}); }
}
template <class Q> void ractor_t::answer(Q &m, bool) {
    auto &g = M->w.rng;
    int id = qid(m);
    auto it = M->qs.find(id);
    if (it == M->qs.end()) { violate("P04", "an unknown request is asked"); return; }
    auto &q = it->second;
    int n = int(q.answers.size());
    if (g.chance(0.06)) { // an answer to a request which does not exist
        auto bogus = r::intrusive_ptr_t<Q>(new Q(m.address, m.payload.id + 1000 + g.below(5), m.payload.reply_to, m.payload.origin, m.payload.request_payload));
        tracef("%s answers an unknown request", rec->name.c_str());
        count("answers to unknown requests");
        if constexpr (std::is_same_v<Q, q1_m>) reply_to(*bogus, -1, -1); else reply_to(*bogus, -1, -1);
        return;
    }
    ans_rec a{rec, ++W->stamp, {}, true};
    int how = g.range(0, 9);
    if (how < 4) {}
    else {
        auto ec = g.chance(0.5) ? r::make_error_code(r::error_code_t(g.range(1, 11))) : std::make_error_code(std::errc::io_error);
        if (how < 8) { a.payload = false; }
        a.ee = make_error(ec, g.chance(0.5) ? r::make_error("inner", ec) : r::extended_error_ptr_t{}, r::message_ptr_t{});
        if (how >= 8 && q.type == 2) a.payload = true;
        if (how >= 8 && q.type == 1) a.payload = true;
    }
    q.answers.push_back(a);
    tracef("%s answers q%d (%d%s)", rec->name.c_str(), id, n, a.ee ? " error" : "");
    count("answers");
    r::message_ptr_t msg;
    if (!a.ee) {
        if (g.chance(0.3)) supervisor->put(make_response(m, id, n));
        else reply_to(m, id, n);
    } else if (!a.payload) {
        if (g.chance(0.3)) supervisor->put(make_response(m, std::as_const(a.ee))); else reply_with_error(m, a.ee);
    } else {
        typename Q::payload_t::response_t res;
        if constexpr (std::is_same_v<Q, q1_m>) res = ans_t(id, n); else res = new rans_t(id, n);
        using res_m = typename r::request_traits_t<typename Q::payload_t::request_t>::response::message_t;
        supervisor->put(r::message_ptr_t(new res_m(m.payload.reply_to, r::intrusive_ptr_t<Q>(&m), a.ee, std::move(res))));
    }
    if (rec->loc == q.from->loc) at_loop(q, n);
}
template <class Q> void ractor_t::on_q(Q &m) noexcept {
    auto &g = M->w.rng;
    count("requests received");
    int id = qid(m);
    if (!M->qs.count(id)) { violate("P04", "%s gets a request nobody sent", rec->name.c_str()); return; }
    auto &q = M->qs[id];
    if (m.address != q.dest.a) violate("P04", "q%d came to another address", id);
    if (m.payload.origin != q.reply.a) violate("P04", "q%d shows another reply address", id);
    if (m.payload.id != q.rid && q.rid) violate("P04", "q%d shows another id", id);
    q.msg = &m;
    q.hold = &m;
    tracef("%s gets q%d", rec->name.c_str(), id);
    if (!alive()) return;
    if (g.chance(0.5)) { answer(m); if (g.chance(0.15)) answer(m); }
    else if (g.chance(0.8)) kept.emplace_back(&m);
    if (g.chance(0.3)) act_random(1);
}
void ractor_t::answer_pending() {
    if (kept.empty()) return;
    auto i = M->w.rng.below(kept.size());
    auto m = kept[i];
    if (M->w.rng.chance(0.8)) kept.erase(kept.begin() + i);
    if (m->type_index == q1_m::message_type) answer(static_cast<q1_m &>(*m)); else answer(static_cast<q2_m &>(*m));
}
template <class A> void ractor_t::on_a(A &m) noexcept {
    count("outcomes");
    auto &p = m.payload;
    int id = qid(*p.req);
    auto it = M->qs.find(id);
    if (it == M->qs.end()) { violate("P04", "%s gets an answer to a request nobody sent", rec->name.c_str()); return; }
    auto &q = it->second;
    auto a = ans(m);
    q.outcomes++;
    if (!p.ee && a && a->n == -1) { violate("P04", "the answer to an unknown request was delivered"); return; }
    tracef("%s gets the outcome of q%d: %s", rec->name.c_str(), id, p.ee ? p.ee->ec.message().c_str() : "ok");
    if (q.outcomes > 1) { violate("P04", "q%d has %d outcomes", id, q.outcomes); return; }
    if (m.address != q.reply.a) violate("P04", "the outcome of q%d came to another address", id);
    if (q.hold && p.req.get() != q.hold.get()) violate("P04", "the outcome of q%d carries another request", id);
    if (p.req->payload.id != q.rid) violate("P04", "the outcome of q%d carries another id", id);
    if (q.from->n_shut_finish && q.from->loc == rec->loc) { violate("P04", "the outcome of q%d is delivered after its requester was shut down", id); }
    if (q.resolved == -2) violate("P04", "q%d has an outcome (%s) though neither an answer arrived nor its time is over", id, p.ee ? p.ee->ec.message().c_str() : "ok");
    else if (q.resolved == -1) {
        count("timeouts");
        if (!p.ee || p.ee->ec != r::make_error_code(r::error_code_t::request_timeout)) violate("P04", "q%d timed out but its outcome is %s", id, p.ee ? p.ee->ec.message().c_str() : "ok");
        else {
            if (p.ee->context != q.identity) violate("P04", "the timeout of q%d names '%s' instead of '%s'", id, p.ee->context.c_str(), q.identity.c_str());
            if (p.ee->request.get() != p.req.get()) violate("P04", "the timeout of q%d does not carry the request", id);
            if (p.ee->next) violate("P04", "the timeout of q%d has a cause", id);
        }
        if (virtual_now < q.sent + q.timeout) violate("P04", "q%d timed out too early", id);
    } else {
        auto &e = q.answers[q.resolved];
        if (p.ee != e.ee) violate("P04", "the outcome of q%d has another error (%s) than its first answer (%s)", id, p.ee ? p.ee->ec.message().c_str() : "-", e.ee ? e.ee->ec.message().c_str() : "-");
        if (e.payload) {
            if (!a) violate("P04", "the outcome of q%d has lost its payload", id);
            else if (a->q != id || a->n != q.resolved || !a->ok()) violate("P04", "the outcome of q%d has the payload of %d/%d instead of %d", id, a->q, a->n, q.resolved);
        }
        if (p.ee && p.ee->ec == r::make_error_code(r::error_code_t::request_timeout) && !e.ee) violate("P04", "q%d was answered in time but timed out", id);
    }
    if (rec->down()) violate("P04", "%s gets an outcome after it was shut down", rec->name.c_str());
    if (alive() && M->w.rng.chance(0.3)) act_random(1);
}

// ---- timers
void ractor_t::start_one() {
    if (M->tbudget <= 0) return;
    M->tbudget--;
    auto &g = M->w.rng;
    M->ts.emplace_back(new t_rec);
    auto t = M->ts.back().get();
    t->id = int(M->ts.size()); t->a = this; t->rec = rec; t->started = virtual_now;
    t->interval = g.chance(0.1) ? 0 : g.chance(0.5) ? g.range(1, 500) : g.range(500, 20000);
    t->kind = g.range(0, 3);
    auto iv = us(t->interval);
    if (t->kind == 0) t->rid = start_timer(iv, *this, &ractor_t::on_timer);
    else if (t->kind == 1) t->rid = start_timer(iv, *this, free_timer);
    else if (t->kind == 2) t->rid = start_timer(iv, helper, &helper_t::on_timer);
    else t->rid = start_timer(iv, *this, [t](ractor_t *a, r::request_id_t id, bool c) noexcept { a->timer_event(id, c); });
    tracef("%s starts t%d in %llu", rec->name.c_str(), t->id, (unsigned long long)t->interval);
    count("timers");
    if (M->live_t_.count({rec, t->rid})) violate("P05", "t%d has the id of another pending timer", t->id);
    M->live_t_[{rec, t->rid}] = t;
    if (t->done()) violate("P05", "t%d is over before it was started", t->id);
    bool ok = false;
    for (auto &x : W->locs[rec->loc]->timers) if (x.id == t->rid && x.deadline == t->started + t->interval) ok = true;
    if (!ok) violate("P05", "t%d is not known to the event loop with its interval", t->id);
}
void ractor_t::cancel_one() {
    std::vector<t_rec *> c;
    for (auto &kv : M->live_t_) if (kv.first.first == rec && !kv.second->done() && kv.second != M->firing && !kv.second->cancelling) c.push_back(kv.second);
    if (c.empty()) return;
    auto t = M->w.rng.pick(c);
    tracef("%s cancels t%d", rec->name.c_str(), t->id);
    count("cancellations");
    t->cancelling = true;
    cancel_timer(t->rid);
    if (!t->cancelled) violate("P05", "t%d has not reported its cancellation when the cancelling call returned", t->id);
    for (auto &x : W->locs[rec->loc]->timers) if (x.id == t->rid && x.handler->owner == this) violate("P05", "cancelled t%d is still pending in the event loop", t->id);
}
void ractor_t::timer_event(r::request_id_t id, bool cancelled) {
    auto it = M->live_t_.find({rec, id});
    count(cancelled ? "timers cancelled" : "timers fired");
    if (it == M->live_t_.end()) { violate("P05", "%s: callback of a timer which is not pending (%s)", rec->name.c_str(), cancelled ? "cancelled" : "fired"); return; }
    auto t = it->second;
    tracef("t%d %s", t->id, cancelled ? "cancelled" : "fired");
    (cancelled ? t->cancelled : t->fired)++;
    if (t->fired + t->cancelled > 1) violate("P05", "t%d ended twice", t->id);
    if (!cancelled && M->firing != t) violate("P05", "t%d fired though it was not due", t->id);
    if (!cancelled && virtual_now < t->started + t->interval) violate("P05", "t%d fired too early", t->id);
    if (cancelled && !t->cancelling && !rec->n_shut_start) violate("P05", "t%d was cancelled though nobody cancelled it", t->id);
    if (rec->n_shut_finish) violate("P05", "callback of t%d after the actor was shut down", t->id);
    if (W->cur_loc != rec->loc) violate("P16", "t%d runs in another loop", t->id);
    M->live_t_.erase(it);
    auto &g = M->w.rng;
    if (g.chance(0.5)) { int n = g.range(1, 4); while (n--) { int k = g.range(0, 3); if (k < 2) start_one(); else if (k == 2) cancel_one(); else if (alive()) act_random(1); } }
    if (g.chance(0.05)) { int n = g.range(10, 40); if (M->tbudget > 0) { while (n--) { M->tbudget++; start_one(); } } } // many at once
}
void ractor_t::act_random(int depth) {
    auto &g = M->w.rng;
    if (!alive()) return;
    if (M->focus == 5 && g.chance(0.6)) { if (g.chance(0.65)) start_one(); else cancel_one(); return; }
    switch (g.range(0, 11)) {
    case 0: case 1: case 2: case 3: new_request(); break;
    case 4: case 5: case 6: answer_pending(); break;
    case 7: start_one(); break;
    case 8: cancel_one(); break;
    case 9: if (M->kill && g.chance(0.15)) do_shutdown(); break;
    case 10: if (!depth) { act_random(1); act_random(1); } break;
    case 11: kept.clear(); break;
    }
}

static void settle() {
    for (auto &kv : M->qs) {
        auto &q = kv.second;
        if (q.from->n_shut_start || q.sup->n_shut_start || q.reply.owner->n_shut_start || q.reply.owner->parent->n_shut_start) continue;
        count("requests settled");
        if (q.outcomes != 1) violate("P04", "q%d has %d outcomes (%s)", q.id, q.outcomes, q.resolved == -2 ? "no answer and no timeout" : q.resolved == -1 ? "timed out" : "answered");
    }
    for (auto &t : M->ts) {
        if (t->rec->n_shut_start) continue;
        if (!t->done()) violate("P05", "t%d never ended", t->id);
    }
}

static void fn(world_t &w, int focus) {
    auto &g = w.rng;
    model_t m(w); M = &m; live = 0; m.focus = focus;
    m.kill = g.chance(0.4); m.budget = focus == 5 ? g.range(0, 15) : g.range(5, 50); m.tbudget = focus == 5 ? g.range(10, 100) : g.range(0, 15);
    w.on_take = [&](loc_t &l, r::message_ptr_t &msg) {
        auto see = [&](auto &a) {
            auto x = ans(a);
            auto &p = a.payload;
            if (a.address != p.req->payload.reply_to) return; // the second hop, to a foreign reply address
            int id = qid(*p.req);
            auto it = m.qs.find(id);
            if (it == m.qs.end()) return;
            auto &q = it->second;
            if (q.from->loc != l.id || q.rid != p.req->payload.id) return;
            for (size_t n = 0; n < q.answers.size(); ++n) {
                bool same = q.answers[n].ee ? q.answers[n].ee == p.ee : (!p.ee && x && x->n == int(n));
                if (same && !q.answers[n].arrived) { at_loop(q, int(n)); break; }
            }
        };
        if (msg->type_index == a1_m::message_type) see(static_cast<a1_m &>(*msg));
        else if (msg->type_index == a2_m::message_type) see(static_cast<a2_m &>(*msg));
    };
    w.on_fire = [&](timer_rec_t &t) {
        auto o = w.rec(t.handler->owner);
        m.firing = nullptr; m.fire_q = nullptr;
        if (auto it = m.live_t_.find({o, t.id}); it != m.live_t_.end()) m.firing = it->second;
        else if (auto it = m.by_rid.find({o, t.id}); it != m.by_rid.end()) {
            auto &q = *it->second;
            if (q.from->n_shut_finish) violate("P04", "the timer of q%d outlives its requester", q.id);
            if (q.from->n_shut_start || q.sup->n_shut_start) q.sure = false;
            if (q.resolved == -2) q.resolved = -1;
            // the answer is in the queue, but the expiry has been noticed before the answer is processed
            else if (q.resolved >= 0 && w.poll_timers && q.round == w.round) { q.resolved = -1; count("answers beaten by the expiry in the same poll"); }
            m.by_rid.erase(it);
        }
    };
    w.on_fired = [&](timer_rec_t &t) {
        if (m.firing && !m.firing->fired) violate("P05", "t%d expired but its callback did not run", m.firing->id);
        m.firing = nullptr;
    };
    auto root = create_root(w, [&](auto &&b) { return std::move(b).timeout(ms(100)); });
    m.sups.push_back(root.get());
    int nloc = g.range(1, 3), nested = g.range(0, 2);
    for (int i = 1; i < nloc + nested; ++i) {
        auto parent = g.pick(m.sups);
        w.in_loc(*parent->loc, [&] {
            auto b = parent->create_actor<sup_t>().timeout(ms(100));
            auto s = i < nloc ? std::move(b).loc(w.new_loc()).finish() : std::move(b).finish();
            m.sups.push_back(s.get()); w.keep.push_back(s);
        });
    }
    auto sp = std::make_shared<spec_t>();
    sp->on_start = [&](r::actor_base_t &a) { auto &x = static_cast<ractor_t &>(a); if (g.chance(0.5)) x.act_random(); if (focus == 5) x.start_one(); };
    sp->on_created = [&](r::actor_base_t &a) { auto &x = static_cast<ractor_t &>(a); if (g.chance(0.1)) x.start_one(); if (g.chance(0.1)) x.new_request(); };
    sp->on_init_finish = [&](r::actor_base_t &a) { auto &x = static_cast<ractor_t &>(a); if (g.chance(0.1)) x.new_request(); };
    sp->on_shutdown_start = [&](r::actor_base_t &a) { auto &x = static_cast<ractor_t &>(a); if (g.chance(0.3)) x.start_one(); if (g.chance(0.2)) x.new_request(); if (g.chance(0.3)) x.cancel_one(); };
    sp->on_shutdown_finish = [&](r::actor_base_t &a) {
        auto &x = static_cast<ractor_t &>(a);
        for (auto &kv : m.live_t_) if (kv.first.first == x.rec) { violate("P05", "%s is shut down but its t%d has not ended", x.rec->name.c_str(), kv.second->id); }
        for (auto &l : w.locs) for (auto &t : l->timers) if (t.handler->owner == &a) violate("P05", "%s is shut down but the event loop still has a timer of it", x.rec->name.c_str());
        if (!x.timers().empty()) violate("P05", "%s is shut down with %zu timers", x.rec->name.c_str(), x.timers().size());
        if (!x.reqs().empty()) violate("P04", "%s is shut down with %zu active requests", x.rec->name.c_str(), x.reqs().size());
        for (auto &kv : m.qs) if (kv.second.from == x.rec) for (auto &t : w.locs[x.rec->loc]->timers) if (t.id == kv.second.rid && t.handler->owner == kv.second.sup->actor && m.by_rid.count({kv.second.sup, t.id})) { violate("P04", "q%d of %s still has a timer", kv.first, x.rec->name.c_str()); violate("P05", "q%d of %s still has a timer", kv.first, x.rec->name.c_str()); }
        x.kept.clear();
    };
    auto add = [&] {
        auto s = g.pick(m.sups);
        if (s->rec->n_shut_start || m.actors.size() > 8) return;
        w.act(*s->loc, [&] { s->create_actor<ractor_t>().timeout(ms(100)).spec(sp).finish(); });
    };
    int nn = g.range(2, 6);
    for (int i = 0; i < nn; ++i) add();
    auto mk_ops = [&](int n) {
        for (int i = 0; i < n; ++i) w.ops.push_back([&] {
            int k = g.range(0, 25);
            if (k == 0) add();
            else if (k == 1 && m.kill && m.sups.size() > 1 && g.chance(0.3)) { auto s = g.pick(m.sups); if (s != m.sups[0] && !s->rec->n_shut_start) w.act(*s->loc, [&] { s->do_shutdown(); }); }
            else if (!m.actors.empty()) { auto a = g.pick(m.actors); w.act(*w.locs[a->rec->loc], [&] { a->act_random(); }); }
        });
    };
    mk_ops(g.range(5, 40));
    if (w.run(40000)) settle(); else violate("P15", "the system does not become quiet");
    m.budget = g.range(0, 10); m.tbudget = g.range(0, 20);
    w.ops.clear(); w.next_op = 0;
    mk_ops(g.range(0, 15));
    w.run(g.range(1, 60));
    w.act(*root->loc, [&] { root->do_shutdown(); });
    if (!w.run(40000)) violate("P08", "the shutdown does not come to an end");
    w.check_lifecycle();
    for (auto s : m.sups) if (s->rec->actor && s->request_count()) violate("P04", "%s is shut down with requests pending", s->rec->name.c_str());
    for (auto &t : m.ts) if (!t->done()) violate("P05", "t%d never ended, its actor is down", t->id);
    m.qs.clear(); m.addrs.clear(); m.reply_addrs.clear(); m.by_rid.clear(); m.live_t_.clear();
    root.reset();
    w.finish();
    if (live) violate("P15", "%d payload(s) not destroyed after the system was dropped", live);
    M = nullptr;
}
static workload_reg r4("req", [](world_t &w) { fn(w, 4); });
static workload_reg r5("timer", [](world_t &w) { fn(w, 5); });
} }
