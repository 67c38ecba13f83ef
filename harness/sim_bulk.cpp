// Big numbers: long queues, many timers, requests, subscriptions, names, children, restarts, clients at once, and
// counters beyond the widths of small integers. The oracles are simple, the scale is what the other workloads lack.
#include "sim.hpp"
#include <algorithm>
#include <cmath>
#include <set>

namespace sim { namespace bulk {
static const vtime_t ever = 100000000000ull; // practically never
static const size_t steps = 40000000;
static int size(rng_t &g, int lo, int hi) { return int(lo * std::exp(double(g.below(1000001)) / 1000000 * std::log(double(hi) / lo))); }

template <int K> struct num_t { int sender, seq; num_t(int s, int q) : sender(s), seq(q) {} };
struct hop_t { int id; explicit hop_t(int i) : id(i) {} };
struct res_t { int n = 0; res_t() = default; explicit res_t(int n_) : n(n_) {} };
struct req_t { using response_t = res_t; int n; explicit req_t(int n_) : n(n_) {} };
using req_m = r::request_traits_t<req_t>::request::message_t;
using res_m = r::request_traits_t<req_t>::response::message_t;

struct ba_t : act_t {
    using act_t::act_t;
    using act_t::cancel_timer; using act_t::lifetime; using act_t::start_timer;
    std::function<void(r::request_id_t, bool)> on_timer_fn;
    void on_timer(r::request_id_t id, bool cancelled) noexcept { on_timer_fn(id, cancelled); }
    r::request_id_t arm(vtime_t v) { return start_timer(us(v), *this, &ba_t::on_timer); }
};
using ba_ptr_t = r::intrusive_ptr_t<ba_t>;
static loc_t &loc_of(r::actor_base_t *a) { return *W->locs[W->rec(a)->loc]; }
static sup_ptr_t root_of(world_t &w, bool reg = false) { return create_root(w, [&](auto &&b) { return std::move(b).init_timeout(us(ever)).shutdown_timeout(us(ever)).create_registry(reg); }); }
static sup_ptr_t nested(world_t &w, sup_ptr_t p, bool own, bool sync = false, spec_ptr_t sp = std::make_shared<spec_t>()) {
    sup_ptr_t s;
    w.in_loc(*p->loc, [&] { auto b = p->create_actor<sup_t>().init_timeout(us(ever)).shutdown_timeout(us(ever)).synchronize_start(sync).spec(sp); s = own ? std::move(b).loc(w.new_loc()).finish() : std::move(b).finish(); });
    w.keep.push_back(s);
    return s;
}
static ba_ptr_t actor(world_t &w, sup_ptr_t s, spec_ptr_t sp) { ba_ptr_t a; w.in_loc(*s->loc, [&] { a = s->create_actor<ba_t>().init_timeout(us(ever)).shutdown_timeout(us(ever)).spec(sp).finish(); }); return a; }
static bool quiet(world_t &w, const char *p, vtime_t span = 1000000) { if (w.run(steps, virtual_now + span)) return true; violate(p, "the system does not become quiet"); return false; }
static void end(world_t &w, sup_ptr_t root, const char *p) {
    w.act(*root->loc, [&] { root->do_shutdown(); });
    quiet(w, p, ever / 2);
    if (!W->rec(root.get()) || !W->rec(root.get())->n_shut_finish) { violate(p, "the root has not been shut down"); violate("P08", "the root has not been shut down"); }
    if (w.ctx->errors.size()) violate(p, "an error is reported: %s", w.ctx->errors[0].second->message().c_str());
    w.check_lifecycle();
}
struct tidy_t { world_t &w; ~tidy_t() { w.ops.clear(); w.agenda.clear(); } };
template <class F> static void starter(r::plugin::plugin_base_t &p, F &&f) { p.with_casted<r::plugin::starter_plugin_t>(std::forward<F>(f)); }

// ---- messages: exactly once, in order, routed ---------------------------------------------------
static void msg(world_t &w) {
    tidy_t t{w}; auto &g = w.rng;
    auto root = root_of(w);
    std::vector<sup_ptr_t> sups{root};
    for (int i = g.range(0, 3); i > 0; --i) sups.push_back(nested(w, g.pick(sups), g.chance(0.6)));
    struct hnd_t { int addr, kind; std::vector<size_t> pos; };
    struct st_t { std::vector<r::address_ptr_t> addrs; std::vector<std::array<std::vector<std::vector<int>>, 3>> sent; std::vector<std::unique_ptr<hnd_t>> hs; std::vector<int> hops;
                  struct hp_t { int first, next, hits1 = 0, hits2 = 0; }; std::vector<hp_t> routed; } st;
    int S = g.range(1, 4), R = g.range(1, 6), A = size(g, 1, 60);
    auto take = [&st](hnd_t *h, int sender, int seq) {
        auto &v = st.sent[h->addr][h->kind][sender]; auto &pos = h->pos[sender];
        if (pos >= v.size() || v[pos] != seq) {
            auto it = std::find(v.begin(), v.end(), seq);
            if (it == v.end()) violate("P01", "message %d is delivered to a handler of another address", seq);
            else { violate("P02", "message %d is delivered instead of %d", seq, pos < v.size() ? v[pos] : -1); violate("P01", "message %d is delivered instead of %d", seq, pos < v.size() ? v[pos] : -1); }
            if (it != v.end()) pos = size_t(it - v.begin()) + 1;
        } else ++pos;
        count("deliveries checked");
    };
    auto hop = [&st](int a, int id) {
        auto &x = st.routed[id];
        if (a == x.first && x.hits1 < st.hops[x.first]) { if (x.hits2) violate("P14", "routed message %d comes to its first address after the second one", id); ++x.hits1; }
        else if (a == x.next) { if (x.hits1 != st.hops[x.first]) violate("P14", "routed message %d comes to its second address too early", id); ++x.hits2; }
        else violate("P14", "routed message %d is delivered to a stranger", id);
    };
    std::vector<ba_ptr_t> rs, ss;
    st.hops.assign(A, 0);
    for (int i = 0; i < A; ++i) { st.sent.emplace_back(); for (auto &x : st.sent.back()) x.resize(S); }
    st.addrs.resize(A);
    for (int i = 0; i < R; ++i) {
        auto sp = std::make_shared<spec_t>(); bool once = false;
        sp->configure = [&, i, once](r::actor_base_t &a, r::plugin::plugin_base_t &p) mutable {
            starter(p, [&](auto &p) {
                if (once) return; once = true;
                auto &x = static_cast<ba_t &>(a);
                for (int k = i; k < A; k += R) {
                    if (!st.addrs[k]) st.addrs[k] = k == i ? x.get_address() : x.new_address();
                    auto sub = [&](auto kind) { constexpr int K = decltype(kind)::value; if (g.chance(0.8)) {
                        st.hs.emplace_back(new hnd_t{k, K, std::vector<size_t>(S)}); auto h = st.hs.back().get();
                        p.subscribe_actor(r::lambda<r::message_t<num_t<K>>>([h, take](r::message_t<num_t<K>> &m) noexcept { take(h, m.payload.sender, m.payload.seq); }), st.addrs[k]); } };
                    sub(std::integral_constant<int, 0>()); sub(std::integral_constant<int, 1>()); sub(std::integral_constant<int, 2>());
                    if (g.chance(0.7)) { st.hops[k]++; p.subscribe_actor(r::lambda<r::message_t<hop_t>>([k, hop](r::message_t<hop_t> &m) noexcept { hop(k, m.payload.id); }), st.addrs[k]); }
                }
            });
        };
        rs.push_back(actor(w, g.pick(sups), sp));
    }
    for (int i = 0; i < S; ++i) ss.push_back(actor(w, g.pick(sups), std::make_shared<spec_t>()));
    if (!quiet(w, "P01")) return;
    int N = g.chance(0.02) ? g.range(66000, 140000) : size(g, 100, 20000), seq = 0;
    if (N > 65536) count("cases with more than 65536 messages");
    double p_route = g.chance(0.5) ? 0.3 : 0;
    while (N > 0) {
        int s = g.range(0, S - 1), burst = g.chance(0.3) ? N : std::min(N, size(g, 1, 5000)); N -= burst;
        w.act(loc_of(ss[s].get()), [&] {
            auto &a = *ss[s];
            while (burst-- > 0) {
                int k = g.range(0, A - 1), kind = g.range(0, 2), q = ++seq;
                if (A > 1 && g.chance(p_route)) {
                    int k2 = (k + g.range(1, A - 1)) % A;
                    st.routed.push_back({k, k2}); a.route<hop_t>(st.addrs[k], st.addrs[k2], int(st.routed.size()) - 1); continue;
                }
                st.sent[k][kind][s].push_back(q);
                if (kind == 0) a.send<num_t<0>>(st.addrs[k], s, q); else if (kind == 1) a.send<num_t<1>>(st.addrs[k], s, q); else a.send<num_t<2>>(st.addrs[k], s, q);
            }
        });
        if (g.chance(0.5)) w.run(g.range(0, 2000), virtual_now + 100);
    }
    if (!quiet(w, "P01")) return;
    for (auto &h : st.hs) for (int s = 0; s < S; ++s) if (h->pos[s] != st.sent[h->addr][h->kind][s].size()) violate("P01", "%d of %d messages are delivered", int(h->pos[s]), int(st.sent[h->addr][h->kind][s].size()));
    for (auto &x : st.routed) if (x.hits1 != st.hops[x.first] || x.hits2 != st.hops[x.next]) violate("P14", "routed message is delivered to %d of %d, then to %d of %d", x.hits1, st.hops[x.first], x.hits2, st.hops[x.next]);
    count("messages routed", st.routed.size()); count("messages sent", seq);
    rs.clear(); ss.clear();
    end(w, root, "P01");
    st.addrs.clear(); root.reset(); sups.clear();
    w.finish();
}
template <class F> static void by_kind(int k, F &&f) {
    switch (k) {
    case 0: f(std::integral_constant<int, 0>()); break;
    case 1: f(std::integral_constant<int, 1>()); break;
    case 2: f(std::integral_constant<int, 2>()); break;
    case 3: f(std::integral_constant<int, 3>()); break;
    case 4: f(std::integral_constant<int, 4>()); break;
    case 5: f(std::integral_constant<int, 5>()); break;
    case 6: f(std::integral_constant<int, 6>()); break;
    case 7: f(std::integral_constant<int, 7>()); break;
    }
}
// ---- subscriptions ------------------------------------------------------------------------------
static void sub(world_t &w) {
    tidy_t t{w}; auto &g = w.rng;
    auto root = root_of(w);
    auto other = nested(w, root, g.chance(0.7));
    struct h_t { r::subscription_info_ptr_t info; r::address_ptr_t addr; int kind = 0, got = 0, exp = 0; bool on = true; };
    std::vector<std::unique_ptr<h_t>> hs;
    auto peer = actor(w, other, std::make_shared<spec_t>());
    if (!quiet(w, "P03")) return;
    int N = size(g, 20, 1500); double p_foreign = g.chance(0.3) ? 0 : g.chance(0.5) ? 1 : 0.5, p_new = g.chance(0.3) ? 0.01 : 0.6;
    auto sp = std::make_shared<spec_t>(); bool once = false;
    sp->configure = [&, once](r::actor_base_t &a, r::plugin::plugin_base_t &p) mutable {
        starter(p, [&](auto &p) {
            if (once) return; once = true;
            auto &x = static_cast<ba_t &>(a);
            r::address_ptr_t mine = x.get_address(), theirs = peer->get_address(); int k1 = 0, k2 = 0;
            for (int i = 0; i < N; ++i) {
                bool f = g.chance(p_foreign);
                auto &k = f ? k2 : k1; if (k == 8 || g.chance(p_new)) { k = 0; if (f) theirs = peer->new_address(); else mine = x.new_address(); }
                hs.emplace_back(new h_t); auto h = hs.back().get(); h->addr = f ? theirs : mine; h->kind = k++;
                by_kind(h->kind, [&](auto kind) { h->info = p.subscribe_actor(r::lambda<r::message_t<num_t<decltype(kind)::value>>>([h](auto &) noexcept { ++h->got; }), h->addr); });
            }
        });
    };
    auto a = actor(w, root, sp);
    if (!quiet(w, "P03")) return;
    if (!w.rec(a.get())->n_start) { violate("P13", "an actor with %d initial subscriptions is not started", N); violate("P03", "an actor with %d initial subscriptions is not started", N); }
    auto wave = [&] {
        std::set<std::pair<r::address_ptr_t, int>> addrs; for (auto &h : hs) { addrs.emplace(h->addr, h->kind); if (h->on) h->exp++; }
        w.act(loc_of(peer.get()), [&] { for (auto &x : addrs) by_kind(x.second, [&](auto kind) { peer->send<num_t<decltype(kind)::value>>(x.first, 0, 0); }); });
        quiet(w, "P03");
        for (auto &h : hs) if (h->got != h->exp) { violate(h->on ? "P01" : "P03", "%s handler has got %d messages instead of %d", h->on ? "subscribed" : "unsubscribed", h->got, h->exp); h->exp = h->got; }
        count("deliveries checked", hs.size());
    };
    wave();
    for (int i = g.range(1, 3); i > 0; --i) {
        double q = g.chance(0.2) ? 1 : 0.4;
        w.act(loc_of(a.get()), [&] { for (auto &h : hs) if (h->on && g.chance(q)) { h->on = false; a->lifetime->unsubscribe(h->info); count("unsubscribed"); } });
        quiet(w, "P03"); wave();
    }
    count("subscriptions", N);
    w.act(loc_of(a.get()), [&] { a->do_shutdown(); });
    quiet(w, "P08");
    if (!w.rec(a.get())->n_shut_finish) violate("P08", "an actor with many subscriptions is not shut down");
    hs.clear(); a.reset(); peer.reset(); other.reset();
    end(w, root, "P03"); root.reset(); w.finish();
}
// ---- timers -------------------------------------------------------------------------------------
static void timer(world_t &w) {
    tidy_t t{w}; auto &g = w.rng;
    auto root = root_of(w);
    auto sup = g.chance(0.5) ? root : nested(w, root, g.chance(0.5));
    struct tm_t { vtime_t deadline; int fired = 0, cancelled = 0; bool by_us = false; };
    std::map<r::request_id_t, tm_t> ts; vtime_t last = 0; bool going_down = false;
    auto sp = std::make_shared<spec_t>(); bool once = false;
    sp->configure = [&, once](r::actor_base_t &a, r::plugin::plugin_base_t &p) mutable { starter(p, [&](auto &p) { if (once) return; once = true; p.subscribe_actor(r::lambda<req_m>([](auto &) noexcept {})); }); };
    auto a = actor(w, sup, sp);
    a->on_timer_fn = [&](r::request_id_t id, bool c) {
        auto it = ts.find(id);
        if (it == ts.end()) { violate("P05", "an unknown timer is triggered"); return; }
        auto &x = it->second; (c ? x.cancelled : x.fired)++;
        if (x.fired + x.cancelled > 1) violate("P05", "a timer is triggered twice");
        if (c && !x.by_us && !going_down) violate("P05", "a timer is cancelled on its own");
        if (!c && x.by_us) violate("P05", "a cancelled timer is fired");
        if (!c && virtual_now < x.deadline) violate("P05", "a timer is fired too early");
        if (!c && x.deadline < last) violate("P05", "timers are fired out of order"); 
        if (!c) { last = x.deadline; count("timers fired"); } else count("timers cancelled");
    };
    if (!quiet(w, "P05")) return;
    auto start = [&](vtime_t v) { auto id = a->arm(v); if (ts.count(id) && ts[id].fired + ts[id].cancelled == 0) violate("P05", "two pending timers have the same identity"); ts[id] = tm_t{virtual_now + v}; return id; };
    auto cancel = [&](r::request_id_t id) { ts[id].by_us = true; a->cancel_timer(id); if (ts[id].cancelled != 1) violate("P05", "a timer is not cancelled at once"); };
    r::request_id_t lone = 0;
    // the ones that stay, then lots of the ones that come and go: their identities must not clash
    w.act(loc_of(a.get()), [&] { for (int i = g.range(1, 5); i > 0; --i) lone = start(ever / 100 + g.below(1000)); if (g.chance(0.5)) a->request<req_t>(a->get_address(), 1).send(us(ever / 90)); });
    int N = g.chance(0.02) ? g.range(66000, 140000) : size(g, 100, 8000);
    if (N > 65536) count("cases with more than 65536 timers");
    for (int i = 0; i < N;) w.act(loc_of(a.get()), [&] { for (int b = size(g, 1, 1000); b > 0 && i < N; --b, ++i) { auto id = start(g.range(1000, 5000)); cancel(id); ts.erase(id); } });
    int M = size(g, 50, 1500); std::vector<r::request_id_t> ids;
    w.act(loc_of(a.get()), [&] { for (int i = 0; i < M; ++i) ids.push_back(start(g.chance(0.05) ? 0 : g.chance(0.3) ? 1000 * vtime_t(g.range(1, 5)) : g.below(300000))); });
    g.shuffle(ids);
    double q = g.chance(0.3) ? 1 : 0.3;
    w.act(loc_of(a.get()), [&] { for (auto id : ids) if (ts[id].fired + ts[id].cancelled == 0 && g.chance(q)) cancel(id); });
    if (!quiet(w, "P05")) return;
    for (auto &[id, x] : ts) if (x.deadline < virtual_now && x.fired + x.cancelled != 1) violate("P05", "a timer neither fired nor was cancelled");
    if (g.chance(0.5)) { w.run(steps, virtual_now + ever / 50); for (auto &[id, x] : ts) if (x.fired + x.cancelled != 1) violate("P05", "a timer has got lost"); else if (id == lone && !x.fired) violate("P05", "the long timer has not fired"); }
    going_down = true;
    ba_t *raw = a.get(); (void)raw;
    w.act(loc_of(a.get()), [&] { a->do_shutdown(); });
    quiet(w, "P05");
    for (auto &[id, x] : ts) if (x.fired + x.cancelled != 1) violate("P05", "a timer has survived its actor");
    a->on_timer_fn = [](r::request_id_t, bool) { violate("P05", "a timer is triggered after the shutdown"); };
    w.run(steps, virtual_now + ever / 50);
    a.reset(); sup.reset();
    end(w, root, "P05"); root.reset(); w.finish();
}
// ---- requests -----------------------------------------------------------------------------------
static void req(world_t &w) {
    tidy_t t{w}; auto &g = w.rng;
    auto root = root_of(w);
    auto sa = g.chance(0.5) ? root : nested(w, root, g.chance(0.6)), sb = g.chance(0.5) ? root : nested(w, root, g.chance(0.6));
    std::vector<r::intrusive_ptr_t<req_m>> held; struct rq_t { vtime_t deadline = 0; int n = 0; bool answered = false; }; std::vector<rq_t> rq;
    auto sp1 = std::make_shared<spec_t>(), sp2 = std::make_shared<spec_t>(); bool o1 = false, o2 = false;
    sp1->configure = [&, o1](r::actor_base_t &, r::plugin::plugin_base_t &p) mutable { starter(p, [&](auto &p) { if (o1) return; o1 = true; p.subscribe_actor(r::lambda<req_m>([&](req_m &m) noexcept { held.emplace_back(&m); })); }); };
    sp2->configure = [&, o2](r::actor_base_t &, r::plugin::plugin_base_t &p) mutable { starter(p, [&](auto &p) { if (o2) return; o2 = true; p.subscribe_actor(r::lambda<res_m>([&](res_m &m) noexcept {
        int n = m.payload.req->payload.request_payload.n;
        if (n < 0 || n >= int(rq.size())) { violate("P04", "answer to an unknown request"); return; }
        auto &x = rq[n];
        if (x.n++) violate("P04", "request %d is settled twice", n);
        if (m.payload.ee) { if (m.payload.ee->ec != r::make_error_code(r::error_code_t::request_timeout)) violate("P04", "request %d failed: %s", n, m.payload.ee->message().c_str()); else if (virtual_now < x.deadline) violate("P04", "request %d timed out too early", n); count("timeouts"); }
        else { if (m.payload.res.n != -n) violate("P04", "request %d got the answer %d", n, m.payload.res.n); if (!x.answered) violate("P04", "request %d is answered by nobody", n); count("answers"); }
    })); }); };
    auto srv = actor(w, sa, sp1), cl = actor(w, sb, sp2);
    if (!quiet(w, "P04")) return;
    int N = size(g, 100, 2500), done = 0; vtime_t to = g.chance(0.5) ? 50000 : 400000; std::set<r::request_id_t> ids;
    rq.resize(N);
    while (done < N) {
        w.act(loc_of(cl.get()), [&] { for (int b = size(g, 1, N); b > 0 && done < N; --b, ++done) {
            auto tt = to + g.below(1000); rq[done].deadline = virtual_now + tt;
            auto id = cl->request<req_t>(srv->get_address(), done).send(us(tt)); (void)id;
        } });
        w.run(g.range(0, 3000), virtual_now + 5000);
        g.shuffle(held);
        w.act(loc_of(srv.get()), [&] { for (int b = g.range(0, int(held.size())); b > 0; --b) { auto m = held.back(); held.pop_back(); int n = m->payload.request_payload.n; rq[n].answered = true; srv->reply_to(*m, -n); } });
    }
    quiet(w, "P04", 10000);
    g.shuffle(held);
    w.act(loc_of(srv.get()), [&] { for (auto &m : held) if (g.chance(0.7)) { int n = m->payload.request_payload.n; rq[n].answered = true; srv->reply_to(*m, -n); } });
    held.clear();
    quiet(w, "P04", 3000000);
    for (int i = 0; i < N; ++i) if (rq[i].n != 1) violate("P04", "request %d is settled %d times", i, rq[i].n);
    held.clear();
    count("requests", N);
    srv.reset(); cl.reset(); sa.reset(); sb.reset();
    end(w, root, "P04"); root.reset(); w.finish();
}
// ---- resources ----------------------------------------------------------------------------------
static void res(world_t &w) {
    tidy_t t{w}; auto &g = w.rng;
    auto root = root_of(w);
    std::map<uint32_t, uint64_t> held; bool once = false;
    auto any_id = [&]() -> uint32_t { return g.chance(0.5) ? g.below(8) : g.below(g.chance(0.9) ? 100 : 700); };
    bool huge = g.chance(0.04);
    auto grab = [&](r::plugin::resources_plugin_t &p) {
        for (int k = g.range(1, 6); k > 0; --k) { auto id = any_id(); bool h = huge; huge = false; int n = h ? g.range(65530, 70000) : g.chance(0.1) ? g.range(250, 600) : g.range(1, 3); held[id] += n; count("acquired", n); if (n > 65535) count("counts beyond 65535"); while (n-- > 0) p.acquire(id); }
    };
    auto sp = std::make_shared<spec_t>();
    sp->configure = [&, once](r::actor_base_t &, r::plugin::plugin_base_t &p) mutable { p.with_casted<r::plugin::resources_plugin_t>([&](auto &p) { if (once) return; once = true; grab(p); }, r::plugin::config_phase_t::INITIALIZING); };
    auto a = actor(w, root, sp);
    quiet(w, "P13");
    auto rec = w.rec(a.get());
    auto check = [&] { for (auto &[id, n] : held) if (a->res()->has(id) != n) violate("P13", "resource %d is held %d times, not %d", int(id), int(a->res()->has(id)), int(n)); auto id = any_id(); if (!held.count(id) && a->res()->has(id)) violate("P13", "resource %d is held by nobody", int(id)); count("queries compared"); };
    auto drain = [&](bool init) { // releases everything but the last, step by step
        uint64_t total = 0; for (auto &x : held) total += x.second;
        std::vector<uint32_t> ids; for (auto &x : held) if (x.second) ids.push_back(x.first);
        while (total > 0) {
            w.act(*root->loc, [&] { check();
                auto i = g.below(ids.size()); auto id = ids[i]; uint64_t n = g.chance(0.5) ? held[id] : 1 + g.below(held[id]);
                if (n == total && n > 1) --n; // the very last one is to be released alone
                while (n-- > 0) { --held[id]; --total; a->res()->release(id); }
                if (!held[id]) { ids[i] = ids.back(); ids.pop_back(); } 
                if (!(init && !total)) if (!total ? false : init ? rec->n_init_finish : rec->n_shut_finish) violate("P13", "%s finished while a resource is held", init ? "initialization" : "shutdown");
                if (total) check();
            });
            if (total && g.chance(0.3)) { quiet(w, "P13", 1000); if (init ? rec->n_init_finish : rec->n_shut_finish) violate("P13", "%s finished while a resource is held", init ? "initialization" : "shutdown"); }
        }
        quiet(w, "P13", 1000);
        if (init ? !rec->n_start : !rec->n_shut_finish) violate("P13", "%s is not finished though nothing is held", init ? "initialization" : "shutdown");
    };
    if (rec->n_init_finish) violate("P13", "initialization finished while resources are held");
    drain(true);
    count("gated initializations");
    if (g.chance(0.5)) w.act(*root->loc, [&] { grab(*a->res()); });
    w.act(*root->loc, [&] { a->do_shutdown(); });
    if (g.chance(0.5)) { bool any = false; for (auto &x : held) any |= x.second > 0; if (any) { quiet(w, "P13", 1000); if (rec->n_shut_finish) violate("P13", "shutdown finished while resources are held"); w.act(*root->loc, [&] { grab(*a->res()); }); } }
    quiet(w, "P13", 1000);
    drain(false);
    count("gated shutdowns");
    a.reset();
    end(w, root, "P13"); root.reset(); w.finish();
}
// ---- names --------------------------------------------------------------------------------------
static void reg(world_t &w) {
    tidy_t t{w}; auto &g = w.rng;
    auto root = root_of(w, true);
    auto s1 = g.chance(0.5) ? root : nested(w, root, g.chance(0.7)), s2 = g.chance(0.5) ? root : nested(w, root, g.chance(0.7));
    if (!quiet(w, "P12")) return;
    int N = size(g, 10, 400); std::vector<std::string> names;
    for (int i = 0; i < N; ++i) { auto s = std::to_string(i); auto pad = std::string(g.chance(0.1) ? g.range(0, 5000) : g.range(0, 20), 'x'); names.push_back(g.chance(0.5) ? s + pad : pad + s); }
    if (g.chance(0.5)) names[0] = "";
    { std::set<std::string> u(names.begin(), names.end()); names.assign(u.begin(), u.end()); g.shuffle(names); N = int(names.size()); }
    std::vector<r::address_ptr_t> where(N), seen(N), seen2(N);
    auto provider = [&](std::vector<r::address_ptr_t> &out) {
        auto sp = std::make_shared<spec_t>();
        sp->configure = [&, once = false](r::actor_base_t &a, r::plugin::plugin_base_t &p) mutable { p.with_casted<r::plugin::registry_plugin_t>([&](auto &p) {
            if (once) return; once = true; auto &x = static_cast<ba_t &>(a);
            r::address_ptr_t ad = x.get_address();
            for (int i = 0; i < N; ++i) { out[i] = ad; p.register_name(names[i], ad); }
        }); };
        return sp;
    };
    auto seeker = [&](std::vector<r::address_ptr_t> &out, bool delayed) {
        auto sp = std::make_shared<spec_t>();
        sp->configure = [&, delayed, once = false](r::actor_base_t &, r::plugin::plugin_base_t &p) mutable { p.with_casted<r::plugin::registry_plugin_t>([&](auto &p) { if (once) return; once = true; for (int i = 0; i < N; ++i) p.discover_name(names[i], out[i], delayed); }); };
        return sp;
    };
    ba_ptr_t q;
    bool early = g.chance(0.5);
    if (early) { q = actor(w, s2, seeker(seen, true)); if (g.chance(0.5)) quiet(w, "P12"); if (w.rec(q.get())->n_init_finish) violate("P12", "an actor is initialized without what it looks for"); }
    auto a = actor(w, s1, provider(where));
    quiet(w, "P12");
    if (!early) { q = actor(w, s2, seeker(seen, g.chance(0.5))); quiet(w, "P12"); }
    if (!w.rec(a.get())->n_start) violate("P12", "%d names are not registered", N);
    if (!w.rec(q.get())->n_start) violate("P12", "%d names are not discovered", N);
    for (int i = 0; i < N; ++i) if (seen[i] != where[i]) { violate("P12", "name %d is discovered at another address", i); break; }
    w.act(loc_of(a.get()), [&] { a->do_shutdown(); });
    quiet(w, "P12");
    if (!w.rec(a.get())->n_shut_finish) violate("P08", "an actor with %d names is not shut down", N);
    where.assign(N, {});
    a = actor(w, s1, provider(where));
    quiet(w, "P12");
    if (!w.rec(a.get())->n_start) violate("P12", "%d names are not registered again", N);
    auto q2 = actor(w, s2, seeker(seen2, false));
    quiet(w, "P12");
    for (int i = 0; i < N; ++i) if (seen2[i] != where[i]) { violate("P12", "name %d is discovered at a former address", i); break; }
    count("names", N);
    a.reset(); q.reset(); q2.reset(); s1.reset(); s2.reset();
    end(w, root, "P12"); where.clear(); seen.clear(); seen2.clear(); root.reset(); w.finish();
}
// ---- trees --------------------------------------------------------------------------------------
static void tree(world_t &w) {
    tidy_t t{w}; auto &g = w.rng;
    auto root = root_of(w);
    std::vector<sup_ptr_t> sups{root}; std::map<rec_t *, std::vector<rec_t *>> kids; std::map<rec_t *, bool> sync;
    int budget = size(g, 20, 500), n_gates = 0; double p_sup = g.chance(0.4) ? 0.9 : g.chance(0.5) ? 0.3 : 0.02, p_loc = g.chance(0.5) ? 0 : 0.2; bool chain = g.chance(0.4);
    if (p_sup > 0.5) budget = std::min(budget, 120);
    std::vector<std::pair<rec_t *, r::plugin::resources_plugin_t *>> gates;
    auto sup_spec = [&] { auto sp = std::make_shared<spec_t>();
        sp->on_init_finish = [&](r::actor_base_t &a) { for (auto c : kids[w.rec(&a)]) if (!c->n_init_finish && !c->n_shut_start) violate("P07", "%s is initialized before its child %s", w.rec(&a)->name.c_str(), c->name.c_str()); };
        sp->pre_shutdown_finish = [&](r::actor_base_t &a) { for (auto c : kids[w.rec(&a)]) if (!c->n_shut_finish) violate("P08", "%s is shut down before its child %s", w.rec(&a)->name.c_str(), c->name.c_str()); };
        return sp; };
    while (budget-- > 0) {
        auto p = chain ? sups.back() : g.pick(sups); auto pr = w.rec(p.get());
        if (g.chance(p_sup)) { bool sy = g.chance(0.3); auto s = nested(w, p, g.chance(p_loc), sy, sup_spec()); kids[pr].push_back(w.rec(s.get())); sync[w.rec(s.get())] = sy; sups.push_back(s); }
        else {
            auto sp = std::make_shared<spec_t>(); bool gate = n_gates < 5 && g.chance(0.05); n_gates += gate;
            sp->configure = [&, gate, once = false](r::actor_base_t &a, r::plugin::plugin_base_t &p) mutable { if (gate) p.with_casted<r::plugin::resources_plugin_t>([&](auto &p) { if (once) return; once = true; p.acquire(0); gates.emplace_back(w.rec(&a), &p); }, r::plugin::config_phase_t::INITIALIZING); };
            sp->on_start = [&, pr](r::actor_base_t &a) { if (sync[pr]) { if (!pr->n_init_finish) violate("P07", "%s is started before its supervisor is initialized", w.rec(&a)->name.c_str()); for (auto c : kids[pr]) if (!c->n_init_finish && !c->n_shut_start) violate("P07", "%s is started before %s is initialized", w.rec(&a)->name.c_str(), c->name.c_str()); } };
            auto a = actor(w, p, sp); kids[pr].push_back(w.rec(a.get()));
        }
    }
    quiet(w, "P07");
    bool down_early = g.chance(0.15);
    for (auto &x : gates) { if (down_early) break; w.act(*w.locs[x.first->loc], [&] { x.second->release(0); }); if (g.chance(0.5)) quiet(w, "P07"); }
    quiet(w, "P07");
    if (down_early) { for (auto &x : gates) w.after(g.range(0, 3000), x.first->loc, [x] { if (x.first->actor) x.second->release(0); }); }
    else {
        for (auto &x : w.recs) if (!x->n_start) { violate("P07", "%s is not operational", x->name.c_str()); break; }
        count("trees started");
    }
    if (g.chance(0.5)) { std::vector<sup_ptr_t> v(sups.begin() + 1, sups.end()); for (int i = g.range(0, 3); i > 0 && v.size(); --i) { auto s = g.pick(v); w.act(*s->loc, [&] { s->do_shutdown(); }); if (g.chance(0.3)) quiet(w, "P08"); } }
    count("actors of trees", w.recs.size());
    sups.clear();
    end(w, root, "P08");
    for (auto &x : w.recs) if (!x->n_shut_finish) { violate("P08", "%s is not shut down", x->name.c_str()); break; }
    root.reset(); w.finish();
}
// ---- restarts -----------------------------------------------------------------------------------
static void spawn(world_t &w) {
    tidy_t t{w}; auto &g = w.rng;
    auto root = root_of(w);
    if (!quiet(w, "P10")) return;
    int max = g.chance(0.2) ? 0 : size(g, 5, 600), made = 0, alive = 0, stop = g.range(300, 700); vtime_t period = g.range(1, 3000), last = 0; bool over = false;
    auto factory = [&](r::supervisor_t &s, const r::address_ptr_t &addr) -> r::actor_ptr_t {
        if (alive) violate("P10", "an instance is made while the previous one is alive");
        if (over) violate("P10", "an instance is made while the supervisor is shutting down");
        if (made && virtual_now < last + period) violate("P10", "an instance is made %d us after the previous one", int(virtual_now - last));
        last = virtual_now; ++made; count("instances made");
        if (g.chance(0.1)) { count("factories threw"); throw std::runtime_error("no"); }
        ++alive;
        auto sp = std::make_shared<spec_t>();
        vtime_t life = g.chance(0.5) ? 0 : g.range(1, 5000);
        sp->on_start = [&, life](r::actor_base_t &a) { if (!life) a.do_shutdown(); else { auto rec = w.rec(&a); w.after(life, rec->loc, [rec] { if (rec->actor && !rec->n_shut_start) rec->actor->do_shutdown(); }); } };
        sp->on_shutdown_finish = [&](r::actor_base_t &) { --alive; };
        return static_cast<sup_t &>(s).create_actor<ba_t>().init_timeout(us(ever)).shutdown_timeout(us(ever)).spec(sp).spawner_address(addr).finish();
    };
    w.act(*root->loc, [&] { root->spawn(factory).restart_period(us(period)).restart_policy(r::restart_policy_t::always).max_attempts(max).spawn(); });
    for (int i = 0; i < 200 && (max ? true : made < stop); ++i) w.run(100000, virtual_now + 200000);
    if (max && made != max) violate("P10", "%d instances are made instead of %d", made, max);
    if (!max && made < stop) violate("P10", "only %d instances are made", made);
    if (!W->rec(root.get())->n_start || W->rec(root.get())->n_shut_start) violate("P09", "the supervisor is not operational");
    over = true;
    end(w, root, "P10"); root.reset(); w.finish();
}
// ---- links --------------------------------------------------------------------------------------
static void link(world_t &w) {
    tidy_t t{w}; auto &g = w.rng;
    auto root = root_of(w);
    std::vector<sup_ptr_t> sups{root};
    for (int i = g.range(0, 3); i > 0; --i) sups.push_back(nested(w, root, g.chance(0.7)));
    if (!quiet(w, "P11")) return;
    int N = size(g, 10, 400); bool chain = g.chance(0.3); if (chain) N = std::min(N, 80);
    std::vector<ba_ptr_t> as; std::vector<rec_t *> recs; std::vector<std::vector<int>> to, from; int linked = 0, wanted = 0;
    for (int i = 0; i < N; ++i) {
        to.emplace_back(); from.emplace_back();
        std::set<int> s; if (i) { if (chain) s.insert(i - 1); else { s.insert(0); for (int k = g.range(0, 2); k > 0; --k) s.insert(g.range(0, std::min(i - 1, 3))); } }
        to[i].assign(s.begin(), s.end()); for (auto k : s) from[k].push_back(i);
        wanted += int(s.size());
        auto sp = std::make_shared<spec_t>(); bool op = g.chance(0.5);
        sp->configure = [&, i, op, once = false](r::actor_base_t &, r::plugin::plugin_base_t &p) mutable { p.with_casted<r::plugin::link_client_plugin_t>([&](auto &p) { if (once) return; once = true; for (auto k : to[i]) p.link(as[k]->get_address(), op, [&](const r::extended_error_ptr_t &ee) { if (ee) violate("P11", "a link failed: %s", ee->message().c_str()); ++linked; }); }); };
        sp->pre_shutdown_finish = [&, i](r::actor_base_t &) { for (auto k : from[i]) if (!recs[k]->n_shut_start) violate("P11", "server %d is down while its client %d is operational", i, k); };
        as.push_back(actor(w, g.pick(sups), sp)); recs.push_back(w.rec(as.back().get()));
    }
    quiet(w, "P11");
    if (linked != wanted) violate("P11", "%d of %d links are established", linked, wanted);
    for (auto r : recs) if (!r->n_start) { violate("P11", "%s is not operational", r->name.c_str()); break; }
    count("links established", linked);
    if (g.chance(0.8)) {
        int v = g.chance(0.7) ? 0 : g.range(0, N - 1);
        w.act(loc_of(as[v].get()), [&] { as[v]->do_shutdown(); });
        quiet(w, "P11");
        std::vector<bool> dead(N); dead[v] = true; for (int i = v + 1; i < N; ++i) for (auto k : to[i]) if (dead[k]) dead[i] = true;
        for (int i = 0; i < N; ++i) if (dead[i] != bool(recs[i]->n_shut_finish)) { violate("P11", "actor %d %s", i, dead[i] ? "is not shut down with its server" : "is shut down though its servers are operational"); break; }
        count("servers shut down");
    }
    std::vector<r::address_ptr_t> addrs; for (auto &a : as) addrs.push_back(a->get_address());
    as.clear(); sups.clear();
    end(w, root, "P11"); addrs.clear(); root.reset(); w.finish();
}
static workload_reg r1("bulk-msg", msg), r2("bulk-sub", sub), r3("bulk-timer", timer), r4("bulk-req", req), r5("bulk-res", res), r6("bulk-reg", reg), r7("bulk-tree", tree), r8("bulk-spawn", spawn), r9("bulk-link", link);
} }
