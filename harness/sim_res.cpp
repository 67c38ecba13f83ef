// Counted resources gating initialization and shutdown (P13; P06 P08 P15 on the way).
// Actors acquire and release several resources in every state and callback; a reference counter per resource
// says when a phase has to wait and when it has to go on.
#include "sim.hpp"
#include <algorithm>

namespace sim { namespace res {
enum { IDS = 5 };
struct nd_t {
    rec_t *rec = nullptr; nd_t *parent = nullptr, *server = nullptr;
    std::vector<nd_t *> kids, clients;
    bool sup = false, linked = false, busy = false, early = false;
    bool gate = false, open_i = false, open_s = false, passed_i = false, passed_s = false, told_i = false, told_s = false; // an own plugin, which finishes the phases later
    double p_poll = 0;
    int held[IDS] = {};
    int plan_conf = 0;
    double p_hook = 0;
    vtime_t v_release = 0;
    int total() const { int n = 0; for (auto h : held) n += h; return n; }
    bool gone() const { return !rec || !rec->actor; }
    r::state_t state() const { auto a = rec->actor; return rec->is_sup ? static_cast<sup_t *>(a)->get_state() : static_cast<act_t *>(a)->get_state(); }
    r::plugin::resources_plugin_t &plugin() const { auto a = rec->actor; return rec->is_sup ? *static_cast<sup_t *>(a)->res() : *static_cast<act_t *>(a)->res(); }
    bool asked() const { auto a = rec->actor; return rec->is_sup ? static_cast<sup_t *>(a)->asked_to_init() : static_cast<act_t *>(a)->asked_to_init(); }
};
struct model_t { world_t &w; std::vector<std::unique_ptr<nd_t>> nodes; bool draining = false, down = false; int budget = 0; explicit model_t(world_t &w_) : w(w_) {} };
static model_t *M;

static void compare(nd_t *n) {
    auto &p = n->plugin();
    for (int i = 0; i < IDS + 2; ++i) {
        int ref = i < IDS ? n->held[i] : 0;
        if (int(p.has(i)) != ref) violate("P13", "%s: %d units of resource %d are reported to be held instead of %d", n->rec->name.c_str(), int(p.has(i)), i, ref);
    }
    if (p.has_any() != (n->total() > 0)) violate("P13", "%s: wrong answer whether anything is held", n->rec->name.c_str());
    count("queries compared");
}
static void acquire(nd_t *n, int id) { n->held[id]++; n->plugin().acquire(id); tracef("%s acquires %d", n->rec->name.c_str(), id); count("acquired"); }
static void release(nd_t *n, int id) {
    n->held[id]--;
    tracef("%s releases %d", n->rec->name.c_str(), id); count("released");
    auto s = n->state();
    if (n->busy && s == r::state_t::SHUTTING_DOWN && !n->total()) { count("last resource released by the start of shutdown"); }
    bool left = n->total() > 0, init_was = n->rec->n_init_finish;
    if (!left) n->v_release = virtual_now;
    r::actor_ptr_t guard(n->rec->actor);
    bool asked = n->asked();
    bool more = n->plugin().release(id);
    if (more != left) violate("P13", "%s: release tells that %s is held", n->rec->name.c_str(), more ? "something" : "nothing");
    bool gated = n->sup || n->server || (n->gate && !n->open_i);
    if (!left && s == r::state_t::INITIALIZING && asked && !init_was && !n->busy && !gated && !n->rec->n_init_finish && !n->total() && !(n->gate && !n->open_i))
        violate("P13", "%s: initialization does not go on upon release of the last resource", n->rec->name.c_str());
    if (s == r::state_t::INITIALIZING && left && n->rec->n_init_finish) violate("P13", "%s: initialized though resources are held", n->rec->name.c_str());
}
static void play(nd_t *n, int steps) { // random acquisitions and releases allowed at the moment
    auto &g = M->w.rng;
    while (steps-- > 0) {
        if (n->gone()) return;
        auto s = n->state();
        if (s == r::state_t::SHUT_DOWN) return;
        bool can = !M->draining;
        if (s == r::state_t::INITIALIZING && !n->busy && !n->total() && n->asked()) can = false; // the last gate is (or might be) open
        if (s == r::state_t::SHUTTING_DOWN && !n->total() && !n->busy) can = false;
        if (can && g.chance(0.5)) acquire(n, g.range(0, IDS - 1));
        else if (n->total()) {
            int id; do id = g.range(0, IDS - 1); while (!n->held[id]);
            release(n, id);
        }
    }
}
static void later(nd_t *n) { M->w.after(M->w.rng.range(0, 20000), n->rec->loc, [n] { if (n->gone() || n->rec->n_shut_finish) return; play(n, M->w.rng.range(1, 4)); if (!n->gone() && !n->rec->n_shut_finish) compare(n); }); }
static void open(nd_t *n, bool init) { // the plugin finishes its work, and says so
    if (n->gone() || n->rec->n_shut_finish) return;
    (init ? n->open_i : n->open_s) = true; n->v_release = virtual_now;
    auto s = n->state();
    tracef("%s: plugin finishes %s", n->rec->name.c_str(), init ? "initialization" : "shutdown");
    if (init && s == r::state_t::INITIALIZING) {
        bool ready = n->asked() && !n->total() && !n->sup && !n->server;
        r::actor_ptr_t guard(n->rec->actor);
        n->rec->actor->init_continue();
        if (ready && !n->rec->n_init_finish && !n->total()) violate("P13", "%s: initialization does not go on when the last plugin has finished", n->rec->name.c_str());
    }
    if (!init && s == r::state_t::SHUTTING_DOWN) { r::actor_ptr_t guard(n->rec->actor); n->rec->actor->shutdown_continue(); }
}
static bool poll(nd_t *n, bool init) {
    auto &done = init ? n->passed_i : n->passed_s; auto &told = init ? n->told_i : n->told_s; auto &op = init ? n->open_i : n->open_s;
    if (done) violate("P13", "%s: a plugin is asked again after it has finished", n->rec->name.c_str());
    auto &g = M->w.rng;
    if (!told) { told = true; if (g.chance(0.4)) op = true; else M->w.after(g.range(0, 20000), n->rec->loc, [n, init] { open(n, init); }); }
    bool was = n->busy; n->busy = true; if (g.chance(n->p_poll)) { play(n, g.range(1, 4)); count("resources changed by a polled plugin"); } n->busy = was;
    if (n->total()) later(n);
    count(op ? "plugins passed" : "plugins postponed");
    return done = op;
}
static nd_t *make(nd_t *parent, bool sup) {
    auto &m = *M; auto &g = m.w.rng;
    m.nodes.emplace_back(new nd_t); auto n = m.nodes.back().get();
    n->parent = parent; n->sup = sup; if (parent) parent->kids.push_back(n);
    n->plan_conf = g.chance(0.6) ? g.range(1, 6) : 0;
    n->p_hook = g.chance(0.5) ? 0.6 : 0.1;
    auto sp = std::make_shared<spec_t>();
    if (g.chance(0.4)) {
        n->gate = true; n->p_poll = g.chance(0.6) ? 0.5 : 0;
        sp->plug = std::make_shared<plug_t>(); sp->plug->in_middle = g.chance(0.4);
        sp->plug->init = [n] { return poll(n, true); }; sp->plug->shutdown = [n] { return poll(n, false); };
    }
    bool everywhere = g.chance(0.3);
    if (parent && g.chance(0.3)) { // links gate the same phases
        auto s = g.pick(m.nodes).get();
        bool anc = false; for (auto x = n; x; x = x->parent) anc |= x == s;
        if (!anc && s->rec && !s->gone() && !s->rec->n_shut_start && s->parent == parent) { n->server = s; s->clients.push_back(n); }
    }
    bool oper = g.chance(0.5);
    sp->configure = [n, oper, everywhere, &g](r::actor_base_t &a, r::plugin::plugin_base_t &p) {
        if (!n->rec) { n->rec = W->rec(&a); n->rec->user = n; }
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &) { n->busy = true; play(n, g.range(0, n->plan_conf)); compare(n); n->busy = false; if (n->total()) later(n); });
        if (everywhere) {
            auto some = [&](auto &) { if (n->gone() || n->state() != r::state_t::INITIALIZING) return; bool was = n->busy; n->busy = true; play(n, g.range(0, 3)); n->busy = was; if (n->total()) later(n); count("resources changed by configuration of other plugins"); };
            p.with_casted<r::plugin::starter_plugin_t>(some); p.with_casted<r::plugin::registry_plugin_t>(some); p.with_casted<r::plugin::link_client_plugin_t>(some);
        }
        p.with_casted<r::plugin::address_maker_plugin_t>([&](auto &p) { p.set_identity(n->rec->name, false); });
        if (n->server && !n->linked) p.with_casted<r::plugin::link_client_plugin_t>([&](auto &p) { if (n->server->gone()) { n->server = nullptr; return; } n->linked = true; tracef("%s links to %s%s", n->rec->name.c_str(), n->server->rec->name.c_str(), oper ? " (operational)" : ""); p.link(n->server->rec->actor->get_address(), oper, [n](auto &ee) { tracef("%s linked: %s", n->rec->name.c_str(), ee ? ee->message().c_str() : "ok"); }); });
    };
    auto hook = [n, &g](r::actor_base_t &) { n->busy = true; if (g.chance(n->p_hook)) play(n, g.range(1, 5)); compare(n); n->busy = false; if (n->total()) later(n); };
    sp->on_init_finish = [n, hook](r::actor_base_t &a) {
        if (n->gate && !n->passed_i) violate("P13", "%s: initialized though a plugin has not finished", n->rec->name.c_str());
        if (n->total()) violate("P13", "%s: initialized though %d resources are held", n->rec->name.c_str(), n->total());
        if (!M->w.slow() && n->v_release && !n->sup && !n->server && n->rec->v_init_finish > n->v_release && n->v_release > n->rec->v_init_start) violate("P13", "%s: initialized later than the last resource is released", n->rec->name.c_str());
        hook(a); count("gated initializations", n->v_release != 0);
    };
    sp->on_start = hook;
    sp->on_shutdown_start = [n, hook](r::actor_base_t &a) { n->v_release = 0; hook(a); };
    sp->pre_shutdown_finish = [n](r::actor_base_t &) {
        if (n->gate && !n->passed_s) violate("P13", "%s: shut down though a plugin has not finished", n->rec->name.c_str());
        if (n->total()) violate("P13", "%s: shut down though %d resources are held", n->rec->name.c_str(), n->total());
        if (!M->w.slow() && n->v_release && !n->sup && !n->server && n->clients.empty() && virtual_now > n->v_release) violate("P13", "%s: shut down later than the last resource is released", n->rec->name.c_str());
        count("gated shutdowns", n->v_release != 0);
    };
    auto big = r::pt::time_duration(r::pt::hours(1));
    if (parent) {
        auto &s = *static_cast<sup_t *>(parent->rec->actor);
        if (!sup) s.create_actor<act_t>().timeout(big).spec(sp).finish();
        else {
            auto b = s.create_actor<sup_t>().timeout(big).spec(sp).synchronize_start(g.chance(0.3));
            m.w.keep.push_back(g.chance(0.3) ? std::move(b).loc(m.w.new_loc()).finish() : std::move(b).finish());
        }
    } else {
        m.w.keep.push_back(create_root(m.w, [&](auto &&b) { return std::move(b).timeout(big).spec(sp).synchronize_start(g.chance(0.3)); }));
    }
    return n;
}
static void drain() { // everything is released at last, in random order and at random moments
    M->draining = true;
    for (int i = 0; i < 12; ++i) {
        bool any = false;
        for (auto &np : M->nodes) {
            auto n = np.get();
            if (n->gone() || !n->total()) continue;
            any = true;
            M->w.after(M->w.rng.range(0, 3000), n->rec->loc, [n] { if (!n->gone() && n->total()) { play(n, M->w.rng.range(1, 30)); } });
        }
        if (!any) break;
        if (!M->w.run(30000, virtual_now + 60000000)) violate("P13", "the system does not become quiet");
    }
    for (auto &n : M->nodes) if (!n->gone() && !n->rec->n_shut_finish && n->total()) { violate("P13", "%s: cannot release everything", n->rec->name.c_str()); }
    M->draining = false;
}
static void settled() {
    for (auto &np : M->nodes) {
        auto n = np.get(); auto &rc = *n->rec;
        if (n->gone() || rc.n_shut_finish || n->total()) continue;
        bool waits = false; // for a member which holds something, directly or not
        std::function<bool(nd_t *, int)> blocked = [&](nd_t *x, int d) -> bool {
            if (d > 12) return true;
            if (!x->gone() && !x->rec->n_shut_finish && x->total()) return true;
            if (x->server && blocked(x->server, d + 1)) return true;
            for (auto c : x->clients) if (blocked(c, d + 1)) return true;
            for (auto c : x->kids) if (blocked(c, d + 1)) return true;
            return x->parent && blocked(x->parent, d + 1);
        };
        waits = blocked(n, 0);
        if (waits) continue;
        if (rc.n_shut_start) violate("P13", "%s: nothing is held, yet the shutdown does not complete", rc.name.c_str());
        else if (!rc.n_start) violate("P13", "%s: nothing is held, yet it is not operational", rc.name.c_str());
    }
}
static void fn(world_t &w) {
    model_t m(w); M = &m;
    auto &g = w.rng;
    auto root = make(nullptr, true);
    int n = g.range(1, 7);
    for (int i = 0; i < n; ++i) {
        std::vector<nd_t *> sups; for (auto &x : m.nodes) if (x->sup) sups.push_back(x.get());
        auto s = g.pick(sups);
        bool sup = g.chance(0.25);
        if (g.chance(0.6)) w.in_loc(*w.locs[s->rec->loc], [&] { make(s, sup); }); else w.act(*w.locs[s->rec->loc], [&] { make(s, sup); });
        if (g.chance(0.3)) w.run_for(g.range(0, 3000));
    }
    auto some = [&]() -> nd_t * { for (int i = 0; i < 10; ++i) { auto n = g.pick(m.nodes).get(); if (!n->gone() && !n->rec->n_shut_finish) return n; } return nullptr; };
    auto op = [&] { if (auto n = some()) w.act(*w.locs[n->rec->loc], [&] { play(n, g.range(1, 4)); }); };
    int nops = g.range(0, 14);
    for (int i = 0; i < nops; ++i) { if (g.chance(0.4)) w.ops.push_back(op); else w.after(g.range(0, 60000), -1, op); }
    if (g.chance(0.3)) w.after(g.range(0, 40000), -1, [&] { auto n = some(); if (n && n != root) w.act(*w.locs[n->rec->loc], [&] { tracef("%s do_shutdown", n->rec->name.c_str()); n->rec->actor->do_shutdown(); }); });
    bool direct = g.chance(0.2); // shut down in the middle
    if (!direct) {
        w.run(30000, virtual_now + 600ull * 1000000);
        settled();
        drain();
        w.run(30000, virtual_now + 600ull * 1000000);
        settled();
    } else w.run_for(g.range(0, 30000));
    // some work to gate the shutdown
    int k = g.range(0, 5);
    for (int i = 0; i < k; ++i) if (auto n = some()) w.act(*w.locs[n->rec->loc], [&] { play(n, g.range(1, 4)); });
    if (!root->gone() && !root->rec->n_shut_start) w.act(*w.locs[root->rec->loc], [&] { root->rec->actor->do_shutdown(); });
    if (!w.run(30000, virtual_now + 1000000)) violate("P13", "the system does not become quiet");
    settled();
    drain();
    if (!w.run(30000, virtual_now + 60000000)) violate("P13", "the system does not become quiet");
    settled();
    for (auto &x : m.nodes) if (!x->rec->n_shut_finish) { violate("P13", "%s: not shut down though nothing is held", x->rec->name.c_str()); x->rec->stuck = true; }
    w.ops.clear(); w.agenda.clear();
    w.finish();
    M = nullptr;
}
static workload_reg r1("res", [](world_t &w) { fn(w); });
} }
