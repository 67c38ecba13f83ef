// Links (P11; P06 P08 P13 P15 on the way).
// Acyclic graphs of links between plain actors, supervisors and "raw" clients speaking the protocol on their own
// (several requests, late answers, notifications instead of answers, silence), in several loops.
#include "sim.hpp"
#include <algorithm>

namespace sim { namespace lnk {
struct nd_t;
struct edge_t {
    nd_t *c, *s; bool oper = false;
    uint64_t t_sent = 0, t_ok = 0, t_err = 0, t_released = 0, t_asked = 0, t_told = 0; // t_released: the client has let the server go
    int answers = 0;
    r::extended_error_ptr_t ee;
};
struct nd_t {
    int no = 0;
    rec_t *rec = nullptr; nd_t *parent = nullptr;
    bool sup = false, raw = false, sync = false, tolerant = false, stay = false, defer = false, hold = false, linked = false;
    int raw_mode = 0; // 0 answer, 1 answer late, 2 notify, 3 both, 4 silence
    vtime_t init_to = 0, shut_to = 0;
    std::vector<edge_t *> out, in;
    std::vector<nd_t *> kids;
    std::vector<r::intrusive_ptr_t<r::message::unlink_request_t>> deferred;
    r::plugin::link_client_plugin_t *lc = nullptr;
    int reports = 0, held = 0;
    r::extended_error_ptr_t init_ee; int init_seen = 0;
    r::address_ptr_t addr;
    // raw protocol: what has been sent, in order: 'L' link, 'O' operational link, 'N' notification
    std::map<nd_t *, std::string> said; std::map<nd_t *, std::map<r::request_id_t, size_t>> pos;
    bool gone() const { return !rec || !rec->actor; }
    r::plugin::resources_plugin_t &plugin() const { auto a = rec->actor; return rec->is_sup ? *static_cast<sup_t *>(a)->res() : *static_cast<act_t *>(a)->res(); }
};
struct raw_t : act_t {
    using plugins_list_t = std::tuple<r::plugin::address_maker_plugin_t, r::plugin::lifetime_plugin_t, r::plugin::init_shutdown_plugin_t,
                                      r::plugin::link_server_plugin_t, r::plugin::resources_plugin_t, r::plugin::starter_plugin_t>;
    using act_t::act_t;
    nd_t *n = nullptr;
    void on_link(r::message::link_response_t &m) noexcept;
    void on_unlink(r::message::unlink_request_t &m) noexcept;
    using act_t::on_unlink;
};
struct model_t { world_t &w; std::vector<std::unique_ptr<nd_t>> nodes; std::vector<std::unique_ptr<edge_t>> edges; bool strict = true; bool multi = true; explicit model_t(world_t &w_) : w(w_) {} };
static model_t *M;
static uint64_t now() { return ++W->stamp; }
static std::string nm(nd_t *n) { return n->rec ? n->rec->name : "?"; }
static std::string text(const r::extended_error_ptr_t &e) { return e ? e->message() : "-"; }
static edge_t *edge(nd_t *c, nd_t *s) { for (auto e : c->out) if (e->s == s) return e; return nullptr; }
static bool parents_down(nd_t *n) { for (n = n->parent; n; n = n->parent) if (n->rec->n_shut_finish) return true; return false; }
static nd_t *by_addr(const r::address_ptr_t &a) { for (auto &n : M->nodes) if (n->addr == a) return n.get(); return nullptr; }
// the client side of the link is over: it let the server go, or is going down with no clients of its own
static bool released(edge_t *e, int depth = 0) {
    if (e->t_released) return true;
    if (!e->t_ok) return true;
    if (depth > 20) return true;
    if (!e->c->rec->n_shut_start || e->c->raw) return e->c->rec->n_shut_finish > 0;
    for (auto x : e->c->in) if (!released(x, depth + 1)) return false;
    return true;
}

static void say_link(raw_t *a, nd_t *s, bool oper) {
    auto n = a->n;
    auto id = a->request<r::payload::link_request_t>(s->addr, oper).send(us(n->init_to));
    n->pos[s][id] = n->said[s].size();
    n->said[s] += oper ? 'O' : 'L';
    if (auto e = edge(n, s); !e) { M->edges.emplace_back(new edge_t{n, s, oper}); auto x = M->edges.back().get(); n->out.push_back(x); s->in.push_back(x); x->t_sent = now(); }
    tracef("%s asks %s for a link%s", nm(n).c_str(), nm(s).c_str(), oper ? " (operational)" : "");
    count("raw link requests");
}
static void say_notify(raw_t *a, nd_t *s) {
    auto n = a->n;
    a->send<r::payload::unlink_notify_t>(s->addr, a->get_address());
    n->said[s] += 'N';
    if (auto e = edge(n, s); e && e->t_ok) e->t_released = now();
    tracef("%s notifies %s about unlink", nm(n).c_str(), nm(s).c_str());
    count("raw unlink notifications");
}
void raw_t::on_link(r::message::link_response_t &m) noexcept {
    auto s = by_addr(m.payload.req->address);
    auto id = m.payload.req->payload.id;
    auto &ee = m.payload.ee;
    tracef("%s: answer from %s: %s", nm(n).c_str(), s ? nm(s).c_str() : "?", ee ? ee->message().c_str() : "ok");
    if (!s || !n->pos[s].count(id)) { violate("P11", "%s: answer to an unknown link request", nm(n).c_str()); return; }
    size_t k = n->pos[s][id]; n->pos[s].erase(id);
    bool linked = false;
    for (size_t i = 0; i < k; ++i) linked = n->said[s][i] != 'N';
    bool timeout = ee && ee->ec == r::make_error_code(r::error_code_t::request_timeout);
    bool nolink = ee && ee->ec == r::make_error_code(r::error_code_t::actor_not_linkable);
    bool twice = ee && ee->ec == r::make_error_code(r::error_code_t::already_linked);
    bool down = s->rec->n_shut_start;
    if (timeout) { if (M->strict && !down && n->said[s][k] == 'L') violate("P11", "%s: link request to %s timed out", nm(n).c_str(), nm(s).c_str()); if (!linked && n->said[s].back() != 'N') say_notify(this, s); }
    else if (nolink) { if (!down) violate("P11", "%s: link to %s is refused though it is not shutting down", nm(n).c_str(), nm(s).c_str()); }
    else if (twice) { if (!linked && !down) violate("P11", "%s is told to be already linked to %s", nm(n).c_str(), nm(s).c_str()); count("double links refused"); }
    else if (ee) violate("P11", "%s: unexpected error %s", nm(n).c_str(), ee->message().c_str());
    else {
        if (linked && !down) violate("P11", "%s has been linked to %s twice", nm(n).c_str(), nm(s).c_str());
        if (n->said[s][k] == 'O' && !s->rec->n_start) violate("P11", "%s has been linked to %s, which is not operational yet", nm(n).c_str(), nm(s).c_str());
        auto e = edge(n, s);
        bool later = n->said[s].find('N', k) != std::string::npos; // already given up
        if (!later) { e->t_ok = now(); e->t_released = 0; }
        count("raw links");
    }
}
void raw_t::on_unlink(r::message::unlink_request_t &m) noexcept {
    auto s = by_addr(m.payload.request_payload.server_addr);
    tracef("%s is asked to unlink by %s", nm(n).c_str(), s ? nm(s).c_str() : "?");
    if (!s) { violate("P11", "%s: unlink request from nowhere", nm(n).c_str()); return; }
    auto e = edge(n, s);
    if (!s->rec->n_shut_start) violate("P11", "%s is asked to unlink by %s, which is not shutting down", nm(n).c_str(), nm(s).c_str());
    if (!e || e->t_asked) violate("P11", "%s is asked to unlink by %s again", nm(n).c_str(), nm(s).c_str());
    if (e) e->t_asked = now();
    count("raw unlink requests");
    auto answer = [this, e](r::message::unlink_request_t &m) { reply_to(m, get_address()); if (e) e->t_released = now(); tracef("%s answers to unlink", nm(n).c_str()); };
    switch (n->raw_mode) {
    case 0: answer(m); break;
    case 1: { r::intrusive_ptr_t<r::message::unlink_request_t> p(&m); M->w.after(M->w.rng.range(0, M->strict ? 5000 : 60000), n->rec->loc, [this, p, answer, n = n] { if (n->gone() || n->rec->n_shut_finish || parents_down(n)) return; answer(*p); }); break; }
    case 2: say_notify(this, s); break;
    case 3: if (M->w.rng.chance(0.5)) { say_notify(this, s); answer(m); } else { answer(m); say_notify(this, s); } break;
    }
}

static nd_t *make(nd_t *parent, int kind) { // 0 actor, 1 supervisor, 2 raw client
    auto &m = *M; auto &g = m.w.rng;
    m.nodes.emplace_back(new nd_t); auto n = m.nodes.back().get();
    n->no = int(m.nodes.size());
    n->parent = parent; n->sup = kind == 1; n->raw = kind == 2; if (parent) parent->kids.push_back(n);
    n->stay = g.chance(0.2); n->defer = kind != 2 && g.chance(0.15);
    n->raw_mode = g.range(0, 3);
    n->tolerant = g.chance(0.7);
    n->init_to = m.strict || g.chance(0.7) ? 50000000 : g.range(1000, 60000);
    n->shut_to = 50000000; // failing to shut down in time is a violation of the contract (docs/Design.md), what follows is undefined
    if (n->sup) n->shut_to = 500000000; // supervisors have the time to wait for theirs
    std::vector<std::pair<nd_t *, bool>> links;
    auto ancestor = [&](nd_t *s) { for (auto x = n; x; x = x->parent) if (x == s) return true; return false; };
    int k = g.chance(0.25) ? 0 : g.range(1, 3);
    if (kind != 2) while (k-- > 0) {
        auto s = g.pick(m.nodes).get();
        bool dup = s == n; for (auto &l : links) dup |= l.first == s;
        if (dup || !s->addr || (s->gone() && !g.chance(0.1))) continue;
        bool oper = !ancestor(s) && g.chance(0.5);
        links.emplace_back(s, oper);
    }
    auto sp = std::make_shared<spec_t>();
    sp->configure = [n, links, &g](r::actor_base_t &a, r::plugin::plugin_base_t &p) {
        if (!n->rec) { n->rec = W->rec(&a); n->rec->user = n; }
        p.with_casted<r::plugin::address_maker_plugin_t>([&](auto &p) { p.set_identity(n->rec->name, false); });
        p.with_casted<r::plugin::link_client_plugin_t>([&](auto &p) {
            n->lc = &p;
            if (n->linked) return;
            n->linked = true;
            if (n->defer) p.on_unlink([n](r::message::unlink_request_t &m) {
                count("deferred unlink requests");
                auto s = by_addr(m.payload.request_payload.server_addr);
                if (s) if (auto e = edge(n, s)) e->t_asked = now();
                if (M->w.rng.chance(0.3)) { count("declined unlink requests"); return false; } // handled as usual
                r::intrusive_ptr_t<r::message::unlink_request_t> q(&m);
                M->w.after(M->w.rng.range(0, 8000), n->rec->loc, [n, q] { if (n->gone() || n->rec->n_shut_finish || parents_down(n)) return; tracef("%s forgets the link", nm(n).c_str()); n->lc->forget_link(*q); });
                return true;
            });
            for (auto &[s, oper] : links) {
                M->edges.emplace_back(new edge_t{n, s, oper}); auto e = M->edges.back().get(); n->out.push_back(e); s->in.push_back(e);
                e->t_sent = now();
                tracef("%s links to %s%s", nm(n).c_str(), nm(s).c_str(), oper ? " (operational)" : "");
                count("links requested");
                uint64_t sdown = s->rec->t_shut_start;
                p.link(s->addr, oper, [e, sdown](const r::extended_error_ptr_t &ee) {
                    auto c = e->c, s = e->s;
                    tracef("%s linked to %s: %s", nm(c).c_str(), nm(s).c_str(), ee ? ee->message().c_str() : "ok");
                    if (++e->answers > 1) violate("P11", "%s: two outcomes of the link to %s", nm(c).c_str(), nm(s).c_str());
                    if (c->rec->n_init_finish) violate("P11", "%s: outcome of the link to %s after the initialization", nm(c).c_str(), nm(s).c_str());
                    if (ee) {
                        e->t_err = now(); e->ee = ee;
                        bool timeout = ee->ec == r::make_error_code(r::error_code_t::request_timeout), nolink = ee->ec == r::make_error_code(r::error_code_t::actor_not_linkable);
                        if (!timeout && !nolink) violate("P11", "%s: unexpected outcome of the link to %s: %s", nm(c).c_str(), nm(s).c_str(), ee->message().c_str());
                        if (nolink && !s->rec->n_shut_start) violate("P11", "%s: link to %s is refused though it is not shutting down", nm(c).c_str(), nm(s).c_str());
                        if (timeout && M->strict && !e->oper && !s->rec->n_shut_start) violate("P11", "%s: link to %s timed out", nm(c).c_str(), nm(s).c_str());
                        count(timeout ? "links timed out" : "links refused");
                    } else {
                        e->t_ok = now();
                        if (sdown) violate("P11", "%s has been linked to %s, which was already shutting down", nm(c).c_str(), nm(s).c_str());
                        if (e->oper && !s->rec->n_start) violate("P11", "%s has been linked to %s, which is not operational yet", nm(c).c_str(), nm(s).c_str());
                        count("links established");
                    }
                });
            }
        });
        if (n->raw) p.with_casted<r::plugin::starter_plugin_t>([&](auto &p) {
            static_cast<raw_t &>(a).n = n;
            p.subscribe_actor(&raw_t::on_link);
            p.subscribe_actor(static_cast<void (raw_t::*)(r::message::unlink_request_t &) noexcept>(&raw_t::on_unlink));
        });
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &p) {
            if (n->hold || !g.chance(0.15)) return;
            n->hold = true; n->held++; p.acquire(0);
            M->w.after(g.range(0, 8000), n->rec->loc, [n] { if (n->gone() || n->rec->n_shut_finish || !n->held || parents_down(n)) return; n->held--; n->plugin().release(0); });
        });
    };
    sp->on_init_finish = [n](r::actor_base_t &) {
        for (auto e : n->out) if (!n->raw && !e->t_ok) violate("P11", "%s is initialized though it is not linked to %s", nm(n).c_str(), nm(e->s).c_str());
    };
    sp->on_shutdown_start = [n, &g](r::actor_base_t &) {
        if (n->raw && n->raw_mode != 4) for (auto &[s, said] : n->said) if (said.size() && said.back() != 'N') say_notify(static_cast<raw_t *>(n->rec->actor), s);
        if (g.chance(0.15)) { n->held++; n->plugin().acquire(0); M->w.after(g.range(0, 8000), n->rec->loc, [n] { if (n->gone() || n->rec->n_shut_finish || !n->held || parents_down(n)) return; n->held--; n->plugin().release(0); }); }
    };
    sp->on_unlink = [n](r::actor_base_t &, const r::address_ptr_t &a) {
        auto s = by_addr(a);
        tracef("%s unlinked from %s%s", nm(n).c_str(), s ? nm(s).c_str() : "?", n->stay ? ", stays" : "");
        auto e = s ? edge(n, s) : nullptr;
        if (!e) { violate("P11", "%s: unlinked from a stranger", nm(n).c_str()); return true; }
        if (!s->rec->n_shut_start) violate("P11", "%s is unlinked from %s, which is not shutting down", nm(n).c_str(), nm(s).c_str());
        if (e->t_told) violate("P11", "%s is unlinked from %s twice", nm(n).c_str(), nm(s).c_str());
        e->t_told = now();
        bool free = n->stay; if (!free) { free = true; for (auto x : n->in) free &= released(x); }
        if (free) e->t_released = now(); else count("unlink postponed till own clients are gone");
        count("unlinked on request");
        return !n->stay;
    };
    sp->pre_shutdown_finish = [n](r::actor_base_t &) {
        for (auto e : n->in) if (e->t_ok && !released(e)) { violate("P11", "%s is down before its client %s has let it go", nm(n).c_str(), nm(e->c).c_str()); }
        for (auto e : n->in) if (e->t_ok) count("servers outliving clients");
    };
    sp->on_child_init = [n](rec_t *cr, const r::extended_error_ptr_t &ec) { if (cr && cr->user) { auto c = static_cast<nd_t *>(cr->user); c->init_seen++; c->init_ee = ec; } };
    if (parent) {
        auto &s = *static_cast<sup_t *>(parent->rec->actor);
        if (kind == 2) s.create_actor<raw_t>().init_timeout(us(n->init_to)).shutdown_timeout(us(n->shut_to)).spec(sp).finish();
        else if (!kind) s.create_actor<act_t>().init_timeout(us(n->init_to)).shutdown_timeout(us(n->shut_to)).spec(sp).finish();
        else {
            auto b = s.create_actor<sup_t>().init_timeout(us(n->init_to * 2)).shutdown_timeout(us(n->shut_to)).spec(sp).policy(n->tolerant ? r::supervisor_policy_t::shutdown_failed : r::supervisor_policy_t::shutdown_self);
            m.w.keep.push_back(m.multi && g.chance(0.5) ? std::move(b).loc(m.w.new_loc()).finish() : std::move(b).finish());
        }
    } else {
        m.w.keep.push_back(create_root(m.w, [&](auto &&b) { return std::move(b).init_timeout(us(m.strict ? 600000000 : n->init_to * 3)).shutdown_timeout(us(900000000)).spec(sp).policy(n->tolerant ? r::supervisor_policy_t::shutdown_failed : r::supervisor_policy_t::shutdown_self); }));
    }
    n->addr = n->rec->actor->get_address();
    return n;
}
static void reports() { for (auto &x : M->nodes) x->reports = 0; for (auto &[rc, e] : W->ctx->errors) if (rc && rc->user) static_cast<nd_t *>(rc->user)->reports++; }
static void settled() {
    reports();
    for (auto &np : M->nodes) {
        auto n = np.get(); auto &rc = *n->rec;
        if (n->gone() || rc.n_shut_finish) continue;
        if (parents_down(n)) { if (M->strict) violate("P11", "%s survives its supervisor", rc.name.c_str()); continue; }
        if (M->strict && rc.n_shut_start && !n->reports) { violate("P11", "shutdown of %s does not complete", rc.name.c_str()); violate("P08", "shutdown of %s does not complete", rc.name.c_str()); }
        for (auto e : n->out) {
            if (!n->raw && !e->answers && !rc.n_shut_start) violate("P11", "%s: no outcome of the link to %s", rc.name.c_str(), nm(e->s).c_str());
            if (e->ee && !rc.n_shut_start) violate("P11", "%s is not shut down though the link to %s failed", rc.name.c_str(), nm(e->s).c_str());
            if (e->t_told && !n->stay && !rc.n_shut_start && e->s->rec->n_shut_finish) violate("P11", "%s is not shut down though it is unlinked from %s", rc.name.c_str(), nm(e->s).c_str());
            if (!n->raw && e->t_ok && !e->t_told && !rc.n_shut_start && e->s->rec->n_shut_finish && !e->s->reports) violate("P11", "%s is not told that %s is down", rc.name.c_str(), nm(e->s).c_str());
        }
        if (n->raw && !rc.n_shut_start) for (auto &[s, p] : n->pos) if (p.size()) violate("P11", "%s: no answer to the link request to %s", rc.name.c_str(), nm(s).c_str());
    }
}
static void fn(world_t &w) {
    model_t m(w); M = &m;
    auto &g = w.rng;
    m.strict = g.chance(0.7); m.multi = g.chance(0.7);
    auto root = make(nullptr, 1);
    int n = g.range(2, 9);
    auto grow = [&] {
        std::vector<nd_t *> sups; for (auto &x : m.nodes) if (x->sup && !x->gone() && !x->rec->n_shut_start && !parents_down(x.get())) sups.push_back(x.get());
        if (sups.empty()) return;
        auto s = g.pick(sups);
        if (w.locs[s->rec->loc]->dead) return;
        int kind = g.chance(0.25) ? 1 : g.chance(0.2) ? 2 : 0;
        if (g.chance(0.6)) w.in_loc(*w.locs[s->rec->loc], [&] { make(s, kind); }); else w.act(*w.locs[s->rec->loc], [&] { make(s, kind); });
    };
    for (int i = 0; i < n; ++i) { grow(); if (g.chance(0.4)) w.run_for(g.range(0, 2000)); }
    auto raw_op = [&] {
        for (int i = 0; i < 10; ++i) {
            auto c = g.pick(m.nodes).get();
            if (!c->raw || c->gone() || c->rec->n_shut_start || !c->rec->n_start || parents_down(c) || w.locs[c->rec->loc]->dead) continue;
            auto s = g.pick(m.nodes).get();
            if (s->no >= c->no) continue; // acyclic; the ancestors are fine, they are never asked to be operational below
            bool anc = false; for (auto x = c->parent; x; x = x->parent) anc |= x == s;
            bool notify = g.chance(0.3), twice = g.chance(0.3), oper = !anc && g.chance(0.4);
            w.act(*w.locs[c->rec->loc], [&] { auto a = static_cast<raw_t *>(c->rec->actor); if (notify) say_notify(a, s); else { say_link(a, s, oper); if (twice) say_link(a, s, oper); } });
            return;
        }
    };
    auto down_op = [&] {
        for (int i = 0; i < 10; ++i) {
            auto x = g.pick(m.nodes).get();
            if (x->gone() || (x == root && !g.chance(0.1)) || parents_down(x) || w.locs[x->rec->loc]->dead) continue;
            int times = g.chance(0.2) ? 2 : 1;
            auto go = [&] { tracef("%s do_shutdown", nm(x).c_str()); while (times--) x->rec->actor->do_shutdown(); };
            if (g.chance(0.5)) w.act(*w.locs[x->rec->loc], go); else w.in_loc(*w.locs[x->rec->loc], go);
            return;
        }
    };
    auto any = [&, grow, raw_op, down_op] { int k = g.range(0, 9); if (k < 2) { if (m.nodes.size() < 14) grow(); } else if (k < 6) raw_op(); else down_op(); };
    int nops = g.range(0, 12);
    for (int i = 0; i < nops; ++i) { if (g.chance(0.3)) w.ops.push_back(any); else w.after(g.range(0, 50000), -1, any); }
    struct guard_t { world_t &w; ~guard_t() { w.ops.clear(); w.agenda.clear(); } } gd{w};
    if (m.strict) { if (!w.run(30000, virtual_now + 10000000)) violate("P11", "the system does not become quiet"); /* links that cannot be answered end by their timeouts */ if (!w.run(30000, virtual_now + 200000000)) violate("P11", "the system does not become quiet"); }
    else if (!w.run(30000, virtual_now + 200000000)) violate("P11", "the system does not become quiet");
    settled();
    for (int i = g.range(0, 3); i > 0; --i) w.after(g.range(0, 8000), -1, down_op);
    w.act(*w.locs[root->rec->loc], [&] { if (!root->gone()) root->rec->actor->do_shutdown(); });
    if (!w.run(30000)) violate("P11", "the system does not become quiet");
    settled();
    if (!root->rec->n_shut_finish) { violate("P08", "the root has not been shut down"); violate("P11", "the root has not been shut down"); }
    for (auto &x : m.nodes) {
        if (M->strict && !x->rec->n_shut_finish) violate("P11", "%s has not been shut down though the root is", nm(x.get()).c_str());
        if (M->strict && x->reports) violate("P11", "shutdown of %s has been reported as failed", nm(x.get()).c_str());
        if (!x->rec->n_shut_finish) x->rec->stuck = true;
        for (auto e : x->out) if (e->ee && x->rec->n_init_finish) violate("P11", "%s was initialized though the link to %s failed", nm(x.get()).c_str(), nm(e->s).c_str());
        if (x->init_ee && x->init_ee->ec != r::make_error_code(r::error_code_t::request_timeout) && !x->sup && !x->raw) {
            bool ok = false; for (auto e : x->out) for (auto p = x->init_ee; p; p = p->next) ok |= e->ee && (p == e->ee || p->ec == e->ee->ec);
            if (!ok) violate("P11", "%s failed to initialize due to %s", nm(x.get()).c_str(), text(x->init_ee).c_str());
        }
    }
    w.ops.clear(); w.agenda.clear();
    w.finish();
    M = nullptr;
}
static workload_reg r1("link", [](world_t &w) { fn(w); });
} }
