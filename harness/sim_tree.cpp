// Supervision trees (P06 P07 P08 P09; P15 P16 on the way).
// Random trees over several loops; members initialize and shut down at once, late or never, fail, are told to
// shut down by anybody at any moment. Every shutdown must be explained by the rules; every rule must be followed.
#include "sim.hpp"
#include <algorithm>

namespace sim { namespace tree {
enum kind_t { NOW, LATE, NEVER };
struct nd_t {
    rec_t *rec = nullptr;
    bool escalate = false, autoshut = false, sup = false, sync = false, tolerant = false, root = false;
    int init_kind = NOW, shut_kind = NOW;
    vtime_t init_delay = 0, shut_delay = 0, init_to = 0, shut_to = 0;
    bool hold_on_shutdown = false; // what is held in initialization is not dropped upon shutdown start
    int self_down = 0;             // 1: in init_start.. (configure), 2: in init_finish, 3: in start, 4: in start, parent
    std::vector<std::pair<r::extended_error_ptr_t, vtime_t>> given;
    int null_given = 0, flag_given = 0;
    vtime_t v_null = ~vtime_t(0);
    r::extended_error_ptr_t init_ee;      // how initialization ended for the supervisor
    int init_seen = 0;
    bool asked = false;                   // the request to initialize has been seen
    bool failed_in_init = false;          // strict: must not be initialized any more
    std::vector<nd_t *> kids;
    nd_t *parent = nullptr;
    int held_init = 0, held_shut = 0;
    bool shutting_created = false;
    int spawn_on_start = 0;
    int reports = 0, depth = 1;
    r::state_t state() const { auto a = rec->actor; return a ? (rec->is_sup ? static_cast<sup_t *>(a)->get_state() : static_cast<act_t *>(a)->get_state()) : r::state_t::SHUT_DOWN; }
    bool initializing() const { return rec->n_init_start && !rec->n_init_finish && !rec->n_shut_start; }
    r::plugin::resources_plugin_t *res() const { auto a = rec->actor; return rec->is_sup ? static_cast<sup_t *>(a)->res() : static_cast<act_t *>(a)->res(); }
    r::actor_base_t &act() const { return *rec->actor; }
    bool gone() const { return !rec->actor; }
};
struct model_t {
    world_t &w;
    std::vector<std::unique_ptr<nd_t>> nodes;
    int next_cause = 0, budget = 0;
    double p_fail = 0, p_mark = 0, p_delay = 0; bool hostile = false; bool multi = true;
    int focus = 0;
    explicit model_t(world_t &w_) : w(w_) {}
};
model_t *M;
static nd_t *nd(const rec_t *r) { return static_cast<nd_t *>(r->user); }

static r::extended_error_ptr_t cause() { // normal, an error, a wrapped one
    auto &g = M->w.rng;
    auto e1 = [&](bool bad) { auto ctx = fmt("cause-%d", ++M->next_cause); return bad ? r::make_error(ctx, r::make_error_code(g.chance(0.5) ? r::error_code_t::cancelled : r::error_code_t::unknown_service))
                                                                         : r::make_error(ctx, r::make_error_code(r::shutdown_code_t::normal)); };
    bool bad = g.chance(0.5);
    auto e = e1(bad);
    while (g.chance(0.3)) { auto ctx = fmt("wrap-%d", ++M->next_cause); e = r::make_error(ctx, g.chance(0.5) ? r::make_error_code(r::error_code_t::discovery_failed) : g.chance(0.5) ? r::make_error_code(r::shutdown_code_t::init_failed) : r::make_error_code(r::shutdown_code_t::normal), e); }
    return e;
}
static std::string text(const r::extended_error_ptr_t &e) { return e ? e->message() : "-"; }
static void tell(nd_t *n, bool outside = false) { // shut down, in the actor's loop
    if (n->gone()) return;
    auto &g = M->w.rng;
    static const char *names[] = {"unknown", "new", "initializing", "initialized", "operational", "shutting down", "shut down"};
    count(fmt("told to shut down when %s", names[std::min(6, int(n->state()))]));
    if (outside && n->sup) { n->null_given++; n->v_null = std::min(n->v_null, virtual_now); tracef("%s shutdown()", n->rec->name.c_str()); static_cast<sup_t *>(n->rec->actor)->shutdown(); return; }
    if (g.chance(0.25)) { n->null_given++; n->v_null = std::min(n->v_null, virtual_now); tracef("%s do_shutdown()", n->rec->name.c_str()); n->act().do_shutdown(); return; }
    auto e = cause();
    n->given.emplace_back(e, virtual_now);
    tracef("%s do_shutdown(%s)", n->rec->name.c_str(), e->message().c_str());
    n->act().do_shutdown(e);
}
static bool parents_down(nd_t *n) { for (n = n->parent; n; n = n->parent) if (n->rec->n_shut_finish) return true; return false; }

// is N a legitimate reason for n to be shut down
static bool valid(nd_t *n, const r::extended_error_ptr_t &N) {
    using E = r::error_code_t; using S = r::shutdown_code_t;
    if (!N) return false;
    auto is = [&](auto c) { return N->ec == r::make_error_code(c); };
    for (auto &x : n->given) if (x.first == N) return true;
    if (is(S::normal) && !N->next && (n->null_given || (n->flag_given))) return true;
    if (n->parent && N == n->parent->rec->first_reason) return true;
    for (auto c : n->kids) {
        if (!c->rec->n_shut_start) continue;
        if (is(E::failure_escalation) && c->escalate && N->next == c->rec->first_reason && c->rec->first_reason->root()->ec) { count("escalations"); return true; }
        if (is(S::child_down) && c->autoshut && N->next == c->rec->first_reason) { count("autoshutdowns"); return true; }
    }
    if (n->init_ee && is(S::init_failed) && N->next == n->init_ee) return !n->parent || n->parent->tolerant || n->parent->rec->n_init_finish || n->parent->rec->n_shut_start;
    auto lost_in_init = [&](nd_t *c) { // went down before it was started, before its supervisor was initialized
        auto &p = *n->rec, &q = *c->rec;
        return q.n_shut_start && (!p.n_init_finish || p.t_init_finish > q.t_shut_start) && (!q.n_init_finish || n->sync || c->init_ee || (!p.n_init_finish || p.t_init_finish > q.t_shut_start));
    };
    if (n->sup && n->tolerant && is(S::child_down) && !N->next) for (auto c : n->kids) if (lost_in_init(c)) return true;
    if (n->sup && !n->tolerant && is(S::child_init_failed)) {
        for (auto c : n->kids) if (lost_in_init(c) && N->next == c->rec->first_reason) return true;
        if (n->root && N->next && N->next->ec == r::make_error_code(E::failure_escalation)) return true;
        if (n->root && N->next && n->failed_in_init) { // ... and own initialization has timed out in the same poll
            auto q = N->next->request ? dynamic_cast<r::message::init_request_t *>(N->next->request.get()) : nullptr;
            if (N->next->ec == r::make_error_code(E::request_timeout) && !N->next->next && q && q->address == n->act().get_address()) return true;
        }
        if (n->root && !N->next) return true;
        for (auto c : n->kids) if (c->init_ee && N->next == c->init_ee) return true;
        return false;
    }
    if (n->root) { // own initialization
        auto o = is(S::init_failed) && (n->tolerant || n->rec->n_init_finish) ? N->next : N; // the latter: in time, but too late to be noticed
        auto q = o && o->request ? dynamic_cast<r::message::init_request_t *>(o->request.get()) : nullptr;
        if (o && o->ec == r::make_error_code(E::request_timeout) && !o->next && q && q->address == n->act().get_address()) return true;
    }
    return false;
}
static void explain(nd_t *n) {
    auto &R = n->rec->first_reason;
    if (!R) return;
    auto N = R;
    if (!n->root) {
        if (R->ec != r::make_error_code(r::shutdown_code_t::supervisor_shutdown)) { violate("P08", "%s: shut down not by its supervisor: %s", n->rec->name.c_str(), text(R).c_str()); return; }
        N = R->next;
    }
    count("shutdowns explained");
    if (!valid(n, N)) {
        auto m = fmt("%s: shut down without a legitimate cause: %s", n->rec->name.c_str(), text(R).c_str());
        violate("P08", "%s", m.c_str()); violate("P09", "%s", m.c_str());
    }
}

static nd_t *make(nd_t *parent, bool sup);
static void poll() { for (auto &x : M->nodes) if (x->sup && !x->asked && x->rec && !x->gone() && static_cast<sup_t *>(x->rec->actor)->asked_to_init()) x->asked = true; }
static void reports() { for (auto &x : M->nodes) x->reports = 0; for (auto &[rc, e] : W->ctx->errors) if (rc && rc->user) nd(rc)->reports++; }
static void hold_later(nd_t *n, vtime_t d, bool init) {
    M->w.after(d, n->rec->loc, [n, init] {
        int &h = init ? n->held_init : n->held_shut;
        if (n->gone() || !h || parents_down(n)) return;
        --h;
        tracef("%s releases (%s)", n->rec->name.c_str(), init ? "init" : "shutdown");
        n->res()->release(init ? 0 : 1);
    });
}
static spec_ptr_t make_spec(nd_t *n) {
    auto sp = std::make_shared<spec_t>();
    auto &g = M->w.rng;
    sp->on_created = [n](r::actor_base_t &) { };
    sp->configure = [n, &g](r::actor_base_t &a, r::plugin::plugin_base_t &p) {
        poll();
        if (!n->rec) { n->rec = W->rec(&a); n->rec->user = n; }
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &p) {
            if (n->init_kind == NOW) return;
            n->held_init++; p.acquire(0);
            if (n->init_kind == LATE) hold_later(n, n->init_delay, true);
        });
        p.with_casted<r::plugin::address_maker_plugin_t>([&](auto &p) { p.set_identity(n->rec->name, false); });
        if (n->self_down == 1) p.with_casted<r::plugin::starter_plugin_t>([&](auto &) { tell(n); });
    };
    sp->on_init_finish = [n](r::actor_base_t &) {
        poll();
        if (n->sup) {
            for (auto c : n->kids)
                if (!c->rec->n_init_finish && !c->rec->n_shut_start) { violate("P07", "%s is initialized before its child %s", n->rec->name.c_str(), c->rec->name.c_str()); }
            if (n->failed_in_init) violate("P07", "%s is initialized though its child failed", n->rec->name.c_str());
            count("supervisors initialized");
        }
        if (n->self_down == 2) tell(n);
    };
    sp->on_start = [n](r::actor_base_t &) {
        poll();
        if (n->parent) {
            if (n->init_seen != 1 || n->init_ee) { violate("P06", "%s is started, but its initialization was not confirmed to the supervisor", n->rec->name.c_str()); violate("P07", "%s is started, but its initialization was not confirmed to the supervisor", n->rec->name.c_str()); }
            if (n->parent->sync && !n->parent->rec->n_start) violate("P07", "%s is started before its supervisor %s", n->rec->name.c_str(), n->parent->rec->name.c_str());
            if (n->parent->sync) count("synchronized starts"); else if (n->parent->rec->n_start == 0) count("starts before the supervisor");
        }
        for (int i = 0; i < n->spawn_on_start; ++i) make(n, false);
        if (n->self_down == 3) tell(n);
        if (n->self_down == 4 && n->parent && n->parent->rec->loc == n->rec->loc) tell(n->parent);
    };
    sp->on_shutdown_start = [n](r::actor_base_t &a) {
        poll();
        explain(n);
        if (n->shut_kind != NOW) { n->held_shut++; n->res()->acquire(1); if (n->shut_kind == LATE) hold_later(n, n->shut_delay, false); }
        if (M->w.rng.chance(0.05)) tell(n);
        if (n->sup && M->hostile && M->w.rng.chance(0.3)) { if (auto c = make(n, false)) { c->shutting_created = true; count("children created in shutdown"); } }
        // (the last release continues the shutdown on the spot, so it goes after the creation of children)
        if (n->held_init && (n->init_kind == NEVER || !n->hold_on_shutdown)) { n->held_init = 0; n->res()->release(0); }
        if (!M->w.slow() && !parents_down(n) && n->parent && !n->parent->rec->n_shut_start) {
            vtime_t first = n->v_null;
            for (auto &x : n->given) first = std::min(first, x.second);
            if (first < virtual_now) violate("P08", "%s reacts on shutdown late", n->rec->name.c_str());
        }
    };
    sp->on_shutdown_finish = [n](r::actor_base_t &) {
        poll();
        reports();
        for (auto c : n->kids)
            if (!c->rec->n_shut_finish && !c->reports) violate("P08", "%s is down before its child %s", n->rec->name.c_str(), c->rec->name.c_str());
        if (!M->w.slow()) {
            vtime_t bound = n->shut_kind == LATE ? n->shut_delay : 0;
            if (n->init_kind == LATE) bound = std::max(bound, n->init_delay);
            vtime_t kids = 0;
            for (auto c : n->kids) kids = std::max(kids, c->shut_to);
            bound += kids;
            if (virtual_now - n->rec->v_shut_start > bound) violate("P08", "%s needs %llu us to shut down, at most %llu expected", n->rec->name.c_str(), (unsigned long long)(virtual_now - n->rec->v_shut_start), (unsigned long long)bound);
        }
        count("shut down");
    };
    sp->on_child_init = [n](rec_t *cr, const r::extended_error_ptr_t &ec) {
        poll();
        if (!cr) return;
        auto c = nd(cr);
        c->init_seen++;
        if (c->init_seen > 1) violate("P06", "initialization of %s reported twice", cr->name.c_str());
        c->init_ee = ec;
        if (!ec) { if (!cr->n_init_finish) violate("P06", "%s is reported as initialized too early", cr->name.c_str()); return; }
        count("failed initializations");
        if (n->initializing() && !n->tolerant) { n->failed_in_init |= n->asked; count("failed initializations under strict supervisor"); }
        if (n->tolerant) count("failed initializations under tolerant supervisor");
        if (!M->w.slow() && !M->w.poll_timers && !cr->n_shut_start && ec->ec == r::make_error_code(r::error_code_t::request_timeout)) {
            bool late = c->held_init || c->init_kind == NEVER || (c->init_kind == LATE && c->init_delay >= c->init_to);
            for (auto k : c->kids) if (!k->rec->n_init_finish && !k->rec->n_shut_finish) late = true;
            for (auto k : c->kids) if (std::max(k->rec->v_init_finish, k->rec->v_shut_finish) >= virtual_now) late = true;
            for (auto k : c->kids) if (k->reports) late = true;
            for (auto k : c->kids) if (!k->init_seen && k->rec->n_shut_start && !k->rec->n_shut_finish) late = true; // the answer was discarded upon shutdown
            if (!late) { violate("P07", "%s has nothing to wait for in initialization, yet it timed out", cr->name.c_str()); }
        }
    };
    sp->on_child_shutdown = [n](rec_t *cr) {
        poll();
        if (!cr) return;
        auto c = nd(cr);
        if (n->initializing()) {
            if (!(c->init_seen && !c->init_ee) && !n->tolerant) n->failed_in_init |= n->asked;
            if (n->sync && !n->tolerant) n->failed_in_init |= n->asked;
        }
    };
    return sp;
}
static nd_t *make(nd_t *parent, bool sup) {
    auto &m = *M; auto &g = m.w.rng;
    if (m.budget-- <= 0) return nullptr;
    m.nodes.emplace_back(new nd_t);
    auto n = m.nodes.back().get();
    n->sup = sup; n->parent = parent;
    n->sync = g.chance(0.3); n->tolerant = g.chance(0.4);
    if (g.chance(m.p_mark)) n->escalate = true;
    if (g.chance(m.p_mark / 2)) n->autoshut = true;
    n->init_to = g.chance(0.1) ? g.range(0, 2000) : g.range(20000, 100000); n->shut_to = g.chance(0.1) ? g.range(0, 2000) : g.range(20000, 100000);
    if (parent) n->depth = parent->depth + 1;
    // supervisors have all the time they need: one that is given up leaves its whole branch behind (contract violation)
    if (sup) n->init_to *= 2, n->shut_to = 100000000 / n->depth;
    if (g.chance(m.p_delay)) n->init_kind = LATE, n->init_delay = g.chance(0.8) ? g.range(0, 15000) : g.range(0, 120000);
    if (g.chance(m.p_delay)) n->shut_kind = LATE, n->shut_delay = g.chance(0.8) ? g.range(0, 15000) : g.range(0, 120000);
    if (g.chance(m.p_fail * 0.5)) n->init_kind = NEVER;
    if (!sup && g.chance(m.p_fail * 0.3)) n->shut_kind = NEVER;
    if (g.chance(m.p_fail)) n->self_down = g.range(1, 4);
    n->hold_on_shutdown = g.chance(0.3);
    if (sup && g.chance(0.2)) n->spawn_on_start = g.range(1, 2);
    auto sp = make_spec(n);
    if (parent) {
        parent->kids.push_back(n);
        auto &s = *static_cast<sup_t *>(parent->rec->actor);
        if (!sup) {
            auto b = s.create_actor<act_t>().init_timeout(us(n->init_to)).shutdown_timeout(us(n->shut_to)).spec(sp).escalate_failure(n->escalate).autoshutdown_supervisor(n->autoshut);
            std::move(b).finish();
        } else {
            auto b = s.create_actor<sup_t>().init_timeout(us(n->init_to)).shutdown_timeout(us(n->shut_to)).escalate_failure(n->escalate).autoshutdown_supervisor(n->autoshut).policy(n->tolerant ? r::supervisor_policy_t::shutdown_failed : r::supervisor_policy_t::shutdown_self).synchronize_start(n->sync).create_registry(g.chance(0.1)).spec(sp);
            auto p = (m.multi && g.chance(0.4)) ? std::move(b).loc(m.w.new_loc()).finish() : std::move(b).finish();
            m.w.keep.push_back(p);
        }
    }
    return n;
}
// what has to hold when nothing happens any more
static void settled() {
    for (auto &np : M->nodes) {
        auto n = np.get(); auto &rc = *n->rec;
        if (n->parent && parents_down(n) && !rc.n_shut_start) { if (!n->reports && !M->w.unanswered) violate("P08", "%s survives its supervisor", rc.name.c_str()); continue; }
        if (rc.n_shut_start && !rc.n_shut_finish && n->shut_kind != NEVER && !n->held_shut && !n->held_init) violate("P08", "shutdown of %s does not complete", rc.name.c_str());
        if ((n->given.size() || n->null_given) && !rc.n_shut_start && !parents_down(n)) violate("P08", "%s was asked to shut down, but does not", rc.name.c_str());
        if (!rc.n_shut_start && !rc.n_start && !parents_down(n)) {
            if (rc.n_init_finish) { violate("P07", "%s is initialized, but has never been started", rc.name.c_str()); violate("P06", "%s is initialized, but has never been started", rc.name.c_str()); }
            else violate("P07", "initialization of %s never ends", rc.name.c_str());
        }
        if (n->parent && rc.n_shut_start && !n->parent->rec->n_shut_start) {
            if (n->escalate && rc.first_reason && rc.first_reason->root()->ec) violate("P09", "failure of %s is not escalated", rc.name.c_str());
            if (n->autoshut) violate("P09", "%s is down, but its supervisor is not", rc.name.c_str());
        }
        if (n->failed_in_init && !rc.n_shut_start) violate("P07", "%s is not shut down though its child failed to initialize", rc.name.c_str());
        if (n->init_ee && !rc.n_shut_start) violate("P07", "%s failed to initialize, but is not shut down", rc.name.c_str());
        bool stuck = n->shut_kind == NEVER && rc.n_shut_start;
        if (n->parent && stuck && n->reports != 1) violate("P08", "%s does not shut down, that was reported %d times", rc.name.c_str(), n->reports);
        if (n->reports > 1) violate("P08", "shutdown of %s reported as failed %d times", rc.name.c_str(), n->reports);
    }
}
static void fn(world_t &w, int focus) {
    model_t m(w); M = &m; m.focus = focus;
    auto &g = w.rng;
    m.budget = g.range(3, 16);
    m.p_fail = g.chance(0.3) ? 0 : g.chance(0.5) ? 0.08 : 0.25;
    if (focus == 8) m.p_fail = std::min(m.p_fail, 0.08);
    m.p_mark = g.chance(0.4) ? 0 : g.chance(0.5) ? 0.15 : 0.5;
    if (focus == 9) m.p_mark = g.chance(0.1) ? 0 : 0.3;
    m.p_delay = g.chance(0.3) ? 0 : 0.4;
    m.multi = g.chance(0.6); m.hostile = g.chance(0.2);
    auto flag = std::make_shared<std::atomic_bool>(false);
    bool use_flag = g.chance(0.15);
    m.nodes.emplace_back(new nd_t);
    auto rn = m.nodes.back().get();
    rn->sup = rn->root = true; rn->sync = g.chance(0.3); rn->tolerant = g.chance(0.4);
    rn->init_to = g.chance(0.1) ? g.range(0, 5000) : 400000; rn->shut_to = 200000000;
    if (g.chance(m.p_delay / 2)) rn->init_kind = LATE, rn->init_delay = g.range(0, 15000);
    if (g.chance(m.p_delay / 2)) rn->shut_kind = LATE, rn->shut_delay = g.range(0, 15000);
    if (g.chance(m.p_fail / 3)) rn->init_kind = NEVER;
    if (g.chance(0.05)) rn->escalate = true;
    rn->hold_on_shutdown = g.chance(0.3);
    auto root = create_root(w, [&](auto &&b) {
        auto x = std::move(b).init_timeout(us(rn->init_to)).shutdown_timeout(us(rn->shut_to)).spec(make_spec(rn)).policy(rn->tolerant ? r::supervisor_policy_t::shutdown_failed : r::supervisor_policy_t::shutdown_self).synchronize_start(rn->sync).create_registry(g.chance(0.1)).escalate_failure(rn->escalate);
        return use_flag ? std::move(x).shutdown_flag(*flag, us(g.range(100, 9000))) : std::move(x);
    });
    // the registry is an additional child, known to no plan
    auto grow = [&](int sups_w) {
        std::vector<nd_t *> sups;
        for (auto &n : m.nodes) if (n->sup && n->rec && !n->gone() && !n->rec->n_shut_start && !parents_down(n.get())) sups.push_back(n.get());
        if (sups.empty()) return;
        auto s = g.pick(sups);
        auto go = [&] { make(s, int(g.below(10)) < sups_w); };
        if (w.locs[s->rec->loc]->dead) return;
        if (g.chance(0.5)) w.act(*w.locs[s->rec->loc], go); else w.in_loc(*w.locs[s->rec->loc], go);
    };
    int n = g.range(1, m.budget);
    for (int i = 0; i < n; ++i) grow(4);
    auto member = [&]() -> nd_t * { for (int i = 0; i < 20; ++i) { auto n = g.pick(m.nodes).get(); if (!n->gone() && (i > 10 || !n->rec->n_shut_start) && (n != rn || g.chance(0.1))) return n; } return nullptr; };
    auto act = [&] {
        int k = g.range(0, 9);
        if (k < 3) grow(3);
        else if (auto n = member()) {
            if (parents_down(n)) return;
            auto &l = *w.locs[n->rec->loc];
            if (l.dead) return;
            int times = g.chance(0.2) ? 2 : 1;
            while (times--) {
                if (k < 5 && n->sup && g.chance(0.3)) { int o = w.cur_loc; w.cur_loc = -1; tell(n, true); w.cur_loc = o; }
                else if (g.chance(0.5)) w.act(l, [&] { tell(n); });
                else w.in_loc(l, [&] { tell(n); });
            }
        }
    };
    int nops = focus == 7 ? g.range(0, 3) : g.range(0, 10);
    for (int i = 0; i < nops; ++i) { if (g.chance(0.5)) w.ops.push_back(act); else w.after(g.range(0, 60000), -1, act); }
    if (use_flag) w.after(g.range(0, 80000), -1, [&] { if (!g.chance(0.9)) return; *flag = true; rn->flag_given++; });
    w.on_take = nullptr;
    struct guard_t { world_t &w; ~guard_t() { w.ops.clear(); w.agenda.clear(); } } gd{w};
    bool ok;
    if (use_flag) { w.run(30000, virtual_now + 3000000); w.act(*root->loc, [&] { *flag = true; rn->flag_given++; }); }
    ok = w.run(30000);
    if (!ok) violate("P08", "the tree does not become quiet");
    reports();
    settled();
    if (rn->rec->n_start) count("roots operational");
    if (rn->flag_given && !rn->rec->n_shut_finish) { violate("P17", "the shutdown flag is ignored"); violate("P08", "the shutdown flag is ignored"); }
    if (g.chance(0.3)) { w.ops.clear(); w.next_op = 0; m.budget = std::min(m.budget, 3); for (int i = 0; i < 4; ++i) w.ops.push_back(act); }
    w.in_loc(*root->loc, [&] { tell(rn); });
    if (!w.run(30000)) violate("P08", "the tree does not become quiet");
    reports();
    settled();
    if (!rn->rec->n_shut_finish) violate("P08", "the root has not been shut down");
    for (auto &p : w.recs) {
        auto n = p->user ? nd(p.get()) : nullptr;
        if (!n) continue;
        if (!p->n_shut_finish && !(n->shut_kind == NEVER || n->held_shut || n->held_init) && !w.unanswered && !n->shutting_created) violate("P08", "%s has not been shut down though the root is", p->name.c_str());
        if (n->parent && p->n_start && n->parent->rec->n_shut_finish && p->t_start > n->parent->rec->t_shut_finish) violate("P08", "%s is started after its supervisor was shut down", p->name.c_str());
    }
    for (auto &x : m.nodes) x->rec->stuck = x->reports && !x->rec->n_shut_finish;
    for (auto &l : w.locs) if (!l->timers.empty() && !w.unanswered) violate("P05", "a timer survives the shutdown of the system");
    root.reset();
    w.finish();
    M = nullptr;
}
static workload_reg r6("tree", [](world_t &w) { fn(w, 6); });
static workload_reg r7("tree-init", [](world_t &w) { fn(w, 7); });
static workload_reg r8("tree-down", [](world_t &w) { fn(w, 8); });
static workload_reg r9("tree-marks", [](world_t &w) { fn(w, 9); });
} }
