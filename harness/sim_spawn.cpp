// Spawners (P10; P06 P07 P08 P15 on the way).
// Several spawners with every policy, attempts limit, period and escalation setting in supervisors of one or several
// loops; instances end normally, fail, fail to initialize, factories throw; supervisors go down at any moment.
// A reference model of the restart policy judges every invocation of a factory and every absence of it.
#include "sim.hpp"
#include <cstdlib>
#include <stdexcept>

namespace sim { namespace spn {
struct sn_t;
struct spawn_t;
struct inst_t {
    spawn_t *sp = nullptr; int no = 0;
    rec_t *rec = nullptr; bool threw = false;
    vtime_t v_made = 0; uint64_t t_made = 0, t_removed = 0; vtime_t v_removed = 0;
    int asked = 0; bool again = false;
    int held = 0; bool told = false;
    bool gone() const { return !rec || !rec->actor; }
    bool down() const { return threw || (rec && rec->n_shut_finish && t_removed); }
    bool abnormal() const { return rec && rec->first_reason && bool(rec->first_reason->root()->ec); }
};
struct spawn_t {
    int no; sn_t *sup; r::restart_policy_t policy; size_t max; vtime_t period; bool escalate, instant; int kind;
    vtime_t v_spawn = 0; uint64_t t_spawn = 0;
    std::vector<std::unique_ptr<inst_t>> insts;
    bool initializing_throw = false;
};
struct sn_t { int no = 0; rec_t *rec = nullptr; sn_t *parent = nullptr; bool strict = false, sync = false, told = false, lost = false; std::vector<spawn_t *> spawners; bool gone() const { return !rec || !rec->actor; } };
struct model_t { world_t &w; std::vector<std::unique_ptr<sn_t>> sups; std::vector<std::unique_ptr<spawn_t>> spawners; int budget = 0, throws = 0; bool calm = false; explicit model_t(world_t &w_) : w(w_) {} };
static model_t *M;
static uint64_t now() { return ++W->stamp; }
static std::string text(const r::extended_error_ptr_t &e) { return e ? e->message() : "-"; }
static const char *pname(r::restart_policy_t p) { static const char *n[] = {"always", "never", "ask", "normal", "fail"}; return n[int(p)]; }
static bool parents_down(sn_t *n) { for (; n; n = n->parent) if (n->rec->n_shut_finish) return true; return false; }

enum verdict_t { NO, YES, UP };
// what has to be done after the instance is over
static verdict_t verdict(spawn_t &s, inst_t &i) {
    using P = r::restart_policy_t;
    bool exhausted = s.max && s.insts.size() >= s.max;
    if (i.threw) return !exhausted && (s.policy == P::always || s.policy == P::fail_only) && !s.initializing_throw ? YES : NO;
    bool yes = false;
    switch (s.policy) {
    case P::always: yes = true; break;
    case P::never: yes = false; break;
    case P::ask_actor: yes = i.again; break;
    case P::normal_only: yes = !i.abnormal(); break;
    case P::fail_only: yes = i.abnormal(); break;
    }
    if (yes && !exhausted) return YES;
    return s.escalate && i.abnormal() ? UP : NO;
}
static void release(inst_t *i, vtime_t d) {
    M->w.after(d, i->rec->loc, [i] {
        if (i->gone() || !i->held || i->rec->n_shut_finish || parents_down(i->sp->sup)) return;
        i->held--; tracef("%s releases", i->rec->name.c_str());
        auto a = i->rec->actor;
        (i->rec->is_sup ? static_cast<sup_t *>(a)->res() : static_cast<act_t *>(a)->res())->release(0);
    });
}
static void end(inst_t *i) {
    if (i->gone() || i->rec->n_shut_start || M->budget <= 0 || parents_down(i->sp->sup)) return;
    M->budget--; i->told = true;
    auto &g = M->w.rng; auto a = i->rec->actor;
    int k = g.range(0, 4);
    tracef("%s is told to end (%d)", i->rec->name.c_str(), k);
    if (k <= 1) a->do_shutdown();
    else {
        auto e = r::make_error(fmt("cause %d", k), k == 2 ? std::make_error_code(std::errc::io_error) : r::make_error_code(r::error_code_t::cancelled));
        if (k == 4) e = r::make_error("wrapper", r::make_error_code(r::shutdown_code_t::normal), e);
        if (k == 3 && g.chance(0.5)) e = r::make_error("wrapper", std::make_error_code(std::errc::io_error), r::make_error("nothing bad", r::make_error_code(r::shutdown_code_t::normal)));
        a->do_shutdown(e);
    }
}
static r::actor_ptr_t make_instance(spawn_t *s, r::supervisor_t &sup, const r::address_ptr_t &addr) {
    auto &g = M->w.rng;
    auto &sn = *s->sup;
    auto prev = s->insts.empty() ? nullptr : s->insts.back().get();
    s->insts.emplace_back(new inst_t); auto i = s->insts.back().get();
    i->sp = s; i->no = int(s->insts.size()); i->v_made = virtual_now; i->t_made = now();
    tracef("spawner %d (%s, max %d, %d us%s) makes instance %d", s->no, pname(s->policy), int(s->max), int(s->period), s->escalate ? ", escalate" : "", i->no);
    count("instances made");
    if (&sup != sn.rec->actor) violate("P10", "spawner %d: wrong supervisor is passed to the factory", s->no);
    if (sn.rec->n_shut_start) violate("P10", "spawner %d makes an instance though its supervisor is shutting down", s->no);
    if (s->max && s->insts.size() > s->max) violate("P10", "spawner %d makes instance %d, at most %d is allowed", s->no, i->no, int(s->max));
    if (prev) {
        if (!prev->down()) violate("P10", "spawner %d makes an instance while the previous one is not down", s->no);
        else {
            auto self = std::move(s->insts.back());
            s->insts.pop_back(); // the verdict is about the previous one
            auto v = verdict(*s, *prev);
            s->insts.push_back(std::move(self));
            if (v != YES) violate("P10", "spawner %d (%s): an instance is made after the previous one %s", s->no, pname(s->policy), prev->threw ? "could not be constructed" : text(prev->rec->first_reason).c_str());
            count(fmt("restarts, %s", pname(s->policy)));
            if (!prev->threw && s->policy == r::restart_policy_t::ask_actor && prev->asked != 1) violate("P10", "spawner %d: the instance has been asked %d times", s->no, prev->asked);
        }
        if (virtual_now < prev->v_made + s->period) violate("P10", "spawner %d: instances are made within %d us, the restart period is %d us", s->no, int(virtual_now - prev->v_made), int(s->period));
    }
    bool op = sn.rec->n_start;
    if (M->throws > 0 && g.chance(op ? 0.15 : 0.05)) {
        M->throws--; i->threw = true;
        count("factories threw");
        tracef("spawner %d: the factory throws", s->no);
        if (!sn.rec->n_init_finish && sn.strict) { s->initializing_throw = true; sn.lost = true; }
        if (!sn.rec->n_init_finish) sn.lost = true;
        throw std::runtime_error("no luck");
    }
    auto sp = std::make_shared<spec_t>();
    bool hold_init = g.chance(0.2), fail_init = op && M->budget > 0 && g.chance(0.12), die_init = op && M->budget > 0 && g.chance(0.08);
    if (fail_init || die_init) M->budget--;
    bool acquired = false;
    sp->configure = [=](r::actor_base_t &a, r::plugin::plugin_base_t &p) mutable {
        if (!i->rec) { i->rec = W->rec(&a); i->rec->user = i; }
        p.with_casted<r::plugin::address_maker_plugin_t>([&](auto &p) { p.set_identity(i->rec->name, false); });
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &p) {
            if (acquired || (!hold_init && !fail_init && !die_init)) return;
            acquired = true; i->held++; p.acquire(0);
            tracef("%s acquires%s%s", i->rec->name.c_str(), fail_init ? ", to fail" : "", die_init ? ", to die" : "");
            if (die_init) M->w.after(M->w.rng.range(0, 2000), i->rec->loc, [i] { if (i->gone() || i->rec->n_shut_start) return; tracef("%s ends in initialization", i->rec->name.c_str()); i->told = true; i->rec->actor->do_shutdown(M->w.rng.chance(0.5) ? r::extended_error_ptr_t{} : r::make_error("died young", std::make_error_code(std::errc::io_error))); });
            release(i, M->w.rng.range(0, 3000) + (fail_init ? 30000 : die_init ? 5000 : 0));
        });
    };
    sp->on_start = [i, s, &g](r::actor_base_t &) {
        if (s->sup->sync && !s->sup->rec->n_init_finish) violate("P07", "%s is started before its supervisor is initialized", i->rec->name.c_str());
        if (g.chance(0.4)) end(i);
        else M->w.after(g.range(0, 40000), i->rec->loc, [i] { end(i); });
    };
    sp->on_shutdown_start = [i, &g](r::actor_base_t &a) {
        if (!g.chance(0.3)) return;
        i->held++;
        (i->rec->is_sup ? static_cast<sup_t &>(a).res() : static_cast<act_t &>(a).res())->acquire(0);
        release(i, g.range(0, 20000));
    };
    sp->should_restart = [i, s, &g](r::actor_base_t &) {
        if (s->policy != r::restart_policy_t::ask_actor) violate("P10", "spawner %d (%s) asks the instance", s->no, pname(s->policy));
        if (!i->rec->n_shut_finish) violate("P10", "spawner %d asks an instance, which is not down", s->no);
        i->asked++; i->again = g.chance(0.8); return i->again;
    };
    auto &host = static_cast<sup_t &>(sup);
    auto it = us(fail_init ? g.range(500, 20000) : 50000000), st = us(100000000);
    if (s->kind == 0) return host.create_actor<act_t>().init_timeout(it).shutdown_timeout(st).spec(sp).spawner_address(addr).finish();
    auto b = host.create_actor<sup_t>().init_timeout(it).shutdown_timeout(st).spec(sp).spawner_address(addr).policy(r::supervisor_policy_t::shutdown_failed);
    r::supervisor_ptr_t p = s->kind == 1 ? std::move(b).finish() : std::move(b).loc(M->w.new_loc()).finish();
    M->w.keep.push_back(p);
    return p;
}
static void launch(sn_t *n) {
    auto &m = *M; auto &g = m.w.rng;
    if (n->gone()) return;
    m.spawners.emplace_back(new spawn_t); auto s = m.spawners.back().get();
    s->no = int(m.spawners.size()); s->sup = n;
    s->policy = r::restart_policy_t(g.range(0, 4));
    s->max = g.chance(0.4) ? 0 : g.range(1, 4);
    s->period = g.chance(0.25) ? 0 : g.range(1, 60000);
    s->escalate = g.chance(0.35); s->kind = g.chance(0.7) ? 0 : g.range(1, 2);
    s->v_spawn = virtual_now; s->t_spawn = now();
    n->spawners.push_back(s);
    tracef("%s gets spawner %d (%s, max %d, %d us%s)", n->rec->name.c_str(), s->no, pname(s->policy), int(s->max), int(s->period), s->escalate ? ", escalate" : "");
    count(fmt("spawners, %s", pname(s->policy)));
    auto f = [s](r::supervisor_t &sup, const r::address_ptr_t &a) { return make_instance(s, sup, a); };
    static_cast<sup_t *>(n->rec->actor)->spawn(f).restart_period(us(s->period)).restart_policy(s->policy).max_attempts(s->max).escalate_failure(s->escalate).spawn();
}
static sn_t *make_sup(sn_t *parent) {
    auto &m = *M; auto &g = m.w.rng;
    m.sups.emplace_back(new sn_t); auto n = m.sups.back().get();
    n->no = int(m.sups.size()); n->parent = parent; n->strict = g.chance(0.3); n->sync = g.chance(0.3);
    auto sp = std::make_shared<spec_t>();
    bool early = g.chance(0.4), at_start = g.chance(0.2), at_down = g.chance(0.05);
    bool slow = g.chance(0.2);
    sp->configure = [n, slow](r::actor_base_t &a, r::plugin::plugin_base_t &p) mutable {
        if (!n->rec) n->rec = W->rec(&a);
        p.with_casted<r::plugin::address_maker_plugin_t>([&](auto &p) { p.set_identity(n->rec->name, false); });
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &p) {
            if (!slow) return;
            slow = false; p.acquire(0);
            count("supervisors which are slow to be initialized");
            M->w.after(M->w.rng.range(0, 120000), n->rec->loc, [n] { if (n->gone() || n->rec->n_shut_finish || parents_down(n)) return; tracef("%s releases", n->rec->name.c_str()); static_cast<sup_t *>(n->rec->actor)->res()->release(0); });
        });
    };
    sp->on_init_finish = [n](r::actor_base_t &) {
        for (auto s : n->spawners) for (auto &i : s->insts) {
            if (i->threw || !i->rec) continue;
            count(i->no > 1 ? "restarts seen by the end of initialization" : "instances seen by the end of initialization");
            if (!i->rec->n_init_finish && !i->rec->n_shut_start) violate("P07", "%s is initialized before its child %s, instance %d", n->rec->name.c_str(), i->rec->name.c_str(), i->no);
        }
    };
    sp->on_created = [n, early](r::actor_base_t &) { if (early) launch(n); };
    sp->on_start = [n, at_start](r::actor_base_t &) { if (at_start) launch(n); };
    sp->on_shutdown_start = [n, at_down, &g](r::actor_base_t &a) {
        if (at_down) launch(n);
        if (!g.chance(0.3)) return; // the children are not told before
        count("supervisors which are slow to go down");
        static_cast<sup_t &>(a).res()->acquire(0);
        M->w.after(g.range(0, 60000), n->rec->loc, [n] { if (n->gone() || n->rec->n_shut_finish || parents_down(n)) return; tracef("%s releases", n->rec->name.c_str()); static_cast<sup_t *>(n->rec->actor)->res()->release(0); });
    };
    sp->on_child_shutdown = [](rec_t *c) { if (c && c->user) { auto i = static_cast<inst_t *>(c->user); i->t_removed = now(); i->v_removed = virtual_now; } };
    sp->on_child_init = [n](rec_t *, const r::extended_error_ptr_t &ec) { if (ec && !n->rec->n_init_finish) n->lost = true; };
    auto pol = n->strict ? r::supervisor_policy_t::shutdown_self : r::supervisor_policy_t::shutdown_failed;
    if (parent) {
        auto &s = *static_cast<sup_t *>(parent->rec->actor);
        auto b = s.create_actor<sup_t>().init_timeout(us(100000000)).shutdown_timeout(us(200000000)).spec(sp).policy(pol).synchronize_start(n->sync);
        m.w.keep.push_back(g.chance(0.5) ? std::move(b).loc(m.w.new_loc()).finish() : std::move(b).finish());
    } else
        m.w.keep.push_back(create_root(m.w, [&](auto &&b) { return std::move(b).init_timeout(us(300000000)).shutdown_timeout(us(300000000)).spec(sp).policy(pol).synchronize_start(n->sync); }));
    return n;
}
static bool escalated(sn_t *n) { // has it been shut down due to an escalation, legitimately?
    auto e = n->rec->first_reason;
    if (n->parent && e && e->ec == r::make_error_code(r::shutdown_code_t::supervisor_shutdown)) e = e->next;
    if (!e || e->ec != r::make_error_code(r::error_code_t::failure_escalation)) return false;
    for (auto s : n->spawners) for (auto &i : s->insts) if (!i->threw && i->rec && i->rec->first_reason && e->next == i->rec->first_reason) {
        if (!s->escalate) violate("P10", "spawner %d: a failure is escalated though it was not asked for", s->no);
        else if (i.get() != s->insts.back().get() || verdict(*s, *i) != UP) violate("P10", "spawner %d (%s): escalated though %s", s->no, pname(s->policy), i->abnormal() ? "it does not give up" : "there is no failure");
        count("escalations");
        return true;
    }
    return false;
}
static void settled(bool quiet) {
    for (auto &sp : M->spawners) {
        auto &s = *sp; auto &n = *s.sup;
        if (s.insts.empty()) { if (!n.rec->n_shut_start && !parents_down(&n)) violate("P10", "spawner %d has made no instance", s.no); continue; }
        auto &i = *s.insts.back();
        if (n.rec->n_shut_start || parents_down(&n)) continue;
        if (!i.down()) continue;
        auto v = verdict(s, i);
        if (v == YES && quiet) violate("P10", "spawner %d (%s): the instance is not restarted after %s", s.no, pname(s.policy), i.threw ? "a failure to construct" : text(i.rec->first_reason).c_str());
        if (v == UP) violate("P10", "spawner %d (%s): failure %s is not escalated", s.no, pname(s.policy), text(i.rec->first_reason).c_str());
        if (v == NO) count(fmt("given up, %s", pname(s.policy)));
        if (!i.threw && s.policy == r::restart_policy_t::ask_actor && !(s.max && s.insts.size() >= s.max) && i.asked != 1) violate("P10", "spawner %d: the instance has been asked %d times", s.no, i.asked);
    }
    for (auto &x : M->sups) {
        auto &n = *x;
        if (!n.rec || !n.rec->n_shut_start) continue;
        bool up = escalated(&n);
        bool parent = n.parent && n.parent->rec->n_shut_start;
        if (!up && !n.told && !parent && !n.lost) {
            bool young = false; // an instance was lost while the supervisor was initializing
            for (auto s : n.spawners) for (auto &i : s->insts) young |= i->rec && i->rec->n_shut_start && (!n.rec->n_init_finish || i->rec->t_shut_start < n.rec->t_init_finish);
            for (auto &c : M->sups) young |= c->parent == &n && c->rec && c->rec->n_shut_start && (!n.rec->n_init_finish || c->rec->t_shut_start < n.rec->t_init_finish);
            if (!young) violate("P10", "%s has been shut down without a cause: %s", n.rec->name.c_str(), text(n.rec->first_reason).c_str());
        }
    }
}
static void fn(world_t &w) {
    model_t m(w); M = &m;
    auto &g = w.rng;
    // the wall clock might be shifted meanwhile
    setenv("TZ", "CET-1CEST,M3.5.0,M10.5.0/3", 1);
    int shift = g.range(0, 3);
    if (shift == 1) virtual_now = 1616893200ull * 1000000 - g.range(0, 120000); // summer time begins
    if (shift == 2) virtual_now = 1635642000ull * 1000000 - g.range(0, 120000); // and ends
    m.budget = g.range(1, 14); m.throws = g.chance(0.5) ? 0 : g.range(1, 4);
    auto root = make_sup(nullptr);
    int ns = g.range(0, 2);
    for (int i = 0; i < ns; ++i) {
        auto p = g.pick(m.sups).get();
        if (p->gone()) continue;
        if (g.chance(0.5)) w.run_for(g.range(0, 1000));
        if (p->gone() || p->rec->n_shut_start || w.locs[p->rec->loc]->dead || parents_down(p)) continue;
        w.in_loc(*w.locs[p->rec->loc], [&] { make_sup(p); });
    }
    auto more = [&] { auto n = g.pick(m.sups).get(); if (n->gone() || parents_down(n) || w.locs[n->rec->loc]->dead || n->rec->n_shut_start) return; if (g.chance(0.5)) w.act(*w.locs[n->rec->loc], [&] { launch(n); }); else w.in_loc(*w.locs[n->rec->loc], [&] { launch(n); }); };
    int k = g.range(1, 4);
    for (int i = 0; i < k; ++i) { more(); if (g.chance(0.4)) w.run_for(g.range(0, 3000)); }
    auto down = [&] {
        auto n = g.pick(m.sups).get();
        if (n->gone() || parents_down(n) || w.locs[n->rec->loc]->dead) return;
        auto go = [&] { n->told = true; tracef("%s do_shutdown", n->rec->name.c_str()); n->rec->actor->do_shutdown(); };
        if (g.chance(0.5)) w.act(*w.locs[n->rec->loc], go); else w.in_loc(*w.locs[n->rec->loc], go);
    };
    if (g.chance(0.4)) w.after(g.range(0, 200000), -1, more);
    if (g.chance(0.3)) w.after(g.range(0, 200000), -1, down);
    struct guard_t { world_t &w; ~guard_t() { w.ops.clear(); w.agenda.clear(); } } gd{w};
    bool calm = g.chance(0.6);
    if (calm) { if (!w.run(60000, virtual_now + 5000000)) violate("P10", "the system does not become quiet"); settled(true); }
    else { w.run_for(g.range(0, 150000)); }
    for (int i = g.range(0, 2); i > 0; --i) { w.act(*w.locs[root->rec->loc], [&] { if (g.chance(0.3)) more(); }); w.run_for(g.range(0, 2000)); }
    m.budget = 0; m.throws = 0;
    w.act(*w.locs[root->rec->loc], [&] { if (!root->gone()) { root->told = true; tracef("root do_shutdown"); root->rec->actor->do_shutdown(); } });
    if (!w.run(60000)) violate("P10", "the system does not become quiet");
    settled(true);
    if (!root->rec->n_shut_finish) { violate("P10", "the root has not been shut down"); violate("P08", "the root has not been shut down"); }
    if (w.ctx->errors.size()) violate("P10", "an error is reported: %s", text(w.ctx->errors[0].second).c_str());
    w.check_lifecycle();
    w.finish();
    M = nullptr;
}
static workload_reg r1("spawn", [](world_t &w) { fn(w); });
} }
