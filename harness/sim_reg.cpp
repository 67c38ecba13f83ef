// The registry of names (P12; P06 P08 P11 P15 on the way).
// A reference map is maintained in the order, in which the registry handles its messages; clients speak the protocol on
// their own ("raw") or let the framework register and discover names on their behalf.
#include "sim.hpp"
#include <algorithm>

namespace sim { namespace rgs {
enum { LEVELS = 3, PER_LEVEL = 3 };
struct nd_t;
using key_t = std::pair<const void *, r::request_id_t>;
enum kind_t { REG, DISC, PROM };
struct expect_t { kind_t kind; std::string name; r::address_ptr_t addr; bool ok = false, answered = false; int code = 0; nd_t *who = nullptr; int seen = 0; };
struct span_t { r::address_ptr_t addr; uint64_t from, to; nd_t *who; };
struct disc_t { std::string name; bool delayed, link, oper; r::address_ptr_t addr; int n_disc = 0, n_link = 0; bool link_failed = false; uint64_t t_asked = 0; };
struct nd_t {
    int no = 0; rec_t *rec = nullptr; nd_t *parent = nullptr; bool sup = false, raw = false, configured = false, told = false;
    r::address_ptr_t addr, extra; int level = 0;
    std::vector<std::pair<std::string, bool>> regs; // name, extra address
    std::vector<std::unique_ptr<disc_t>> discs;
    bool hold = false; int held = 0; bool refused = false, unknown = false; int accepted = 0;
    bool init_failed = false; r::extended_error_ptr_t init_ee;
    vtime_t init_to = 0;
    std::map<key_t, std::string> sent; // raw: outstanding
    bool gone() const { return !rec || !rec->actor; }
};
struct raw_t : act_t {
    using act_t::act_t;
    nd_t *n = nullptr;
    void on_reg(r::message::registration_response_t &m) noexcept;
    void on_disc(r::message::discovery_response_t &m) noexcept;
    void on_fut(r::message::discovery_future_t &m) noexcept;
};
struct reg_t : r::registry_t {
    using r::registry_t::registry_t;
    void on_reg(r::message::registration_request_t &m) noexcept override;
    void on_dereg(r::message::deregistration_notify_t &m) noexcept override;
    void on_dereg_service(r::message::deregistration_service_t &m) noexcept override;
    void on_discovery(r::message::discovery_request_t &m) noexcept override;
    void on_promise(r::message::discovery_promise_t &m) noexcept override;
    void on_cancel(r::message::discovery_cancel_t &m) noexcept override;
    void shutdown_start() noexcept override;
    void shutdown_finish() noexcept override;
    r::state_t get_state() { return state; }
};
struct model_t {
    world_t &w; std::vector<std::unique_ptr<nd_t>> nodes;
    r::intrusive_ptr_t<reg_t> reg; r::address_ptr_t reg_addr; int reg_loc = 0; bool reg_down = false, reg_told = false, reg_gone = false, root_told = false; bool strict = true, probing = false, dense = false; // dense: chatty raw clients, which share a few names
    std::map<std::string, std::pair<r::address_ptr_t, nd_t *>> map; // name -> address, registrant
    std::map<std::string, std::vector<span_t>> history;
    std::map<std::string, int> asked; std::map<const void *, int> asked_addr; // withdrawals by raw clients on the way
    std::map<key_t, expect_t> exp; std::vector<key_t> pending; // deferred discoveries
    explicit model_t(world_t &w_) : w(w_) {}
};
static model_t *M;
static uint64_t now() { return ++W->stamp; }
static nd_t *owner(const r::address_ptr_t &a) { for (auto &n : M->nodes) if (n->addr == a || n->extra == a) return n.get(); return nullptr; }
static std::string nm(nd_t *n) { return n && n->rec ? n->rec->name : "?"; }
static std::string text(const r::extended_error_ptr_t &e) { return e ? e->message() : "-"; }
static bool parents_down(nd_t *n) { for (n = n->parent; n; n = n->parent) if (n->rec->n_shut_finish) return true; return false; }
static std::string an(const r::address_ptr_t &a) { auto o = owner(a); return o ? nm(o) + (o->extra == a ? "+" : "") : "?"; }
template <class Msg> static key_t key(Msg &m) { return {m.payload.origin.get(), m.payload.id}; }
template <class Msg> static expect_t &expect(kind_t k, Msg &m) {
    auto kk = key(m);
    auto &e = M->exp[kk];
    e.kind = k; e.name = m.payload.request_payload.service_name; e.who = owner(m.payload.origin);
    return e;
}
static void unmap(const std::string &name) { auto it = M->map.find(name); if (it == M->map.end()) return; M->history[name].back().to = now(); tracef("= %s is withdrawn", name.c_str()); M->map.erase(it); }
void reg_t::on_reg(r::message::registration_request_t &m) noexcept {
    auto &e = expect(REG, m); auto &name = e.name;
    e.answered = true;
    if (M->map.count(name)) { e.code = int(r::error_code_t::already_registered); if (e.who) e.who->refused = true; count("registrations refused"); tracef("= %s refused to %s", name.c_str(), nm(e.who).c_str()); }
    else {
        e.ok = true; auto a = m.payload.request_payload.service_addr;
        if (e.who) e.who->accepted++;
        M->map[name] = {a, e.who}; M->history[name].push_back({a, now(), ~uint64_t(0), e.who}); count("registrations accepted"); tracef("= %s -> %s by %s", name.c_str(), an(a).c_str(), nm(e.who).c_str());
        for (size_t i = 0; i < M->pending.size();) { auto &p = M->exp[M->pending[i]]; if (p.name == name) { p.ok = p.answered = true; p.addr = a; M->pending.erase(M->pending.begin() + i); count("deferred discoveries fulfilled"); } else ++i; }
    }
    r::registry_t::on_reg(m);
}
void reg_t::on_dereg(r::message::deregistration_notify_t &m) noexcept {
    auto &asked = M->asked_addr[m.payload.service_addr.get()];
    if (asked) --asked;
    else { auto o = owner(m.payload.service_addr); if (o && !o->rec->n_shut_start) violate("P12", "names of %s are withdrawn, though it neither asked nor shuts down", nm(o).c_str()); count("withdrawals by the framework"); }
    std::vector<std::string> names; for (auto &x : M->map) if (x.second.first == m.payload.service_addr) names.push_back(x.first);
    for (auto &n : names) unmap(n);
    count("withdrawals by address");
    r::registry_t::on_dereg(m);
}
void reg_t::on_dereg_service(r::message::deregistration_service_t &m) noexcept {
    auto &name = m.payload.service_name; auto &asked = M->asked[name];
    if (asked) --asked;
    else {
        bool ok = false; for (auto &x : M->history[name]) ok |= x.who && x.who->rec->n_shut_start;
        if (!ok) violate("P12", "%s is withdrawn on behalf of nobody who had registered it and shuts down", name.c_str());
        count("withdrawals by the framework");
    }
    unmap(m.payload.service_name); count("withdrawals by name"); r::registry_t::on_dereg_service(m);
}
void reg_t::on_discovery(r::message::discovery_request_t &m) noexcept {
    auto &e = expect(DISC, m); e.answered = true;
    auto it = M->map.find(e.name);
    if (it != M->map.end()) { e.ok = true; e.addr = it->second.first; } else { e.code = int(r::error_code_t::unknown_service); if (e.who) e.who->unknown = true; }
    count(e.ok ? "discoveries of known" : "discoveries of unknown");
    r::registry_t::on_discovery(m);
}
void reg_t::on_promise(r::message::discovery_promise_t &m) noexcept {
    auto &e = expect(PROM, m);
    auto it = M->map.find(e.name);
    if (it != M->map.end()) { e.ok = e.answered = true; e.addr = it->second.first; } else { M->pending.push_back(key(m)); count("discoveries deferred"); }
    r::registry_t::on_promise(m);
}
void reg_t::on_cancel(r::message::discovery_cancel_t &m) noexcept {
    key_t k{m.payload.source.get(), m.payload.id};
    auto it = std::find(M->pending.begin(), M->pending.end(), k);
    if (it != M->pending.end()) { auto &e = M->exp[k]; e.answered = true; e.code = int(r::error_code_t::cancelled); M->pending.erase(it); count("deferred discoveries cancelled"); }
    r::registry_t::on_cancel(m);
}
void reg_t::shutdown_start() noexcept { M->reg_down = true; tracef("registry shutdown_start"); r::registry_t::shutdown_start(); }
void reg_t::shutdown_finish() noexcept {
    r::registry_t::shutdown_finish(); tracef("registry shutdown_finish"); M->reg_gone = true;
}
static void judge(nd_t *n, key_t k, kind_t kind, const r::extended_error_ptr_t &ee, const r::address_ptr_t &addr) {
    if (!n->sent.count(k)) { violate("P12", "%s: answer to an unknown request", nm(n).c_str()); return; }
    auto name = n->sent[k]; n->sent.erase(k);
    tracef("%s: answer about %s: %s", nm(n).c_str(), name.c_str(), ee ? ee->message().c_str() : addr ? an(addr).c_str() : "ok");
    bool timeout = ee && ee->ec == r::make_error_code(r::error_code_t::request_timeout);
    if (timeout) return; // judged at quiescence, if premature
    auto it = M->exp.find(k);
    if (it == M->exp.end() || !it->second.answered) { violate("P12", "%s: answer about %s comes from nowhere", nm(n).c_str(), name.c_str()); return; }
    auto &e = it->second;
    if (e.kind != kind || e.name != name) violate("P12", "%s: answer to another request", nm(n).c_str());
    if (e.seen++) violate("P12", "%s: second answer about %s", nm(n).c_str(), name.c_str());
    if (e.ok != !ee) violate("P12", "%s: answer about %s is %s instead of %s", nm(n).c_str(), name.c_str(), text(ee).c_str(), e.ok ? "success" : "an error");
    else if (ee && ee->ec != r::make_error_code(r::error_code_t(e.code))) violate("P12", "%s: answer about %s is %s", nm(n).c_str(), name.c_str(), text(ee).c_str());
    else if (!ee && kind != REG && addr != e.addr) violate("P12", "%s: %s is discovered at %s instead of %s", nm(n).c_str(), name.c_str(), an(addr).c_str(), an(e.addr).c_str());
    count("answers checked");
}
void raw_t::on_reg(r::message::registration_response_t &m) noexcept { judge(n, key(*m.payload.req), REG, m.payload.ee, {}); }
void raw_t::on_disc(r::message::discovery_response_t &m) noexcept { judge(n, key(*m.payload.req), DISC, m.payload.ee, m.payload.ee ? r::address_ptr_t{} : m.payload.res.service_addr); }
void raw_t::on_fut(r::message::discovery_future_t &m) noexcept { judge(n, key(*m.payload.req), PROM, m.payload.ee, m.payload.ee ? r::address_ptr_t{} : m.payload.res.service_addr); }

static std::string any_name() { auto &g = M->w.rng; if (M->dense) return fmt("n0%d", g.range(0, PER_LEVEL - 1)); return fmt("n%d%d", g.range(0, LEVELS - 1), g.range(0, PER_LEVEL - 1)); }
static void raw_step(nd_t *n) {
    auto &g = M->w.rng; auto a = static_cast<raw_t *>(n->rec->actor);
    auto name = any_name();
    auto to = us(M->strict || g.chance(0.7) ? 50000000 : g.range(1000, 50000));
    auto &reg = M->reg_addr; auto self = a->get_address();
    auto put = [&](r::request_id_t id) { n->sent[{self.get(), id}] = name; };
    static const int dense[] = {0, 0, 0, 0, 2, 3, 5, 5, 6, 7};
    switch (M->dense ? dense[g.below(10)] : g.range(0, 7)) {
    case 0: case 1: { auto ad = g.chance(0.8) ? n->addr : n->extra; tracef("%s registers %s", nm(n).c_str(), name.c_str()); put(a->request<r::payload::registration_request_t>(reg, name, ad).send(to)); break; }
    case 2: tracef("%s discovers %s", nm(n).c_str(), name.c_str()); put(a->request<r::payload::discovery_request_t>(reg, name).send(to)); break;
    case 3: case 4: { tracef("%s discovers %s, deferred", nm(n).c_str(), name.c_str()); auto id = a->request<r::payload::discovery_promise_t>(reg, name).send(to); put(id); if (g.chance(0.2)) a->send<r::message::discovery_cancel_t::payload_t>(reg, id, self); break; }
    case 5: tracef("%s withdraws %s", nm(n).c_str(), name.c_str()); M->asked[name]++; a->send<r::payload::deregistration_service_t>(reg, name); break;
    case 6: tracef("%s withdraws all", nm(n).c_str()); { auto ad = g.chance(0.8) ? n->addr : n->extra; M->asked_addr[ad.get()]++; a->send<r::payload::deregistration_notify_t>(reg, ad); } break;
    case 7: if (n->sent.size()) { auto it = n->sent.begin(); std::advance(it, g.below(n->sent.size())); tracef("%s cancels discovery of %s", nm(n).c_str(), it->second.c_str()); a->send<r::message::discovery_cancel_t::payload_t>(reg, it->first.second, self); } break;
    }
    count("raw steps");
}
static std::vector<nd_t *> alive_sups() { std::vector<nd_t *> v; for (auto &x : M->nodes) if (x->sup && !x->gone() && !x->rec->n_shut_start && !parents_down(x.get()) && !M->w.locs[x->rec->loc]->dead) v.push_back(x.get()); return v; }
static nd_t *make(nd_t *parent, int kind) { // 0 client, 1 supervisor, 2 raw
    auto &m = *M; auto &g = m.w.rng;
    m.nodes.emplace_back(new nd_t); auto n = m.nodes.back().get();
    n->no = int(m.nodes.size()); n->parent = parent; n->sup = kind == 1; n->raw = kind == 2;
    n->init_to = m.strict || m.probing || g.chance(0.6) ? 20000000 : g.range(1000, 60000);
    n->level = kind == 1 ? 0 : g.range(0, LEVELS - 1);
    bool extra = g.chance(0.2);
    if (parent && !n->raw) {
        int k = kind == 1 ? g.range(0, 1) : g.range(0, 2);
        while (k-- > 0) { auto name = fmt("n%d%d", n->level, g.range(0, PER_LEVEL - 1)); bool dup = false; for (auto &x : n->regs) dup |= x.first == name; if (!dup) n->regs.emplace_back(name, extra && g.chance(0.5)); }
        k = n->level ? g.range(0, 3) : 0;
        while (k-- > 0) {
            auto name = fmt("n%d%d", g.range(0, n->level - 1), g.range(0, PER_LEVEL - 1));
            bool dup = false; for (auto &x : n->discs) dup |= x->name == name;
            if (dup || (m.strict && !m.map.count(name) && g.chance(0.7))) continue;
            n->discs.emplace_back(new disc_t{name, g.chance(0.6), g.chance(0.7), false, {}});
            auto &d = *n->discs.back();
            d.oper = d.link && name[1] != '0' && g.chance(0.5);
        }
    }
    bool cb = g.chance(0.8);
    bool acquired = false;
    auto sp = std::make_shared<spec_t>();
    sp->configure = [n, cb, acquired, &g](r::actor_base_t &a, r::plugin::plugin_base_t &p) mutable {
        if (!n->rec) { n->rec = W->rec(&a); n->rec->user = n; }
        p.with_casted<r::plugin::address_maker_plugin_t>([&](auto &p) { p.set_identity(n->rec->name, false); });
        p.with_casted<r::plugin::registry_plugin_t>([&](auto &p) {
            if (n->configured || n->raw) return;
            n->configured = true;
            for (auto &[name, ex] : n->regs) {
                if (ex && !n->extra) n->extra = n->sup ? static_cast<sup_t &>(a).new_address() : static_cast<act_t &>(a).new_address();
                tracef("%s is going to register %s", nm(n).c_str(), name.c_str());
                p.register_name(name, ex ? n->extra : n->addr ? n->addr : a.get_address());
            }
            for (auto &dp : n->discs) {
                auto d = dp.get(); d->t_asked = now();
                tracef("%s is going to discover %s%s%s", nm(n).c_str(), d->name.c_str(), d->delayed ? ", deferred" : "", d->oper ? ", operational" : "");
                auto &task = p.discover_name(d->name, d->addr, d->delayed);
                if (d->link) task.link(d->oper);
                if (cb) task.callback([n, d](auto phase, const r::extended_error_ptr_t &ee) {
                    using phase_t = r::plugin::registry_plugin_t::phase_t;
                    tracef("%s: %s %s: %s", nm(n).c_str(), d->name.c_str(), phase == phase_t::discovering ? "discovered" : "linked", ee ? ee->message().c_str() : an(d->addr).c_str());
                    if (phase == phase_t::discovering) { if (d->n_disc++) violate("P12", "%s is told twice that %s is discovered", nm(n).c_str(), d->name.c_str()); }
                    else { if (d->n_link++) violate("P12", "%s is told twice that %s is linked", nm(n).c_str(), d->name.c_str()); if (!d->n_disc) violate("P12", "%s is linked to %s before it is discovered", nm(n).c_str(), d->name.c_str()); d->link_failed = bool(ee); }
                    if (n->rec->n_init_finish) violate("P12", "%s: progress of the discovery of %s after the initialization", nm(n).c_str(), d->name.c_str());
                    bool was = false;
                    for (auto &h : M->history[d->name]) was |= h.addr == d->addr && h.to > d->t_asked;
                    if (!was) violate("P12", "%s: %s is discovered at %s, where it was never registered", nm(n).c_str(), d->name.c_str(), an(d->addr).c_str());
                    count("discoveries by the framework");
                });
            }
        });
        if (n->raw) p.with_casted<r::plugin::starter_plugin_t>([&](auto &p) {
            auto &x = static_cast<raw_t &>(a); x.n = n;
            if (!n->extra) n->extra = x.new_address();
            p.subscribe_actor(&raw_t::on_reg); p.subscribe_actor(&raw_t::on_disc); p.subscribe_actor(&raw_t::on_fut);
        });
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &p) {
            if (acquired || M->probing || !g.chance(0.15)) return;
            acquired = true; n->held++; p.acquire(0);
            M->w.after(g.range(0, 5000), n->rec->loc, [n] { if (n->gone() || n->rec->n_shut_finish || !n->held || parents_down(n)) return; n->held--; auto a = n->rec->actor; (n->rec->is_sup ? static_cast<sup_t *>(a)->res() : static_cast<act_t *>(a)->res())->release(0); });
        });
    };
    sp->on_init_finish = [n](r::actor_base_t &) {
        if (n->raw || !n->parent) return;
        if (n->refused) violate("P12", "%s is initialized though it failed to register a name", nm(n).c_str());
        if (n->unknown) violate("P12", "%s is initialized though it failed to discover a name", nm(n).c_str());
        if (n->accepted != int(n->regs.size())) violate("P12", "%s is initialized though %d of %d names are registered", nm(n).c_str(), n->accepted, int(n->regs.size()));
        for (auto &d : n->discs) {
            if (!d->addr) violate("P12", "%s is initialized though %s is not discovered", nm(n).c_str(), d->name.c_str());
            if (d->link_failed) violate("P12", "%s is initialized though it is not linked with %s", nm(n).c_str(), d->name.c_str());
            if (d->n_disc && d->link && !d->n_link) violate("P12", "%s is initialized though it is not linked with %s yet", nm(n).c_str(), d->name.c_str());
            bool was = false; for (auto &h : M->history[d->name]) was |= h.addr == d->addr && h.to > d->t_asked;
            if (d->addr && !was) violate("P12", "%s: %s is discovered at %s, where it was never registered", nm(n).c_str(), d->name.c_str(), an(d->addr).c_str());
        }
        if (n->regs.size() || n->discs.size()) count("clients initialized");
    };
    sp->on_child_init = [](rec_t *c, const r::extended_error_ptr_t &ee) { if (c && c->user && ee) { auto n = static_cast<nd_t *>(c->user); n->init_failed = true; n->init_ee = ee; } };
    auto it = us(n->init_to), st = us(100000000);
    auto pol = r::supervisor_policy_t::shutdown_failed;
    if (parent) {
        auto &s = *static_cast<sup_t *>(parent->rec->actor);
        if (kind == 0) s.create_actor<act_t>().init_timeout(it).shutdown_timeout(st).spec(sp).finish();
        else if (kind == 2) s.create_actor<raw_t>().init_timeout(it).shutdown_timeout(st).spec(sp).finish();
        else {
            auto b = s.create_actor<sup_t>().init_timeout(us(n->init_to * 3)).shutdown_timeout(us(200000000)).spec(sp).policy(pol).registry_address(m.reg_addr);
            m.w.keep.push_back(g.chance(0.6) ? std::move(b).loc(m.w.new_loc()).finish() : std::move(b).finish());
        }
    } else m.w.keep.push_back(create_root(m.w, [&](auto &&b) { return std::move(b).init_timeout(us(300000000)).shutdown_timeout(us(400000000)).spec(sp).policy(pol); }));
    n->addr = n->rec->actor->get_address();
    return n;
}
// might the initialization of the client wait (or fail by timeout) legitimately?
static bool excusable(nd_t *n) {
    for (auto &k : M->pending) if (M->exp[k].who == n) return true;
    for (auto &d : n->discs) {
        if (!d->addr) continue;
        auto o = owner(d->addr);
        if (!o || d->addr == o->extra || o->rec->n_shut_start || !o->rec->n_init_start || (d->oper && !o->rec->n_start)) return true;
    }
    if (n->sup) for (auto &x : M->nodes) if (x->parent == n && !x->gone() && !x->rec->n_shut_start && !x->rec->n_init_finish && excusable(x.get())) return true;
    return false;
}
static void settled(bool late) {
    for (auto &x : M->nodes) {
        auto n = x.get();
        if (!n->rec || !n->parent) continue;
        if (n->gone() || n->rec->n_shut_finish) {
            if (!M->reg_told && !M->reg_down) for (auto &e : M->map) if (e.second.second == n && !n->raw) violate("P12", "%s is down, but its name %s is still registered", nm(n).c_str(), e.first.c_str());
            continue;
        }
        if (parents_down(n)) continue;
        if (n->rec->n_shut_start && M->strict && (late || !(M->reg_told || M->reg_down))) { // a cancellation might wait for the dead registry until timeout
            violate("P12", "shutdown of %s does not complete", nm(n).c_str()); violate("P08", "shutdown of %s does not complete", nm(n).c_str()); }
        bool stuck = n->rec->n_init_start && !n->rec->n_init_finish && !n->rec->n_shut_start;
        if (stuck && M->strict && !late && !excusable(n) && !M->reg_down && !M->reg_told) violate("P12", "initialization of %s does not complete", nm(n).c_str());
        if (stuck && late) violate("P12", "initialization of %s neither completes nor fails", nm(n).c_str());
        if (n->raw && M->strict && !M->reg_down && !M->reg_told) for (auto &s : n->sent) {
            bool pend = false; for (auto &k : M->pending) pend |= k == s.first;
            if (!pend) violate("P12", "%s: no answer about %s", nm(n).c_str(), s.second.c_str());
        }
    }
}
static void fn(world_t &w) {
    model_t m(w); M = &m;
    auto &g = w.rng;
    m.strict = g.chance(0.75);
    m.dense = g.chance(0.25);
    if (m.dense) count("dense cases");
    auto root = make(nullptr, 1);
    auto rs = static_cast<sup_t *>(root->rec->actor);
    nd_t *host = root;
    if (g.chance(0.3)) { w.in_loc(*w.locs[root->rec->loc], [&] { // the registry in another loop; created before there is any address to inject
        host = make(root, 1); }); rs = static_cast<sup_t *>(host->rec->actor); }
    host->configured = true; host->regs.clear(); host->discs.clear();
    m.reg_loc = host->rec->loc;
    w.in_loc(*w.locs[host->rec->loc], [&] { m.reg = rs->create_actor<reg_t>().init_timeout(us(20000000)).shutdown_timeout(us(100000000)).finish(); m.reg_addr = m.reg->get_address(); });
    root->configured = true;
    if (g.chance(0.7)) w.run_for(g.range(0, 5000));
    auto grow = [&] {
        auto v = alive_sups();
        v.erase(std::remove_if(v.begin(), v.end(), [&](nd_t *n) { return n == root || n == host; }), v.end());
        nd_t *s = nullptr; int kind = 0;
        if (v.empty() || g.chance(0.2)) { s = g.chance(0.5) ? root : host; kind = 1; if (s->gone() || s->rec->n_shut_start || w.locs[s->rec->loc]->dead) return; }
        else { s = g.pick(v); kind = g.chance(0.15) ? 1 : g.chance(m.dense ? 0.8 : 0.3) ? 2 : 0; }
        if (g.chance(0.5)) w.in_loc(*w.locs[s->rec->loc], [&] { make(s, kind); }); else w.act(*w.locs[s->rec->loc], [&] { make(s, kind); });
    };
    auto raw_op = [&] {
        if (m.root_told || m.reg_gone) return; // the address of the registry must not outlive its supervisor
        std::vector<nd_t *> v; for (auto &x : m.nodes) if (x->raw && !x->gone() && x->rec->n_start && !x->rec->n_shut_start && !parents_down(x.get()) && !w.locs[x->rec->loc]->dead) v.push_back(x.get());
        if (v.empty()) return;
        auto n = g.pick(v); int k = g.range(1, m.dense ? 8 : 3);
        w.act(*w.locs[n->rec->loc], [&] { while (k-- > 0) raw_step(n); });
    };
    auto down_op = [&] {
        for (int i = 0; i < 10; ++i) {
            auto x = g.pick(m.nodes).get();
            if (x->gone() || !x->parent || x == host || parents_down(x) || w.locs[x->rec->loc]->dead) continue;
            auto go = [&] { x->told = true; tracef("%s do_shutdown", nm(x).c_str()); x->rec->actor->do_shutdown(); };
            if (g.chance(0.5)) w.act(*w.locs[x->rec->loc], go); else w.in_loc(*w.locs[x->rec->loc], go);
            return;
        }
    };
    auto any = [&] { int k = g.range(0, 19); if (k < 7) { if (m.nodes.size() < 18) grow(); } else if (k < 14) raw_op(); else down_op(); };
    int n = g.range(3, 9);
    for (int i = 0; i < n; ++i) { grow(); if (g.chance(0.4)) w.run_for(g.range(0, 2000)); }
    int nops = g.range(0, m.dense ? 50 : 25);
    for (int i = 0; i < nops; ++i) { if (g.chance(0.3)) w.ops.push_back(any); else w.after(g.range(0, 60000), -1, any); }
    struct guard_t { world_t &w; ~guard_t() { w.ops.clear(); w.agenda.clear(); } } gd{w};
    auto reg_off = [&] { if (m.reg_gone || m.root_told) return; m.reg_told = true; tracef("registry do_shutdown"); w.act(*w.locs[m.reg_loc], [&] { m.reg->do_shutdown(); }); };
    if (g.chance(0.1)) w.after(g.range(0, 80000), -1, reg_off);
    if (!w.run(60000, virtual_now + 3000000)) violate("P12", "the system does not become quiet");
    settled(false);
    // the content of the registry, black-box
    bool probe = !m.reg_told && !m.reg_down && !host->gone() && !host->rec->n_shut_start;
    if (probe) {
        nd_t *pr = nullptr;
        w.act(*w.locs[host->rec->loc], [&] { m.probing = true; pr = make(host, 2); });
        w.run(20000, virtual_now + 100000);
        if (!pr->rec->n_start) violate("P12", "no probe");
        else {
            w.act(*w.locs[host->rec->loc], [&] {
                auto a = static_cast<raw_t *>(pr->rec->actor);
                for (int l = 0; l < LEVELS; ++l) for (int i = 0; i < PER_LEVEL; ++i) { auto name = fmt("n%d%d", l, i); pr->sent[{a->get_address().get(), a->request<r::payload::discovery_request_t>(m.reg_addr, name).send(us(50000000))}] = name; }
            });
            if (!w.run(20000, virtual_now + 100000)) violate("P12", "the system does not become quiet");
            if (pr->sent.size()) violate("P12", "the registry does not answer");
            count("full scans");
        }
    }
    if (g.chance(0.5)) { if (!w.run(60000, virtual_now + 100000000)) violate("P12", "the system does not become quiet"); settled(true); }
    for (int i = g.range(0, 3); i > 0; --i) w.after(g.range(0, 3000), -1, down_op);
    if (g.chance(0.2)) grow();
    m.root_told = true;
    w.act(*w.locs[root->rec->loc], [&] { if (!root->gone()) { tracef("root do_shutdown"); root->rec->actor->do_shutdown(); } });
    if (!w.run(60000)) violate("P12", "the system does not become quiet");
    if (!root->rec->n_shut_finish) { violate("P12", "the root has not been shut down"); violate("P08", "the root has not been shut down"); }
    if (w.ctx->errors.size()) violate("P12", "an error is reported: %s", text(w.ctx->errors[0].second).c_str());
    for (auto &x : m.nodes) {
        if (!x->init_failed || x->raw) continue;
        auto &e = x->init_ee; bool timeout = false, refused = false, unknown = false, other = false;
        for (auto p = e; p; p = p->next) {
            timeout |= p->ec == r::make_error_code(r::error_code_t::request_timeout);
            refused |= p->ec == r::make_error_code(r::error_code_t::already_registered);
            unknown |= p->ec == r::make_error_code(r::error_code_t::unknown_service);
            other |= p->ec == r::make_error_code(r::error_code_t::actor_not_linkable) || p->ec == r::make_error_code(r::error_code_t::cancelled);
        }
        if (refused && !x->refused) violate("P12", "%s failed to initialize due to %s, but it was not refused", nm(x.get()).c_str(), text(e).c_str());
        if (unknown && !x->unknown) violate("P12", "%s failed to initialize due to %s, but all the names are known", nm(x.get()).c_str(), text(e).c_str());
        if (!timeout && !refused && !unknown && !other && !x->sup) violate("P12", "%s failed to initialize due to %s", nm(x.get()).c_str(), text(e).c_str());
        count("clients failed");
    }
    w.check_lifecycle();
    w.ops.clear(); w.agenda.clear();
    m.reg.reset(); m.reg_addr.reset();
    for (auto &x : m.nodes) { x->addr.reset(); x->extra.reset(); for (auto &d : x->discs) d->addr.reset(); }
    m.map.clear(); m.history.clear(); m.exp.clear();
    w.finish();
    M = nullptr;
}
static workload_reg r1("reg", [](world_t &w) { fn(w); });
} }
