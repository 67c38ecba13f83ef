// The simulated world and the driver of the workloads.
#include "sim.hpp"
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <iostream>
#include <sys/time.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/lsan_interface.h>
#define SIM_ASAN 1
#endif
#endif

namespace {
namespace to {
struct on_timer_trigger {};
struct inbound_queue {};
} // namespace to
} // namespace
namespace rotor {
template <>
inline auto actor_base_t::access<to::on_timer_trigger, request_id_t, bool>(request_id_t id, bool cancelled) noexcept {
    on_timer_trigger(id, cancelled);
}
template <> inline auto &supervisor_t::access<to::inbound_queue>() noexcept { return inbound_queue; }
} // namespace rotor

// the library reads the wall clock (spawner): serve virtual time
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept {
    if (tv) { tv->tv_sec = time_t(sim::virtual_now / 1000000); tv->tv_usec = suseconds_t(sim::virtual_now % 1000000); }
    return 0;
}

namespace sim {
const std::type_index user_plugin_t::class_identity = typeid(user_plugin_t);
world_t *W = nullptr;
vtime_t virtual_now = 1600000000ull * 1000000;

void ctx_t::on_error(r::actor_base_t *a, const r::extended_error_ptr_t &e) noexcept {
    auto rec = a ? W->rec(a) : nullptr;
    errors.emplace_back(rec, e);
    tracef("context error from %s: %s", rec ? rec->name.c_str() : "-", e ? e->message().c_str() : "-");
    if (rec && e && e->root()->ec == r::make_error_code(r::error_code_t::request_timeout)) W->unanswered++;
}

world_t::world_t(uint64_t seed) : rng(seed) { W = this; util::trace_clock = (const unsigned long long *)&virtual_now; ctx = new ctx_t(); int calm = rng.range(0, 3); p_advance = calm == 0 ? 0 : calm == 1 ? 0.02 : calm == 2 ? 0.15 : 0.5; adv_max = calm == 3 ? 5000 : rng.range(10, 1000); p_jump = rng.chance(0.7) ? 0 : 0.05; p_batch = rng.chance(0.5) ? 0.3 : 0.8; poll_timers = rng.chance(0.35); inspected = rng.chance(0.4) || getenv("SIM_INSPECT"); }
world_t::~world_t() { ctx.reset(); keep.clear(); ops.clear(); agenda.clear(); W = nullptr; }

rec_t *world_t::attach(r::actor_base_t *a, const std::string &name, bool is_sup, r::supervisor_t *parent) {
    recs.emplace_back(new rec_t);
    auto p = recs.back().get();
    p->id = int(recs.size()) - 1;
    p->name = name.empty() ? fmt("%s%d", is_sup ? "S" : "a", p->id) : name;
    p->is_sup = is_sup; p->actor = a;
    p->parent = parent ? rec(parent) : nullptr;
    if (p->parent) { p->parent->children.push_back(p); if (!is_sup) p->loc = p->parent->loc; }
    by_actor[a] = p;
    live_actors++;
    tracef("created %s under %s", p->name.c_str(), p->parent ? p->parent->name.c_str() : "-");
    return p;
}

bool world_t::messages_pending() {
    for (auto &l : locs) {
        if (l->dead || !l->leader) continue;
        if (l->pending() || (l->kick && !l->leader->leader_queue().empty())) return true;
    }
    return false;
}

void world_t::run_loc(loc_t &l) {
    auto &q = l.leader->leader_queue();
    std::vector<std::pair<loc_t *, size_t>> others;
    for (auto &o : locs) if (o.get() != &l && !o->dead && o->leader) others.emplace_back(o.get(), o->leader->leader_queue().size());
    auto sups = recs.size();
    round++;
    in_loc(l, [&] {
        l.kick = false;
        size_t n = l.pending();
        if (n) {
            size_t take = rng.chance(p_batch) ? n : 1 + rng.below(n);
            while (take--) {
                std::vector<std::deque<r::message_ptr_t> *> src;
                for (auto &p : l.inbox) if (!p.second.empty()) src.push_back(&p.second);
                auto s = rng.pick(src);
                if (on_take) on_take(l, s->front());
                q.emplace_back(std::move(s->front()));
                s->pop_front();
            }
        }
        r::supervisor_ptr_t guard(l.leader); // real loops keep their supervisor while processing
        // some loops (i.e. of threads) have a look at timers after the messages are taken and before they are processed
        if (poll_timers) while (fire_one(l)) if (!q.empty()) count("timers fired before the pending messages");
        l.leader->do_process();
    });
    if (recs.size() == sups)
        for (auto &[o, n] : others)
            if (!o->dead && o->leader->leader_queue().size() != n)
                { violate("P16", "loop %d touched the private queue of loop %d", l.id, o->id); violate("P01", "loop %d touched the private queue of loop %d", l.id, o->id); }
}

bool world_t::fire_one(loc_t &l) {
    if (l.timers.empty() || l.timers.front().deadline > virtual_now) return false;
    auto t = l.timers.front();
    l.timers.pop_front();
    auto owner = t.handler->owner;
    r::supervisor_ptr_t guard(t.sup);
    r::actor_ptr_t guard2(owner);
    if (auto rec = this->rec(owner); rec && rec->down()) violate("P05", "%s: a timer fired after its actor was shut down", rec->name.c_str());
    if (on_fire) on_fire(t);
    owner->access<to::on_timer_trigger, r::request_id_t, bool>(t.id, false);
    if (on_fired) on_fired(t);
    return true;
}

bool world_t::fire(loc_t &l) {
    if (l.timers.empty() || l.timers.front().deadline > virtual_now) return false;
    round++;
    in_loc(l, [&] {
        r::supervisor_ptr_t guard(l.timers.front().sup), guard2(l.leader);
        auto sup = l.timers.front().sup;
        fire_one(l);
        if (poll_timers) { while (fire_one(l)); sup = l.leader; }
        sup->do_process();
    });
    return true;
}

bool world_t::step() {
    enum { LOC, TIMER, OP, AGENDA, ADVANCE };
    std::vector<std::pair<int, loc_t *>> c;
    bool timers = false;
    for (auto &l : locs) {
        if (l->dead || !l->leader) continue;
        if (l->pending() || (l->kick && !l->leader->leader_queue().empty())) c.emplace_back(LOC, l.get());
        if (!l->timers.empty()) {
            timers = true;
            if (l->timers.front().deadline <= virtual_now) c.emplace_back(TIMER, l.get());
        }
    }
    if (!agenda.empty()) { timers = true; if (agenda.begin()->first <= virtual_now) c.emplace_back(AGENDA, nullptr); }
    if (next_op < ops.size() && (c.empty() || rng.chance(p_op))) {
        steps++;
        auto op = std::move(ops[next_op++]);
        op();
        return true;
    }
    bool c_was_empty = c.empty();
    if (timers && (c.empty() || rng.chance(p_advance))) c.assign(1, {ADVANCE, nullptr});
    if (c.empty()) return false;
    steps++;
    auto [what, l] = rng.pick(c);
    if (what == LOC) run_loc(*l);
    else if (what == TIMER) fire(*l);
    else if (what == AGENDA) {
        auto e = std::move(agenda.begin()->second);
        agenda.erase(agenda.begin());
        if (e.first < 0) e.second(); else act(*locs[e.first], e.second);
    } else {
        vtime_t next = next_event();
        if (!c_was_empty && !rng.chance(p_jump)) virtual_now += 1 + rng.below(adv_max);
        else if (next <= virtual_now) virtual_now += 1 + rng.below(1000);
        else if (!c_was_empty) virtual_now = std::min(next, virtual_now + 50000); // a loop might be late, but not forever
        else if (!slow() || rng.chance(0.5)) virtual_now = next;
        else if (rng.chance(0.5)) virtual_now += 1 + rng.below(next - virtual_now);
        else virtual_now = next + rng.below(3000);
    }
    return true;
}

vtime_t world_t::next_event() {
    vtime_t next = ~vtime_t(0);
    for (auto &x : locs) if (!x->dead && !x->timers.empty()) next = std::min(next, x->timers.front().deadline);
    if (!agenda.empty()) next = std::min(next, agenda.begin()->first);
    return next;
}

bool world_t::run(size_t max_steps, vtime_t horizon) {
    for (size_t i = 0; i < max_steps; ++i) {
        if (!messages_pending() && next_op >= ops.size()) {
            vtime_t next = next_event();
            if (next == ~vtime_t(0) || next > horizon) {
                if (horizon != ~vtime_t(0) && virtual_now < horizon) virtual_now = horizon;
                return true;
            }
        }
        if (!step()) return true;
    }
    return false;
}

void world_t::post(r::message_ptr_t m) {
    int old = cur_loc;
    cur_loc = -1;
    auto &sup = m->address->supervisor;
    sup.enqueue(std::move(m));
    cur_loc = old;
}

void world_t::check_lifecycle() {
    for (auto &p : recs) {
        auto &c = *p;
        if (!c.n_shut_finish) { violate("P08", "%s has not been shut down though the root is", c.name.c_str()); violate("P06", "%s has not been shut down though the root is", c.name.c_str()); continue; }
        if (c.parent && c.parent->n_shut_finish && c.t_shut_finish > c.parent->t_shut_finish && !unanswered)
            violate("P08", "%s finished its shutdown after its supervisor %s", c.name.c_str(), c.parent->name.c_str());
        if (c.n_start && c.parent && c.parent->n_shut_finish && c.t_start > c.parent->t_shut_finish && !unanswered)
            violate("P08", "%s started after its supervisor %s was shut down", c.name.c_str(), c.parent->name.c_str());
    }
    for (auto &l : locs)
        for (auto &t : l->timers) { (void)t; violate("P05", "a timer survives the shutdown of the system"); }
}

void world_t::finish() {
    ops.clear(); next_op = 0; agenda.clear();
    for (auto &l : locs) {
        for (auto &p : l->inbox)
            for (auto &m : p.second)
                if (l->leader && !l->dead) { auto &q = static_cast<r::supervisor_t *>(l->leader)->access<to::inbound_queue>(); q.push(m.detach()); }
        l->inbox.clear();
    }
    // members that do not confirm their shutdown are lost, by the contract
    for (auto &p : recs)
        if (p->actor && p->stuck) { if (p->is_sup) static_cast<sup_t *>(p->actor)->force_cleanup(); else static_cast<act_t *>(p->actor)->force_cleanup(); count("members never shut down"); }
    keep.clear();
    ctx.reset();
    if (live_actors) {
        std::string who;
        for (auto &p : recs) if (p->actor) who += " " + p->name;
        violate("P15", "%d actor(s) not destroyed after the system was dropped:%s", live_actors, who.c_str());
    }
}

// ---- supervisor ----------------------------------------------------------------------------
sup_t::sup_t(sup_cfg_t &cfg) : probe_t<sup_base_t>(cfg, true) {
    loc = cfg.loc ? cfg.loc : cfg.supervisor ? static_cast<sup_t *>(cfg.supervisor)->loc : W->new_loc();
    rec->loc = loc->id;
    if (!loc->leader) { loc->leader = this; loc->kick = !cfg.supervisor; }
}
sup_t::~sup_t() {
    if (loc->leader == this) { loc->dead = true; loc->leader = nullptr; }
    for (auto it = loc->timers.begin(); it != loc->timers.end();) { if (it->sup == this) it = loc->timers.erase(it); else ++it; }
}
void sup_t::do_start_timer(const r::pt::time_duration &i, r::timer_handler_base_t &h) noexcept {
    if (W->cur_loc != loc->id) violate("P16", "a timer of loop %d was started from loop %d", loc->id, W->cur_loc);
    auto us = i.total_microseconds();
    timer_rec_t t{virtual_now + vtime_t(us > 0 ? us : 0), ++W->timer_seq, this, &h, h.request_id};
    auto &ts = loc->timers;
    auto it = ts.end();
    while (it != ts.begin()) { auto p = std::prev(it); if (p->deadline <= t.deadline) break; it = p; }
    for (auto &o : ts) if (o.id == t.id) violate("P05", "two pending timers with one identity");
    ts.insert(it, t);
}
void sup_t::do_cancel_timer(r::request_id_t id) noexcept {
    if (W->cur_loc != loc->id) violate("P16", "a timer of loop %d was cancelled from loop %d", loc->id, W->cur_loc);
    for (auto it = loc->timers.begin(); it != loc->timers.end(); ++it)
        if (it->id == id) {
            auto owner = it->handler->owner;
            if (it->sup != this) violate("P05", "a timer is cancelled via another supervisor");
            loc->timers.erase(it);
            owner->access<to::on_timer_trigger, r::request_id_t, bool>(id, true);
            return;
        }
    violate("P05", "cancel of an unknown timer");
    violate("P15", "cancel of an unknown timer");
}
void sup_t::enqueue(r::message_ptr_t m) noexcept { if (!loc->dead) loc->inbox[W->cur_loc].push_back(std::move(m)); }
void sup_t::on_child_init(r::actor_base_t *a, const r::extended_error_ptr_t &ec) noexcept {
    auto c = a ? W->rec(a) : nullptr;
    if (c) { (ec ? c->child_init_err : c->child_init_ok)++; c->t_child_init = ++W->stamp; }
    tracef("%s: child init %s %s", rec->name.c_str(), c ? c->name.c_str() : "-", ec ? ec->message().c_str() : "ok");
    if (spec->on_child_init) spec->on_child_init(c, ec);
    sup_base_t::on_child_init(a, ec);
}
void sup_t::on_child_shutdown(r::actor_base_t *a) noexcept {
    auto c = a ? W->rec(a) : nullptr;
    if (c) { c->child_shutdown++; c->t_child_shutdown = ++W->stamp; if (c->child_shutdown > 1) violate("P08", "shutdown of %s reported twice", c->name.c_str()); }
    tracef("%s: child down %s", rec->name.c_str(), c ? c->name.c_str() : "-");
    if (spec->on_child_shutdown) spec->on_child_shutdown(c);
    sup_base_t::on_child_shutdown(a);
}

static std::map<std::string, workload_fn> &registry() { static std::map<std::string, workload_fn> m; return m; }
workload_reg::workload_reg(const char *name, workload_fn f) { registry()[name] = f; }
} // namespace sim

// ---- driver --------------------------------------------------------------------------------
using namespace sim;
static uint64_t cur_case = 0;
static const char *progress_file = nullptr;
static std::string cur_workload;
static void dump_trace(const char *why) {
    static bool done = false;
    if (done) return;
    done = true;
    fprintf(stderr, "FATAL %s in workload %s case %llu\n", why, cur_workload.c_str(), (unsigned long long)cur_case);
    size_t n = R.trace.size(), from = n > 60 ? n - 60 : 0;
    if (!R.verbose) for (size_t i = from; i < n; ++i) fprintf(stderr, "  | %s\n", R.trace[i].c_str());
    fflush(stderr);
}
static void on_signal(int s) {
    dump_trace(s == SIGVTALRM ? "hang (CPU-time limit for one case)" : s == SIGABRT ? "abort" : "signal");
    if (s == SIGVTALRM) _exit(97);
    signal(s, SIG_DFL);
    raise(s);
}
static void on_death() { dump_trace("sanitizer report"); }

static std::string json(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}

int main(int argc, char **argv) {
    uint64_t seed = 1, from = 0, to = 1, leak_every = 100;
    std::string stop_prop;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--workload") cur_workload = v;
        else if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--from") from = strtoull(v.c_str(), 0, 10);
        else if (a == "--to") to = strtoull(v.c_str(), 0, 10);
        else if (a == "--verbose") R.verbose = v != "0";
        else if (a == "--progress") progress_file = argv[i + 1];
        else if (a == "--leak-every") leak_every = strtoull(v.c_str(), 0, 10);
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    auto it = sim::registry().find(cur_workload);
    if (it == sim::registry().end()) { fprintf(stderr, "unknown workload '%s'\n", cur_workload.c_str()); return 3; }
    signal(SIGABRT, on_signal); signal(SIGVTALRM, on_signal);
#ifdef SIM_ASAN
    __sanitizer_set_death_callback(on_death);
#endif
    if (!R.verbose) std::cout.setstate(std::ios_base::badbit); // the library's message dump is exercised, not shown
    int pfd = progress_file ? open(progress_file, O_WRONLY | O_CREAT | O_TRUNC, 0644) : -1;
    uint64_t hseed = seed;
    for (char c : cur_workload) hseed = hseed * 1000003 + (unsigned char)c;
    struct found_t { std::string prop, what; uint64_t c; };
    std::vector<found_t> found;
    std::map<std::string, int> per_prop;
    uint64_t batch_from = from, done = 0;
    for (cur_case = from; cur_case < to; ++cur_case) {
        if (pfd >= 0) { auto s = util::fmt("%-20llu", (unsigned long long)cur_case); (void)!pwrite(pfd, s.data(), s.size(), 0); }
        itimerval tv{{0, 0}, {30, 0}};
        setitimer(ITIMER_VIRTUAL, &tv, nullptr);
        R.begin_case();
        virtual_now = 1600000000ull * 1000000;
        {
            world_t w(hseed * 0x9E3779B97F4A7C15ull + cur_case * 0xD1B54A32D192ED03ull);
            if (w.rng.chance(0.1) || getenv("SIM_INSPECT")) setenv("ROTOR_INSPECT_DELIVERY", "99", 1); else unsetenv("ROTOR_INSPECT_DELIVERY");
            it->second(w);
            count("steps", w.steps);
            count("actors", w.recs.size());
        }
        done++;
        R.distinct.insert(R.trace_hash);
        for (auto &v : R.violations) if (per_prop[v.prop]++ < 5) found.push_back({v.prop, v.what, cur_case});
#ifdef SIM_ASAN
        if (leak_every && ((cur_case + 1 - from) % leak_every == 0 || cur_case + 1 == to)) {
            if (__lsan_do_recoverable_leak_check()) {
                found.push_back({"P15", "memory leaked (see the report of LeakSanitizer)", batch_from});
                fprintf(stderr, "LEAK in cases %llu..%llu\n", (unsigned long long)batch_from, (unsigned long long)cur_case);
                leak_every = 0;
            }
            batch_from = cur_case + 1;
        }
#endif
    }
    std::string o = "{\"cases\":" + std::to_string(done) + ",\"distinct\":[";
    bool first = true;
    for (auto h : R.distinct) { o += (first ? "" : ",") + std::to_string(h); first = false; }
    o += "],\"counters\":{";
    first = true;
    for (auto &c : R.counters) { o += (first ? "" : ",") + json(c.first) + ":" + std::to_string(c.second); first = false; }
    o += "},\"violations\":[";
    first = true;
    for (auto &f : found) { o += std::string(first ? "" : ",") + "{\"prop\":" + json(f.prop) + ",\"what\":" + json(f.what) + ",\"case\":" + std::to_string(f.c) + "}"; first = false; }
    o += "]}\n";
    fwrite(o.data(), 1, o.size(), stdout);
    fflush(stdout);
    _exit(found.empty() ? 0 : 1);
}
