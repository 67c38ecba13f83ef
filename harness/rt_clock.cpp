// Timers of the real event loops: random programs of starts and cancellations, made by handlers, blocking handlers and callbacks.
#include "rt.hpp"
#include <map>
#include <set>

namespace rt { namespace clock_ {
namespace payload {
struct res_t { counted_t c; };
struct step_t { uint32_t hops; bool counted; counted_t c; };
struct block_t { uint32_t hops; counted_t c; };       // its handler is tagged as blocking
struct lone_t { uint32_t no; int64_t span; bool request, blocking; counted_t c; };
struct lone_end_t { uint32_t no; counted_t c; };
struct ask_t { using response_t = res_t; uint32_t lone; int64_t span, started_lo, real; counted_t c; ask_t(uint32_t l, int64_t s, int64_t a, int64_t b) : lone(l), span(s), started_lo(a), real(b) {} };
} // namespace payload
using step_m = r::message_t<payload::step_t>;
using block_m = r::message_t<payload::block_t>;
using lone_m = r::message_t<payload::lone_t>;
using lone_end_m = r::message_t<payload::lone_end_t>;
using ask_m = r::request_traits_t<payload::ask_t>::request::message_t;
using res_m = r::request_traits_t<payload::ask_t>::response::message_t;

struct locality_t; struct ticker_t; struct case_t;
// a timer is early only if it is so by the clock of the loop (lo) and by the real one (real), as either might be adjusted
struct timer_t { ticker_t *owner; uint64_t id; int64_t span, lo, hi, real; bool counted; uint64_t no; };
inline int64_t steady_us() { return std::chrono::duration_cast<std::chrono::microseconds>(clk::now().time_since_epoch()).count(); }
struct locality_t { // everything here is touched in one event loop only
    std::shared_ptr<mon_t> mon;
    std::map<uint64_t, timer_t> running; // by number
};
struct case_t {
    rng_t &g; loop_t *loop = nullptr;
    std::map<mon_t *, std::unique_ptr<locality_t>> localities;
    std::vector<r::intrusive_ptr_t<ticker_t>> tickers; std::vector<r::address_ptr_t> addrs;
    r::address_ptr_t silent;
    std::atomic<int64_t> outstanding{0}, budget{0}, naps{0}; std::atomic<uint32_t> started{0}, lone_back{0}, silent_up{0};
    std::atomic<bool> ending{false};
    bool order = true; double p_cancel = 0, p_block = 0, p_nap = 0, p_ask = 0, p_temp = 0, p_cb = 0, p_long = 0; int64_t span_max = 5000, nap_max = 2000;
    case_t(rng_t &g_) : g(g_) {}
    locality_t &of(std::shared_ptr<mon_t> m) { auto &l = localities[m.get()]; if (!l) { l = std::make_unique<locality_t>(); l->mon = m; } return *l; }
};
struct spec_t { case_t *C; locality_t *L; uint64_t seed; bool temp, blocking; };
static thread_local const spec_t *spec = nullptr;

struct silent_t : r::actor_base_t { // never answers
    case_t *C = spec->C; std::vector<r::intrusive_ptr_t<ask_m>> kept; std::shared_ptr<mon_t> mon = spec->L->mon;
    explicit silent_t(r::actor_config_t &cfg) : r::actor_base_t(cfg) { live_actors.fetch_add(1, relaxed); }
    ~silent_t() override { live_actors.fetch_sub(1, relaxed); }
    void configure(r::plugin::plugin_base_t &p) noexcept override { r::actor_base_t::configure(p); p.with_casted<r::plugin::starter_plugin_t>([](auto &s) { s.subscribe_actor(&silent_t::on_ask); }); }
    void on_start() noexcept override { r::actor_base_t::on_start(); C->silent_up.store(1, relaxed); }
    void shutdown_start() noexcept override { kept.clear(); r::actor_base_t::shutdown_start(); }
    void on_ask(ask_m &m) noexcept { enter_t e(*mon, "handler of requests"); if (kept.size() < 5) kept.emplace_back(&m); else kept.clear(); }
};

static std::atomic<uint64_t> timer_no{0};
struct ticker_t : r::actor_base_t {
    case_t *C; locality_t *L; rng_t rng{1}; bool temp, blocking, up = false;
    std::map<r::request_id_t, uint64_t> mine;  // id -> number of a running timer
    std::set<r::request_id_t> asked; uint64_t asking = 0;
    r::request_id_t cancelling = 0; bool finishing = false, may_go = false;
    uint64_t started = 0, fired = 0, cancelled = 0, timeouts = 0, inside_block = 0, inside_cb = 0, late_hist = 0, swept = 0, nested_fires = 0; int depth = 0, block_depth = 0;
    explicit ticker_t(r::actor_config_t &cfg) : r::actor_base_t(cfg), C(spec->C), L(spec->L), rng(spec->seed), temp(spec->temp), blocking(spec->blocking) { live_actors.fetch_add(1, relaxed); }
    ~ticker_t() override { live_actors.fetch_sub(1, relaxed); }
    int64_t now() { return C->loop->loop_clock(); }
    int64_t now_start() { return C->loop->start_clock(block_depth > 0); }
    int64_t real_start() { return steady_us() - C->loop->stale_us(); }
    bool early(int64_t lo, int64_t real) { return now() < lo - C->loop->early_us && steady_us() < real - C->loop->early_us; }
    void configure(r::plugin::plugin_base_t &plugin) noexcept override {
        r::actor_base_t::configure(plugin);
        plugin.with_casted<r::plugin::starter_plugin_t>([&](auto &p) {
            p.subscribe_actor(&ticker_t::on_step);
            p.subscribe_actor(&ticker_t::on_block)->tag_io();
            auto i = p.subscribe_actor(&ticker_t::on_lone); if (blocking) i->tag_io();
            p.subscribe_actor(&ticker_t::on_lone_end); p.subscribe_actor(&ticker_t::on_res);
        });
    }
    void on_start() noexcept override {
        r::actor_base_t::on_start();
        enter_t e(*L->mon, "on_start");
        up = true;
        if (temp) { // a few timers, then it leaves
            int n = rng.range(1, 5); while (n--) begin_timer(rng.chance(0.3));
            step_self(0); C->outstanding.fetch_sub(1, relaxed);
        } else C->started.fetch_add(1, relaxed);
    }
    void shutdown_start() noexcept override { up = false; r::actor_base_t::shutdown_start(); }
    void shutdown_finish() noexcept override {
        finishing = true;
        r::actor_base_t::shutdown_finish();
        for (auto &t : mine) { (void)t; bad("P18", "timer %llu of an actor, which has been shut down, is neither fired nor cancelled", (unsigned long long)t.second); }
    }
    void pause(int64_t limit) {
        if (!rng.chance(C->p_nap) || C->naps.fetch_sub(1, relaxed) <= 0) return;
        auto until = clk::now() + std::chrono::microseconds(rng.range(1, int(limit)));
        while (clk::now() < until) ;
    }
    void begin_timer(bool far = false) {
        if (!up || (!far && C->budget.fetch_sub(1, relaxed) <= 0)) return;
        int64_t span = far ? 30000000 + rng.range(0, 1000000) : rng.chance(0.15) ? 0 : rng.chance(0.3) ? rng.range(1, 5) * 1000 : rng.range(0, int(C->span_max));
        uint64_t no = ++timer_no;
        if (!far) C->outstanding.fetch_add(1, relaxed);
        auto lo = now_start(), real = real_start();
        depth++;
        auto id = start_timer(us(span), *this, &ticker_t::on_timer);
        depth--;
        auto hi = now_start();
        if (!mine.emplace(id, no).second) bad("P18", "the identity of a running timer is given to another one");
        L->running[no] = timer_t{this, id, span, lo + span, hi + span, real + span, !far, no};
        started++; if (block_depth) inside_block++;
    }
    void stop_timer() {
        if (mine.empty()) return;
        auto it = mine.begin(); std::advance(it, long(rng.below(mine.size())));
        auto id = it->first; auto no = it->second;
        auto before = cancelling; cancelling = id;
        depth++;
        cancel_timer(id);
        depth--;
        cancelling = before;
        auto x = mine.find(id);
        if (x != mine.end() && x->second == no) bad("P18", "cancellation of timer %llu is not reported before the cancelling call returns", (unsigned long long)no);
    }
    void on_timer(r::request_id_t id, bool cancel) noexcept {
        enter_t e(*L->mon, "timer callback", false);
        auto it = mine.find(id);
        if (it == mine.end()) { bad("P18", "a timer, which is not running (any longer), %s", cancel ? "is cancelled" : "fires"); return; }
        auto no = it->second; auto t = L->running.at(no);
        mine.erase(it); L->running.erase(no);
        if (t.counted) C->outstanding.fetch_sub(1, relaxed);
        if (cancel) {
            cancelled++;
            if (cancelling != id && !finishing && up) bad("P18", "a timer has been cancelled by nobody");
            if (finishing) swept++;
            return;
        }
        fired++; if (depth) nested_fires++;
        if (cancelling == id) bad("P18", "a timer fires upon its cancellation");
        auto at = now();
        if (early(t.lo, t.real)) bad("P18", "timer of %lld us fires %lld us too early", (long long)t.span, (long long)(t.lo - at));
        if (at - t.hi > 20000) late_hist++;
        if (C->order) for (auto &u : L->running) if (u.second.hi + C->loop->order_us < t.lo)
            bad("P18", "timer of %lld us fires before another one, of %lld us, which expires %lld us earlier", (long long)t.span, (long long)u.second.span, (long long)(t.lo - u.second.hi));
        if (!up) return;
        if (!rng.chance(C->p_cb)) return;
        pause(C->nap_max / 2);
        int n = rng.range(1, 3);
        while (n--) switch (rng.range(0, 4)) {
            case 0: begin_timer(); inside_cb++; break;
            case 1: if (rng.chance(C->p_cancel)) { stop_timer(); inside_cb++; } break;
            case 2: step(0); break;
            case 3: ask(); break;
            case 4: if (may_go) { do_shutdown(); return; } break;
        }
    }
    void step_self(uint32_t hops) { C->outstanding.fetch_add(1, relaxed); send<payload::step_t>(address, payload::step_t{hops, !temp, {}}); }
    void step(uint32_t hops) { // to anybody
        if (C->addrs.empty()) return;
        auto &to = C->addrs[rng.below(C->addrs.size())];
        C->outstanding.fetch_add(1, relaxed);
        if (rng.chance(C->p_block)) send<payload::block_t>(to, payload::block_t{hops, {}}); else send<payload::step_t>(to, payload::step_t{hops, true, {}});
    }
    void ask(uint32_t lone = 0, int64_t span = -1) {
        if (!up || !C->silent || (!lone && (!rng.chance(C->p_ask) || temp || C->budget.fetch_sub(1, relaxed) <= 0))) return;
        if (span < 0) span = rng.range(100, 6000);
        C->outstanding.fetch_add(1, relaxed);
        auto at = now_start(), real = real_start();
        depth++;
        request<payload::ask_t>(C->silent, lone, span, at, real).send(us(span));
        depth--;
        asking++;
    }
    void on_res(res_m &m) noexcept {
        enter_t e(*L->mon, "handler of responses");
        auto &q = m.payload.req->payload.request_payload;
        C->outstanding.fetch_sub(1, relaxed);
        if (!asking) bad("P18", "more timeouts than requests"); else asking--;
        timeouts++;
        if (!m.payload.ee) { bad("P18", "an answer nobody has made"); return; }
        auto at = now();
        if (!C->ending.load(relaxed) && early(q.started_lo + q.span, q.real + q.span)) bad("P18", "request with timeout of %lld us fails %lld us too early", (long long)q.span, (long long)(q.started_lo + q.span - at));
        if (q.lone) C->lone_back.store(q.lone, std::memory_order_release);
    }
    void act(uint32_t hops) {
        int n = rng.range(1, 4);
        while (n--) switch (rng.range(0, 6)) {
            case 0: case 1: case 2: begin_timer(rng.chance(C->p_long)); break;
            case 3: if (rng.chance(C->p_cancel)) stop_timer(); break;
            case 4: ask(); break;
            case 5: pause(C->nap_max); break;
            case 6: if (rng.chance(C->p_temp)) { // comes with timers of its own
                auto &s = get_supervisor();
                spec_t sp{C, L, rng.u64(), true, false}; spec = &sp;
                C->outstanding.fetch_add(1, relaxed);
                s.create_actor<ticker_t>().timeout(ms(60000)).finish();
                spec = nullptr; } break;
        }
        if (hops) step(hops - 1);
    }
    void on_step(step_m &m) noexcept {
        enter_t e(*L->mon, "handler of steps");
        C->outstanding.fetch_sub(1, relaxed);
        act(m.payload.hops);
        if (temp) { if (rng.chance(0.5)) do_shutdown(); else may_go = true; }
    }
    void on_block(block_m &m) noexcept {
        enter_t e(*L->mon, "blocking handler");
        C->outstanding.fetch_sub(1, relaxed);
        block_depth++;
        int n = rng.range(1, 3);
        while (n--) { pause(C->nap_max * 2); act(0); }
        block_depth--;
        if (m.payload.hops) step(m.payload.hops - 1);
    }
    void on_lone(lone_m &m) noexcept {
        enter_t e(*L->mon, "handler of lone steps");
        auto &p = m.payload;
        if (p.request) { ask(p.no, p.span); return; }
        lone_no = p.no; lone_lo = C->loop->start_clock(blocking) + p.span; lone_real = real_start() + p.span;
        lone_id = start_timer(us(p.span), *this, &ticker_t::on_lone_timer);
        if (p.blocking) { auto until = clk::now() + std::chrono::microseconds(rng.range(0, 3000)); while (clk::now() < until) ; }
    }
    uint32_t lone_no = 0; int64_t lone_lo = 0, lone_real = 0; r::request_id_t lone_id = 0;
    void on_lone_timer(r::request_id_t id, bool cancel) noexcept {
        enter_t e(*L->mon, "lone timer", false);
        if (cancel && C->ending.load(relaxed)) return;
        if (cancel) bad("P18", "a lone timer is cancelled by nobody");
        if (!lone_no || id != lone_id) { if (lone_id) bad("P18", "a lone timer fires again"); }
        if (early(lone_lo, lone_real)) bad("P18", "a lone timer fires %lld us too early", (long long)(lone_lo - now()));
        send<payload::lone_end_t>(address, payload::lone_end_t{lone_no, {}});
        lone_no = 0;
    }
    void on_lone_end(lone_end_m &m) noexcept { enter_t e(*L->mon, "handler of ends"); C->lone_back.store(m.payload.no, std::memory_order_release); }
};

static void fn(rng_t &g, const char *kind) {
    live_payloads.store(0, relaxed); live_actors.store(0, relaxed);
    uint64_t n_started = 0, n_fired = 0;
    {
        case_t C(g);
        auto loop = make_loop(kind, g); auto &l = *loop; C.loop = &l;
        std::atomic_bool flag{false}; bool by_flag = g.chance(0.15);
        opts_t o; o.poll = g.chance(0.4) ? us(0) : g.chance(0.5) ? us(g.range(1, 300)) : ms(g.range(1, 5));
        o.threads = g.chance(0.5) ? 1 : g.range(2, 3);
        if (by_flag) { o.flag = &flag; o.flag_every = ms(g.range(1, 10)); }
        l.make_root(o);
        int nested = g.chance(0.5) ? 0 : g.range(1, 2);
        for (int k = 0; k < nested; ++k) { opts_t n = o; n.flag = nullptr; n.own_strand = g.chance(0.5); n.strand_pick = g.below(100); n.poll = g.chance(0.5) ? us(0) : us(g.range(1, 300)); l.make_nested(g.below(l.sups.size()), n); }
        C.order = l.runners == 1 && std::string(kind) != "fltk"; // several threads dispatch expired timers of asio concurrently, fltk re-schedules the overdue ones
        for (size_t k = 0; k < l.sups.size(); ++k) { l.sups[k].mon->name = fmt("%s.%d", kind, int(k)); C.of(l.sups[k].mon); }
        C.p_cancel = g.chance(0.7) ? 0.7 : 0; C.p_block = g.chance(0.6) ? 0.3 : 0; C.p_nap = g.chance(0.6) ? 0.3 : 0; C.p_ask = g.chance(0.5) ? 0.7 : 0;
        C.p_temp = g.chance(0.4) ? 0.3 : 0; C.p_cb = g.chance(0.8) ? 0.6 : 0; C.p_long = g.chance(0.5) ? 0.1 : 0;
        C.span_max = g.chance(0.3) ? 300 : g.chance(0.5) ? 5000 : 20000; C.nap_max = g.chance(0.5) ? 500 : 4000;
        C.budget = g.range(5, 150); C.naps = g.range(3, 25);
        int n_tickers = g.range(1, 4);
        auto place = [&]() -> sup_rec_t & { return l.sups[g.below(l.sups.size())]; };
        if (C.p_ask || g.chance(0.3)) {
            auto &s = place(); spec_t sp{&C, &C.of(s.mon), 0, false, false}; spec = &sp;
            C.silent = s.sup->create_actor<silent_t>().timeout(ms(60000)).finish()->get_address(); spec = nullptr;
        }
        for (int i = 0; i < n_tickers; ++i) {
            auto &s = place(); spec_t sp{&C, &C.of(s.mon), g.u64(), false, g.chance(0.4)}; spec = &sp;
            C.tickers.push_back(s.sup->create_actor<ticker_t>().timeout(ms(60000)).finish()); spec = nullptr;
            C.addrs.push_back(C.tickers.back()->get_address());
        }
        auto world = fmt("%s[%d poll %d threads %d%s]", kind, int(l.sups.size()), int(o.poll.total_microseconds()), l.runners, by_flag ? " flag" : "");
        if (R.verbose) fprintf(stderr, "%s tickers %d budget %d spans %d\n", world.c_str(), n_tickers, int(C.budget.load()), int(C.span_max));
        uint64_t dseed = g.u64(); int n_steps = g.range(1, 25), lones = g.range(1, 6); uint32_t lone_no = 0;
        auto driver = [&] {
            rng_t d(dseed);
            auto poll_until = [&](auto done) { while (!done()) nap(100); };
            l.start_root(); if (!l.main_thread) l.spawn();
            awaiting("P18", fmt("start of the actors (%s)", world.c_str()));
            poll_until([&] { return C.started.load(relaxed) == uint32_t(n_tickers) && (!C.silent || C.silent_up.load(relaxed)); });
            awaiting("P18", fmt("timers and what they send (%s)", world.c_str()));
            for (int i = 0; i < n_steps; ++i) {
                auto &a = C.addrs[d.below(C.addrs.size())]; C.outstanding.fetch_add(1, relaxed);
                if (d.chance(C.p_block)) a->supervisor.enqueue(r::make_message<payload::block_t>(a, payload::block_t{uint32_t(d.range(0, 6)), {}}));
                else a->supervisor.enqueue(r::make_message<payload::step_t>(a, payload::step_t{uint32_t(d.range(0, 6)), true, {}}));
                if (d.chance(0.4)) nap(d.range(0, 1500));
            }
            poll_until([&] { return C.outstanding.load(relaxed) <= 0; });
            if (C.outstanding.load(relaxed) < 0) bad("P18", "more timers and messages have come back than there were");
            awaiting("P18", fmt("what the callback of the only timer has sent (%s)", world.c_str()));
            for (int i = 0; i < lones; ++i) { // nothing else happens in the loop
                auto &a = C.addrs[d.below(C.addrs.size())]; auto n = ++lone_no;
                a->supervisor.enqueue(r::make_message<payload::lone_t>(a, payload::lone_t{n, d.chance(0.2) ? 0 : d.range(100, 8000), C.silent && d.chance(0.4), d.chance(0.5), {}}));
                poll_until([&] { return C.lone_back.load(std::memory_order_acquire) == n; });
                if (d.chance(0.5)) nap(d.range(0, 2000));
            }
            awaiting("P17", fmt("shutdown (%s)", world.c_str()));
            C.ending.store(true, relaxed);
            if (by_flag) flag.store(true); else l.root().shutdown();
            poll_until([&] { return l.down() && l.returned.load(relaxed) == l.runners; });
        };
        std::thread dt(driver);
        if (l.main_thread) { l.run(); l.returned.fetch_add(1, relaxed); tick(); }
        dt.join();
        for (auto &t : l.threads) t.join();
        not_awaiting();
        uint64_t can = 0, to = 0, blk = 0, cb = 0, late = 0, swept = 0, nf = 0, order = 0;
        for (auto &t : C.tickers) { n_started += t->started; n_fired += t->fired; can += t->cancelled; to += t->timeouts; blk += t->inside_block; cb += t->inside_cb; late += t->late_hist; swept += t->swept; nf += t->nested_fires; order = order * 31 + t->started * 7 + t->cancelled; }
        for (auto &x : C.localities) if (!x.second->running.empty()) bad("P18", "%d timers are still running after shutdown", int(x.second->running.size()));
        { std::lock_guard<std::mutex> lk(big_lock); R.trace_hash ^= dseed ^ order; }
        seen("timers started", n_started); seen("timers fired", n_fired); seen("timers cancelled", can); seen("timers cancelled by shutdown", swept); seen("request timeouts", to);
        seen("timers started by blocking handlers", blk); seen("starts and cancellations by callbacks", cb); seen("fired late (by more than 20 ms)", late); seen("timers fired while others are being started", nf);
        seen("lone timers", lone_no);
        C.tickers.clear(); C.addrs.clear(); C.silent.reset();
        loop.reset();
    }
    if (auto n = live_payloads.load(relaxed)) bad("P15", "%d payloads are still alive after everything is dropped", int(n));
    if (auto n = live_actors.load(relaxed)) bad("P15", "%d actors are still alive after everything is dropped", int(n));
}
#define CLOCK(name) static workload_reg c_##name("clock-" #name, [](rng_t &g) { fn(g, #name); });
CLOCK(thread) CLOCK(asio) CLOCK(ev) CLOCK(wx) CLOCK(fltk)
} } // namespace rt::clock_
