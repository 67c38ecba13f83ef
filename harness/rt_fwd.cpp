// Boost.Asio completions forwarded into actors (rotor/asio/forwarder.hpp): each one exactly once, in the actor's loop,
// with its result, and what the actor does there has effect at once.
#include "rt.hpp"
#include "rotor/asio.hpp"
#include <boost/asio/local/connect_pair.hpp>
#include <boost/asio/local/stream_protocol.hpp>

namespace rt { namespace fwd {
namespace ra = r::asio; namespace asio = boost::asio; namespace bs = boost::system;
struct echo_t { uint32_t no; counted_t c; };
using echo_m = r::message_t<echo_t>;
struct unique_t { std::unique_ptr<uint32_t> no; std::shared_ptr<counted_t> c; }; // moves only
struct op_t { std::atomic<uint32_t> ok{0}, err{0}; std::atomic<bool> echoed{false}; std::atomic<int> want{0}; /* 1 ok 2 error */ bool may_miss = false; };
struct case_t;
using socket_t = asio::local::stream_protocol::socket;
struct node_t;
struct case_t {
    std::deque<op_t> ops; std::mutex lock;
    std::vector<r::intrusive_ptr_t<node_t>> nodes;
    std::vector<r::address_ptr_t> addrs;
    std::atomic<int64_t> running{0};  // operations which have not been completed
    std::atomic<int64_t> echoes{0};   // messages under way
    std::atomic<uint32_t> started{0};
    std::atomic<bool> ending{false};
    std::atomic<uint64_t> n_timer{0}, n_read{0}, n_wrote{0}, n_post{0}, n_unique{0}, n_err{0}, n_after{0}, n_self{0}, n_byref{0};
    std::pair<uint32_t, op_t *> op(int want) { std::lock_guard<std::mutex> l(lock); ops.emplace_back(); ops.back().want = want; running.fetch_add(1, relaxed); return {uint32_t(ops.size() - 1), &ops.back()}; }
    op_t &at(uint32_t n) { std::lock_guard<std::mutex> l(lock); return ops.at(n); }
};
struct spec_t { case_t *C; uint32_t id; std::shared_ptr<mon_t> mon; uint64_t seed; asio::io_context *io; int steps; };
static thread_local const spec_t *spec = nullptr;
struct node_t : r::actor_base_t {
    case_t *C; uint32_t id; std::shared_ptr<mon_t> mon; rng_t rng; asio::io_context &io; int steps;
    // one operation of a kind at a time: its number
    uint32_t timer_op = 0, read_op = 0, write_op = 0; op_t *timer_p = nullptr, *read_p = nullptr, *write_p = nullptr;
    std::unique_ptr<asio::steady_timer> timer; std::unique_ptr<socket_t> in, out; char buf[64], obuf[64]; size_t written = 0; uint64_t got = 0, put = 0;
    bool gone = false;
    explicit node_t(r::actor_config_t &c) : r::actor_base_t(c), C(spec->C), id(spec->id), mon(spec->mon), rng(spec->seed), io(*spec->io), steps(spec->steps) { live_actors.fetch_add(1, relaxed); }
    ~node_t() override { live_actors.fetch_sub(1, relaxed); }
    void configure(r::plugin::plugin_base_t &plugin) noexcept override {
        r::actor_base_t::configure(plugin);
        plugin.with_casted<r::plugin::starter_plugin_t>([&](auto &p) { p.subscribe_actor(&node_t::on_echo); });
    }
    void on_start() noexcept override {
        r::actor_base_t::on_start();
        enter_t e(*mon, "on_start");
        timer = std::make_unique<asio::steady_timer>(io);
        in = std::make_unique<socket_t>(io); out = std::make_unique<socket_t>(io);
        asio::local::connect_pair(*in, *out);
        start_read(); step();
        C->started.fetch_add(1, relaxed);
    }
    void shutdown_start() noexcept override {
        r::actor_base_t::shutdown_start();
        if (timer && rng.chance(0.7)) { if (timer_p) timer_p->want = 0; timer->cancel(); }
        bs::error_code ec; if (in) in->close(ec); if (out) out->close(ec);
        if (read_p) read_p->want = 0; if (write_p) write_p->want = 0;
    }
    void shutdown_finish() noexcept override { enter_t e(*mon, "shutdown_finish"); r::actor_base_t::shutdown_finish(); gone = true; }
    // what comes of an operation
    void done(op_t &o, uint32_t n, bool ok, const char *what) {
        auto c = ok ? o.ok.fetch_add(1, relaxed) : o.err.fetch_add(1, relaxed);
        if (c || (ok ? o.err : o.ok).load(relaxed)) bad("P22", "operation %u (%s) is completed twice", n, what);
        auto w = o.want.load(relaxed);
        if (w && w != (ok ? 1 : 2)) bad("P22", "operation %u (%s) has come to the handler of %s", n, what, ok ? "results" : "errors");
        mon->order = (mon->order ^ (n * 2 + ok)) * 1099511628211ull;
        if (gone) C->n_after.fetch_add(1, relaxed);
        C->running.fetch_sub(1, relaxed);
        if (!gone && C->started.load(relaxed) == C->addrs.size() && rng.chance(0.7)) { // must be processed without anybody's help
            auto to = C->addrs[rng.below(C->addrs.size())];
            C->echoes.fetch_add(1, relaxed); send<echo_t>(to, echo_t{n, {}});
        }
        step();
    }
    void on_echo(echo_m &m) noexcept {
        enter_t e(*mon, "handler of echoes");
        if (C->at(m.payload.no).echoed.exchange(true, relaxed)) bad("P22", "message sent by the completion of operation %u has come twice", m.payload.no);
        C->echoes.fetch_sub(1, relaxed);
        step();
    }
    bool quiet() { return gone || C->ending.load(relaxed) || steps <= 0; }
    void step() {
        if (quiet()) return;
        --steps;
        int k = rng.range(0, 5);
        if (k == 0 && !timer_p) start_timer_op();
        else if (k == 1 && !write_p) start_write();
        else if (k == 2) post_op();
        else if (k == 3) unique_op();
        else if (k == 4 && timer_p && rng.chance(0.3)) { timer_p->want = 0; timer->cancel(); }
        else if (!timer_p) start_timer_op();
    }
    void start_timer_op() {
        auto o = C->op(1); timer_op = o.first; timer_p = o.second;
        timer->expires_after(std::chrono::microseconds(rng.range(0, 1500)));
        timer->async_wait(ra::forwarder_t(*this, &node_t::on_timer, &node_t::on_timer_error));
    }
    void on_timer() noexcept { enter_t e(*mon, "completion of a timer"); C->n_timer.fetch_add(1, relaxed); auto p = timer_p; timer_p = nullptr; done(*p, timer_op, true, "timer"); }
    void on_timer_error(const bs::error_code &ec) noexcept {
        enter_t e(*mon, "failure of a timer"); C->n_err.fetch_add(1, relaxed);
        if (ec != asio::error::operation_aborted) bad("P22", "a cancelled timer reports '%s'", ec.message().c_str());
        auto p = timer_p; timer_p = nullptr; done(*p, timer_op, false, "timer");
    }
    void start_read() {
        auto o = C->op(1); read_op = o.first; read_p = o.second; read_p->may_miss = true;
        in->async_read_some(asio::buffer(buf), ra::forwarder_t(*this, &node_t::on_read, &node_t::on_read_error));
    }
    void on_read(size_t n) noexcept {
        enter_t e(*mon, "completion of reading"); C->n_read.fetch_add(1, relaxed);
        if (!n || n > sizeof(buf)) bad("P22", "%d bytes are read", int(n));
        for (size_t i = 0; i < n && i < sizeof(buf); ++i) if (buf[i] != char((got + i) * 31)) { bad("P22", "read something else than written"); break; }
        got += n;
        auto p = read_p; read_p = nullptr; auto o = read_op;
        if (!gone && in->is_open()) start_read();
        done(*p, o, true, "reading");
    }
    void on_read_error(const bs::error_code &) noexcept { enter_t e(*mon, "failure of reading"); C->n_err.fetch_add(1, relaxed); auto p = read_p; read_p = nullptr; done(*p, read_op, false, "reading"); }
    void start_write() {
        auto o = C->op(1); write_op = o.first; write_p = o.second;
        written = size_t(rng.range(1, sizeof(obuf)));
        for (size_t i = 0; i < written; ++i) obuf[i] = char((put + i) * 31);
        out->async_write_some(asio::buffer(obuf, written), ra::forwarder_t(*this, &node_t::on_write, &node_t::on_write_error));
    }
    void on_write(size_t n) noexcept {
        enter_t e(*mon, "completion of writing"); C->n_wrote.fetch_add(1, relaxed);
        if (n != written) bad("P22", "%d bytes of %d are reported as written", int(n), int(written));
        put += n;
        auto p = write_p; write_p = nullptr; done(*p, write_op, true, "writing");
    }
    void on_write_error(const bs::error_code &) noexcept { enter_t e(*mon, "failure of writing"); C->n_err.fetch_add(1, relaxed); auto p = write_p; write_p = nullptr; done(*p, write_op, false, "writing"); }
    // no errors are possible: 0 and 1 argument
    struct ticket_t { uint32_t no; op_t *o; std::shared_ptr<counted_t> c; };
    void post_op() {
        auto o = C->op(1); ticket_t t{o.first, o.second, std::make_shared<counted_t>()};
        bool ref = rng.chance(0.5);
        if (ref) { auto f = std::make_shared<decltype(ra::forwarder_t(*this, &node_t::on_ticket_ref))>(ra::forwarder_t(*this, &node_t::on_ticket_ref)); asio::post(io, [f, t] { (*f)(t); }); }
        else asio::post(io, [f = ra::forwarder_t(*this, &node_t::on_ticket), t]() mutable { f(t); });
    }
    void on_ticket(ticket_t t) noexcept { enter_t e(*mon, "posted completion"); C->n_post.fetch_add(1, relaxed); done(*t.o, t.no, true, "post"); }
    void on_ticket_ref(const ticket_t &t) noexcept { enter_t e(*mon, "posted completion"); C->n_byref.fetch_add(1, relaxed); done(*t.o, t.no, true, "post"); }
    void on_unique(unique_t u) noexcept {
        enter_t e(*mon, "completion with a unique value"); C->n_unique.fetch_add(1, relaxed);
        if (!u.no || !u.c) { bad("P22", "the result is lost on its way to the handler"); C->running.fetch_sub(1, relaxed); return; }
        done(C->at(*u.no), *u.no, true, "unique");
    }
    void on_unique_error(const bs::error_code &ec) noexcept {
        enter_t e(*mon, "failure with an own code"); C->n_err.fetch_add(1, relaxed);
        uint32_t n = uint32_t(ec.value());
        if (ec.category() != bs::generic_category() || !n) { bad("P22", "a foreign error comes to the handler"); C->running.fetch_sub(1, relaxed); return; }
        done(C->at(n), n, false, "unique");
    }
    void unique_op() {
        bool fail = rng.chance(0.3);
        auto o = C->op(fail ? 2 : 1); uint32_t n = o.first;
        if (!n) fail = false, o.second->want = 1; // 0 is no error code
        auto c = std::make_shared<counted_t>();
        asio::post(io, [f = ra::forwarder_t(*this, &node_t::on_unique, &node_t::on_unique_error), n, fail, c]() mutable {
            f(fail ? bs::error_code(int(n), bs::generic_category()) : bs::error_code(), unique_t{std::make_unique<uint32_t>(n), c});
        });
    }
};
// supervisors forward into themselves
struct sup_t : sup_of<ra::supervisor_asio_t> {
    using sup_of<ra::supervisor_asio_t>::sup_of;
    template <class S> using config_builder_t = ra::supervisor_config_asio_builder_t<S>;
    case_t *C = nullptr; std::shared_ptr<mon_t> mon; std::unique_ptr<asio::steady_timer> timer;
    std::atomic<int> left{0}; op_t *o = nullptr; uint32_t no = 0; r::address_ptr_t to;
    void again() {
        if (left.fetch_sub(1, relaxed) <= 0 || C->ending.load(relaxed)) return;
        auto x = C->op(1); no = x.first; o = x.second;
        timer->expires_after(std::chrono::microseconds(100));
        timer->async_wait(ra::forwarder_t(*this, &sup_t::on_tick, &sup_t::on_tick_error));
    }
    void on_tick() noexcept {
        enter_t e(*mon, "completion of a timer of supervisor"); C->n_self.fetch_add(1, relaxed);
        if (o->ok.fetch_add(1, relaxed)) bad("P22", "operation %u of a supervisor is completed twice", no);
        C->echoes.fetch_add(1, relaxed); send<echo_t>(to, echo_t{no, {}});
        C->running.fetch_sub(1, relaxed);
        again();
    }
    void on_tick_error(const bs::error_code &) noexcept { bad("P22", "a timer of a supervisor fails"); C->running.fetch_sub(1, relaxed); }
    void kick() noexcept { enter_t e(*mon, "first call of a supervisor"); again(); }
};

static void fn(rng_t &g) {
    live_payloads.store(0, relaxed); live_actors.store(0, relaxed);
    {
        case_t C; asio::io_context io; ra::system_context_asio_t::ptr_t ctx(new ra::system_context_asio_t(io));
        std::vector<ra::supervisor_config_asio_t::strand_ptr_t> strands; std::vector<r::intrusive_ptr_t<sup_t>> sups; std::vector<std::shared_ptr<mon_t>> mons; std::vector<std::shared_ptr<std::atomic<bool>>> downs;
        int threads = g.range(1, 3), n_sups = g.range(1, 3);
        auto adopt = [&](r::intrusive_ptr_t<sup_t> s, std::shared_ptr<mon_t> m) {
            sups.push_back(s); mons.push_back(m ? m : std::make_shared<mon_t>()); if (!m) mons.back()->name = fmt("asio.%d", int(sups.size()));
            downs.push_back(std::make_shared<std::atomic<bool>>(false)); s->down = downs.back(); s->C = &C; s->mon = mons.back(); s->timer = std::make_unique<asio::steady_timer>(io);
        };
        std::string world = fmt("threads %d:", threads);
        auto poll = [&] { return g.chance(0.5) ? us(0) : us(g.range(1, 300)); };
        for (int i = 0; i < n_sups; ++i) {
            auto st = i && g.chance(0.5) ? strands[g.below(strands.size())] : std::make_shared<asio::io_context::strand>(io);
            std::shared_ptr<mon_t> m; for (size_t k = 0; k < strands.size(); ++k) if (strands[k] == st) m = mons[k];
            strands.push_back(st);
            auto parent = g.below(std::max<size_t>(1, sups.size()));
            int own = 0; while (strands[own] != st) ++own;
            world += fmt(" sup %d below %d on strand %d;", i, int(parent), own);
            if (!i) adopt(ctx->create_supervisor<sup_t>().strand(st).guard_context(true).timeout(ms(60000)).poll_duration(poll()).finish(), m);
            else adopt(sups[parent]->create_actor<sup_t>().strand(st).guard_context(false).timeout(ms(60000)).poll_duration(poll()).finish(), m);
        }
        int n = g.range(1, 6);
        for (int i = 0; i < n; ++i) {
            auto k = g.below(sups.size());
            spec_t sp{&C, uint32_t(i), mons[k], g.u64(), &io, g.range(5, 120)};
            world += fmt(" actor of sup %d;", int(k));
            spec = &sp; C.nodes.push_back(sups[k]->create_actor<node_t>().timeout(ms(60000)).finish()); spec = nullptr;
            C.addrs.push_back(C.nodes.back()->get_address());
        }
        bool early = g.chance(0.3); int64_t early_at = g.range(0, 3000); bool drop = g.chance(0.5); uint64_t dseed = g.u64(); int n_ticks = g.chance(0.5) ? g.range(1, 10) : 0;
        for (auto &s : sups) { s->to = C.addrs[g.below(C.addrs.size())]; s->left = n_ticks; }
        sups[0]->start();
        std::vector<std::thread> ts; std::atomic<int> back{0};
        for (int i = 0; i < threads; ++i) ts.emplace_back([&] { io.run(); back.fetch_add(1, relaxed); tick(); });
        auto until = [&](auto f) { while (!f()) nap(100); };
        awaiting("P22", "start of the actors");
        until([&] { return C.started.load(relaxed) == uint32_t(n); });
        if (n_ticks) for (auto &s : sups) { ra::forwarder_t f(*s, &sup_t::kick); f(); }
        if (!early) {
            awaiting("P22", "completions, or messages sent by them, " + world);
            // each actor keeps reading
            until([&] { return C.running.load(relaxed) == n && C.echoes.load(relaxed) == 0; });
            nap(300); // a late one?
            until([&] { return C.running.load(relaxed) == n && C.echoes.load(relaxed) == 0; });
        } else nap(early_at);
        C.ending.store(true, relaxed);
        awaiting("P22", "shutdown");
        if (drop) C.nodes.clear(); // the completions keep them
        sups[0]->shutdown();
        until([&] { return back.load(relaxed) == threads; });
        for (auto &t : ts) t.join();
        not_awaiting();
        for (auto &d : downs) if (!d->load(relaxed)) bad("P22", "a supervisor is not shut down although its loop has ended");
        if (C.running.load(relaxed)) bad("P22", "%d operations have never been completed", int(C.running.load(relaxed)));
        uint64_t order = dseed; for (auto &m : mons) order = order * 31 + m->order;
        { std::lock_guard<std::mutex> l(big_lock); R.trace_hash ^= order; }
        seen("timers completed", C.n_timer); seen("reads completed", C.n_read); seen("writes completed", C.n_wrote); seen("posted completions", C.n_post + C.n_byref); seen("completions with values which only move", C.n_unique);
        seen("failures", C.n_err); seen("completions after the end of the actor", C.n_after); seen("completions of supervisors", C.n_self);
        C.nodes.clear(); C.addrs.clear();
        for (auto &s : sups) { s->to.reset(); s->timer.reset(); }
        sups.clear(); ctx.reset();
    }
    if (auto n = live_payloads.load(relaxed)) for (auto t : {"P15", "P22"}) bad(t, "%d results or payloads are still alive after everything is dropped", int(n));
    if (auto n = live_actors.load(relaxed)) for (auto t : {"P15", "P22"}) bad(t, "%d actors are still alive after everything is dropped", int(n));
}
static workload_reg reg("fwd", fn);
} } // namespace rt::fwd
