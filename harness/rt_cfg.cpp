// Configuration of the supervisors of the real event loops (P20).
#include "rt.hpp"
#include "rotor/asio.hpp"
#include "rotor/ev.hpp"
#include "rotor/fltk.hpp"
#include "rotor/thread.hpp"
#include "rotor/wx.hpp"
#include <FL/Fl.H>
#include <wx/app.h>
#include <wx/apptrait.h>
#include <wx/evtloop.h>
#include <optional>

namespace rt { 
wxAppConsole *the_app();
namespace cfgs {
using td = pt::time_duration;
struct errs_t { std::vector<r::extended_error_ptr_t> errs; };
template <class Base> struct ctx_of : Base, errs_t { using Base::Base; void on_error(r::actor_base_t *, const r::extended_error_ptr_t &e) noexcept override { errs.push_back(e); } };
struct want_t { bool ok_i = false, ok_s = false, ok_own = false, ok_own2 = false; td i, s; size_t queue = 64; td poll = ms(1); const std::atomic_bool *flag = nullptr; td freq = ms(100); int which = -1; bool guard = false, owner = false; bool sync = false, registry = false; };
template <class Base> struct sup_t : Base {
    explicit sup_t(typename Base::config_t &c) : Base(c) { live_actors.fetch_add(1, relaxed); }
    ~sup_t() override { live_actors.fetch_sub(1, relaxed); }
    template <class S> using config_builder_t = typename Base::template config_builder_t<S>;
    bool started = false, down = false; std::function<void()> at_down;
    void on_start() noexcept override { Base::on_start(); started = true; }
    void shutdown_finish() noexcept override { Base::shutdown_finish(); down = true; if (at_down) at_down(); }
    bool same(const want_t &w) {
        auto &s = static_cast<r::supervisor_t &>(*this);
        bool ok = true; auto is = [&](const char *n, bool x) { if (!x) { bad("P20", "option '%s' is not as configured", n); ok = false; } };
        is("init_timeout", this->init_timeout == w.i); is("shutdown_timeout", this->shutdown_timeout == w.s);
        is("inbound_queue_size", this->inbound_queue_size == w.queue); is("poll_duration", sup_t::r_poll(this) == w.poll);
        is("shutdown_flag", this->shutdown_flag == w.flag); is("shutdown_poll_frequency", this->shutdown_poll_frequency == w.freq);
        (void)s; return ok;
    }
    static td r_poll(sup_t *s) { return s->r::supervisor_t::poll_duration; }
};
using thread_s = sup_t<r::thread::supervisor_thread_t>; using fltk_s = sup_t<r::fltk::supervisor_fltk_t>;
struct asio_s : sup_t<r::asio::supervisor_asio_t> { using sup_t::sup_t; template <class S> using config_builder_t = r::asio::supervisor_config_asio_builder_t<S>; void *own() { return &get_strand(); } };
struct ev_s : sup_t<r::ev::supervisor_ev_t> { using sup_t::sup_t; template <class S> using config_builder_t = r::ev::supervisor_config_ev_builder_t<S>; void *own() { return get_loop(); } bool owner() { return loop_ownership; } double poll() { return r::ev::supervisor_ev_t::poll_duration; } };
struct wx_s : sup_t<r::wx::supervisor_wx_t> { using sup_t::sup_t; template <class S> using config_builder_t = r::wx::supervisor_config_wx_builder_t<S>; void *own() { return handler; } };

struct model_t {
    rng_t &g; std::list<std::atomic_bool> flags;
    template <class B> void common(B &b, want_t &w) {
        auto t = [&] { return td(ms(60000) + us(int64_t(g.below(1000000)))); };
        switch (g.range(0, 8)) {
        case 0: { auto v = t(); std::move(b).timeout(v); w.i = w.s = v; w.ok_i = w.ok_s = true; } break;
        case 1: { auto v = t(); std::move(b).init_timeout(v); w.i = v; w.ok_i = true; } break;
        case 2: { auto v = t(); std::move(b).shutdown_timeout(v); w.s = v; w.ok_s = true; } break;
        case 3: w.queue = g.below(300); std::move(b).inbound_queue_size(w.queue); break;
        case 4: w.poll = us(int64_t(g.below(3000))); std::move(b).poll_duration(w.poll); break;
        case 5: flags.emplace_back(false); w.flag = &flags.back(); w.freq = us(1000 + int64_t(g.below(5000))); std::move(b).shutdown_flag(flags.back(), w.freq); break;
        case 6: w.sync = g.chance(0.5); std::move(b).synchronize_start(w.sync); break;
        case 7: w.registry = g.chance(0.5); std::move(b).create_registry(w.registry); break;
        default: break;
        }
    }
    // one attempt to build: b = the builder, own(b, w) sets a random own option; complete: required ones
    template <class B, class Own, class Ok> auto attempt(errs_t &e, B b, want_t &w, Own own, Ok complete, const char *kind, bool second = false) {
        for (int n = g.range(0, 10); n > 0; --n) if (g.chance(0.4)) own(b, w); else common(b, w);
        bool ok = w.ok_i && w.ok_s && complete(w);
        auto before = e.errs.size(); auto alive = live_actors.load(relaxed);
        auto p = std::move(b).finish();
        auto n = e.errs.size() - before;
        if (!ok) {
            seen(fmt("misconfigured, %s", kind));
            if (p) bad("P20", "%s supervisor is made of an incomplete configuration", kind);
            if (live_actors.load(relaxed) != alive) bad("P20", "incomplete configuration of a %s supervisor has left something behind", kind);
            if (n != 1) bad("P20", "%d errors are reported for an incomplete configuration of a %s supervisor", int(n), kind);
            else if (e.errs.back()->ec != r::make_error_code(r::error_code_t::actor_misconfigured)) bad("P20", "an incomplete configuration is reported as '%s'", e.errs.back()->message().c_str());
        } else {
            if (!second && n) bad("P20", "a complete configuration of a %s supervisor is reported as '%s'", kind, e.errs.back()->message().c_str());
            if (second && (n != 1 || e.errs.back()->ec != r::make_error_code(r::error_code_t::supervisor_defined))) bad("P20", "second root supervisor (%s): %d errors", kind, int(n));
            if (!second) { seen(fmt("configured, %s", kind)); if (!p) bad("P20", "%s supervisor is not made of a complete configuration", kind); }
        }
        return p;
    }
};
// make(second): builder of a root; make_child(sup)
template <class S, class Ctx, class Own, class Ok, class Check, class Pump>
void run(model_t &m, const char *kind, r::intrusive_ptr_t<Ctx> ctx, Own own, Ok ok, Check check, Pump pump, std::function<void(S &, want_t &)> arranged = {}) {
    auto &g = m.g; r::intrusive_ptr_t<S> root; want_t w;
    for (int i = 0; i < 40 && !root; ++i) { w = {}; root = m.attempt(*ctx, ctx->template create_supervisor<S>(), w, own, ok, kind); }
    if (!root) return;
    root->same(w); check(*root, w);
    if (arranged) arranged(*root, w);
    std::vector<r::intrusive_ptr_t<S>> kids; 
    for (int n = g.range(0, 4); n > 0; --n) {
        if (g.chance(0.3)) { want_t x; m.attempt(*ctx, ctx->template create_supervisor<S>(), x, own, ok, kind, true); seen("second roots tried"); continue; }
        want_t x; auto k = m.attempt(*ctx, root->template create_actor<S>(), x, [&](auto &b, want_t &y) { own(b, y); }, ok, "nested");
        if (k) { k->same(x); check(*k, x); x.flag = nullptr; kids.push_back(k); }
    }
    auto n_errs = ctx->errs.size();
    root->do_process(); // nothing disturbs the root: it starts
    pump(*root, false);
    if (!root->started) bad("P20", "root supervisor (%s) does not start", kind);
    for (auto &k : kids) if (!k->started) bad("P20", "nested supervisor (%s) does not start", kind);
    bool by_flag = w.flag && g.chance(0.6);
    if (by_flag) { const_cast<std::atomic_bool *>(w.flag)->store(true); seen("shut down by flag"); } else root->shutdown();
    pump(*root, true);
    if (!root->down) bad("P20", "root supervisor (%s) does not obey its %s", kind, by_flag ? "shutdown flag" : "shutdown");
    if (ctx->errs.size() != n_errs) bad("P20", "an error has been reported: %s", ctx->errs.back()->message().c_str());
    R.trace_hash = R.trace_hash * 31 + kids.size() * 8 + by_flag + uint64_t(w.i.total_microseconds());
}
template <class P, class Step> void pump_until(P &sup, bool down, Step step) { awaiting("P20", fmt("%s, %s", typeid(P).name(), down ? "shutdown" : "start")); while (!(down ? sup.down : sup.started)) step(); not_awaiting(); }
static void fn(rng_t &g) {
    live_payloads.store(0, relaxed); live_actors.store(0, relaxed);
    { model_t m{g, {}};
    switch (g.range(0, 4)) {
    case 0: {
        using C = ctx_of<r::thread::system_context_thread_t>; r::intrusive_ptr_t<C> ctx(new C());
        bool ran = false; // its loop runs till the end: one go
        run<thread_s>(m, "thread", ctx, [](auto &, want_t &) {}, [](want_t &) { return true; }, [](thread_s &, want_t &) {},
            [&](thread_s &s, bool down) { if (!down) { s.do_process(); return; } if (!ran) { ran = true; awaiting("P20", "shutdown"); ctx->run(); not_awaiting(); } });
    } break;
    case 1: {
        boost::asio::io_context io; using C = ctx_of<r::asio::system_context_asio_t>; r::intrusive_ptr_t<C> ctx(new C(io));
        std::vector<r::asio::supervisor_config_asio_t::strand_ptr_t> st; for (int i = 0; i < 3; ++i) st.push_back(std::make_shared<boost::asio::io_context::strand>(io));
        want_t rw; bool any_guard = false;
        run<asio_s>(m, "asio", ctx,
            [&](auto &b, want_t &w) { if (g.chance(0.6)) { w.which = g.range(0, 2); std::move(b).strand(st[w.which]); w.ok_own = true; } else { w.guard = g.chance(0.5); std::move(b).guard_context(w.guard); } },
            [](want_t &w) { return w.ok_own; },
            [&](asio_s &s, want_t &w) { if (s.own() != st[w.which].get()) bad("P20", "option 'strand' is not as configured"); if (w.guard) any_guard = true; },
            [&](asio_s &s, bool down) {
                pump_until(s, down, [&] { if (io.stopped()) io.restart(); io.poll(); });
                if (!down) { // quiet: is the loop kept?
                    if (io.stopped()) io.restart(); while (io.poll()) ;
                    if (any_guard && io.stopped()) bad("P20", "io context is not guarded");
                    if (!any_guard && m.flags.empty() && !io.stopped()) bad("P20", "io context is guarded by nobody, but goes on");
                } else { if (io.stopped()) io.restart(); while (io.poll()) ; if (!io.stopped()) bad("P20", "io context is still kept after shutdown"); }
            });
        st.clear();
    } break;
    case 2: {
        auto loop = ev_loop_new(0); bool owned = false, root_made = false; using C = ctx_of<r::ev::system_context_ev_t>; { r::intrusive_ptr_t<C> ctx(new C());
        run<ev_s>(m, "ev", ctx,
            [&](auto &b, want_t &w) { if (g.chance(0.5)) { std::move(b).loop(loop); w.ok_own = true; } else { w.owner = !root_made && g.chance(0.5); std::move(b).loop_ownership(w.owner); w.ok_own2 = true; } },
            [](want_t &w) { return w.ok_own && w.ok_own2; },
            [&](ev_s &s, want_t &w) { if (s.own() != loop) bad("P20", "option 'loop' is not as configured"); if (s.owner() != w.owner) bad("P20", "option 'loop_ownership' is not as configured");
                if (std::abs(s.poll() - double(w.poll.total_microseconds()) / 1e6) > 1e-9) bad("P20", "option 'poll_duration' is not as configured"); },
            [&](ev_s &s, bool down) { pump_until(s, down, [&] { ev_run(loop, EVRUN_NOWAIT); }); },
            [&](ev_s &, want_t &w) { owned = w.owner; root_made = true; });
        }
        if (!owned) ev_loop_destroy(loop); // twice, or never: AddressSanitizer tells
        seen(owned ? "owned ev loops" : "foreign ev loops");
    } break;
    case 3: {
        auto app = the_app(); std::unique_ptr<wxEventLoopBase> loop(app->GetTraits()->CreateEventLoop()); wxEventLoopBase::SetActive(loop.get());
        { wxEvtHandler hs[3]; using C = ctx_of<r::wx::system_context_wx_t>; r::intrusive_ptr_t<C> ctx(new C(app));
        run<wx_s>(m, "wx", ctx,
            [&](auto &b, want_t &w) { w.which = g.range(0, 2); std::move(b).handler(&hs[w.which]); w.ok_own = true; }, [](want_t &w) { return w.ok_own; },
            [&](wx_s &s, want_t &w) { if (s.own() != &hs[w.which]) bad("P20", "option 'handler' is not as configured"); },
            [&](wx_s &s, bool down) { pump_until(s, down, [&] { app->ProcessPendingEvents(); if (loop->Pending()) loop->Dispatch(); else loop->DispatchTimeout(1); }); });
        }
        wxEventLoopBase::SetActive(nullptr);
    } break;
    case 4: {
        static bool once = [] { Fl::lock(); return true; }(); (void)once;
        using C = ctx_of<r::fltk::system_context_fltk_t>; r::intrusive_ptr_t<C> ctx(new C());
        run<fltk_s>(m, "fltk", ctx, [](auto &, want_t &) {}, [](want_t &) { return true; }, [](fltk_s &, want_t &) {},
            [&](fltk_s &s, bool down) { pump_until(s, down, [&] { s.do_process(); Fl::wait(0.001); }); });
        while (Fl::wait(0) > 0) ;
        Fl::wait(0);
    } break;
    } }
    if (auto n = live_actors.load(relaxed)) for (auto t : {"P15", "P20"}) bad(t, "%d supervisors are still alive after everything is dropped", int(n));
}
static workload_reg reg("cfg-loops", fn);
} } // namespace rt::cfgs
