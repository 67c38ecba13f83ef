// The event loops of the library behind one interface.
#include "rt.hpp"
#include "rotor/asio.hpp"
#include "rotor/ev.hpp"
#include "rotor/thread.hpp"
#include "rotor/fltk.hpp"
#include <FL/Fl.H>

namespace rt {
std::unique_ptr<loop_t> make_wx_loop();
namespace {
struct thread_ctx_t : r::thread::system_context_thread_t { int64_t clock() { return std::chrono::duration_cast<std::chrono::microseconds>(now.time_since_epoch()).count(); } };
struct thread_loop_t : loop_t {
    using sup_t = sup_of<r::thread::supervisor_thread_t>;
    r::intrusive_ptr_t<thread_ctx_t> ctx{new thread_ctx_t()};
    ~thread_loop_t() override { sups.clear(); }
    void make_root(const opts_t &o) override { adopt(build(ctx->create_supervisor<sup_t>(), o), "thread-root"); }
    void make_nested(size_t p, const opts_t &o) override { adopt(build(sups[p].sup->create_actor<sup_t>(), o), "thread-nested", sups[0].mon); }
    void run() override { ctx->run(); }
    int64_t loop_clock() override { return ctx->clock(); }
    int64_t start_clock(bool blocking) override { return blocking ? loop_t::loop_clock() : loop_clock(); } // the clock is brought up to date for them
};

namespace ra = r::asio; namespace asio = boost::asio;
struct asio_loop_t : loop_t {
    using sup_t = sup_of<ra::supervisor_asio_t>;
    asio::io_context io;
    ra::system_context_asio_t::ptr_t ctx{new ra::system_context_asio_t(io)};
    std::vector<ra::supervisor_config_asio_t::strand_ptr_t> strands;
    ~asio_loop_t() override { sups.clear(); ctx.reset(); }
    void make_root(const opts_t &o) override {
        runners = o.threads;
        strands.push_back(std::make_shared<asio::io_context::strand>(io));
        auto b = ctx->create_supervisor<sup_t>(); std::move(b).strand(strands[0]); std::move(b).guard_context(true);
        adopt(build(std::move(b), o), "asio-root");
    }
    void make_nested(size_t p, const opts_t &o) override {
        auto st = strands[p]; auto mon = sups[p].mon;
        if (o.own_strand) {
            if (o.strand_pick % 2) { auto k = o.strand_pick / 2 % strands.size(); st = strands[k]; mon = sups[k].mon; }
            else { st = std::make_shared<asio::io_context::strand>(io); mon.reset(); }
        }
        strands.push_back(st);
        auto b = sups[p].sup->create_actor<sup_t>(); std::move(b).strand(st); std::move(b).guard_context(false);
        adopt(build(std::move(b), o), o.own_strand ? "asio-strand" : "asio-nested", mon);
    }
    void run() override { io.run(); }
    // the example does it: what came after the loop has stopped
    void drain() override { for (auto &s : sups) static_cast<sup_t &>(*s.sup).do_process(); }
};

struct ev_loop_t : loop_t {
    using sup_t = sup_of<r::ev::supervisor_ev_t>;
    struct ev_loop *loop = ev_loop_new(0);
    r::ev::system_context_ptr_t ctx{new r::ev::system_context_ev_t()};
    bool owned = true;
    ev_loop_t() { early_us = 250; order_us = 1500; }
    ~ev_loop_t() override { sups.clear(); ctx.reset(); if (!owned) ev_loop_destroy(loop); }
    void make_root(const opts_t &o) override {
        owned = !o.own_strand;
        auto b = ctx->create_supervisor<sup_t>(); std::move(b).loop(loop); std::move(b).loop_ownership(owned);
        adopt(build(std::move(b), o), "ev-root");
    }
    void make_nested(size_t p, const opts_t &o) override {
        auto b = sups[p].sup->create_actor<sup_t>(); std::move(b).loop(loop); std::move(b).loop_ownership(false);
        adopt(build(std::move(b), o), "ev-nested", sups[0].mon);
    }
    void run() override { ev_run(loop, 0); }
    int64_t loop_clock() override { return int64_t(ev_now(loop) * 1e6); }
    int64_t stale_us() override { return int64_t((ev_time() - ev_now(loop)) * 1e6); }
};

struct fltk_loop_t : loop_t {
    using sup_t = sup_of<r::fltk::supervisor_fltk_t>;
    r::fltk::system_context_ptr_t ctx{new r::fltk::system_context_fltk_t()};
    fltk_loop_t() { static bool once = [] { Fl::lock(); return true; }(); (void)once; main_thread = true; early_us = 250; order_us = 1500; }
    bool drop_first = false;
    ~fltk_loop_t() override { // the main loop goes on, in the other order too
        if (drop_first) { sups.clear(); ctx.reset(); }
        while (Fl::wait(0) > 0) ;
        Fl::wait(0);
        sups.clear(); ctx.reset();
    }
    void make_root(const opts_t &o) override { adopt(build(ctx->create_supervisor<sup_t>(), o), "fltk-root"); sups[0].sup->do_process(); }
    void make_nested(size_t p, const opts_t &o) override { adopt(build(sups[p].sup->create_actor<sup_t>(), o), "fltk-nested", sups[0].mon); }
    void run() override { while (root().do_process(), !down()) Fl::wait(1000); }
    void drain() override { root().do_process(); Fl::wait(0); }
};
} // namespace
std::unique_ptr<loop_t> make_loop(const std::string &kind, rng_t &g) {
    std::unique_ptr<loop_t> l;
    if (kind == "thread") l = std::make_unique<thread_loop_t>();
    else if (kind == "asio") l = std::make_unique<asio_loop_t>();
    else if (kind == "ev") l = std::make_unique<ev_loop_t>();
    else if (kind == "fltk") { auto f = std::make_unique<fltk_loop_t>(); f->drop_first = g.chance(0.5); l = std::move(f); }
    else l = make_wx_loop();
    l->kind = kind;
    return l;
}
} // namespace rt
