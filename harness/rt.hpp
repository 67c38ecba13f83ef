#pragma once
// Real event loops: shared by the rt_* workloads. Everything touched by several threads is relaxed-atomic on purpose:
// the monitors must not order the threads of the library and so hide its races.
#include "util.hpp"
#include "rotor.hpp"
#include <atomic>
#include <chrono>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>

namespace rt {
namespace r = rotor;
namespace pt = boost::posix_time;
using namespace util;
using clk = std::chrono::steady_clock;
using tp_t = clk::time_point;
inline pt::time_duration us(int64_t n) { return pt::microseconds(n); }
inline pt::time_duration ms(int64_t n) { return pt::milliseconds(n); }
inline constexpr auto relaxed = std::memory_order_relaxed;
inline int64_t us_between(tp_t a, tp_t b) { return std::chrono::duration_cast<std::chrono::microseconds>(b - a).count(); }
inline void nap(int64_t n) { if (n > 0) std::this_thread::sleep_for(std::chrono::microseconds(n)); }

inline std::mutex big_lock;
inline void bad(const char *prop, const char *f, ...) __attribute__((format(printf, 2, 3)));
inline void bad(const char *prop, const char *f, ...) {
    va_list ap; va_start(ap, f); auto s = vfmt(f, ap); va_end(ap);
    std::lock_guard<std::mutex> l(big_lock);
    violate(prop, "%s", s.c_str());
}
inline void seen(const std::string &k, uint64_t n = 1) { std::lock_guard<std::mutex> l(big_lock); count(k, n); }

// progress and the watchdog (rt_main.cpp): a stall of the whole case is reported with what was awaited
inline std::atomic<uint64_t> progress{0};
inline void tick() { progress.fetch_add(1, relaxed); }
void awaiting(const char *prop, const std::string &what); // ends the process if nothing moves for long
void not_awaiting();
inline std::function<std::string()> stall_info; // details for the report of the watchdog (set and reset by the driver thread only)

// destroyed exactly once
inline std::atomic<int64_t> live_payloads{0}, live_actors{0};
struct counted_t {
    counted_t() { live_payloads.fetch_add(1, relaxed); }
    counted_t(const counted_t &) { live_payloads.fetch_add(1, relaxed); }
    ~counted_t() { live_payloads.fetch_sub(1, relaxed); }
};

// code of one locality: never in two threads, never re-entered by another message
struct mon_t {
    std::atomic<uint64_t> owner{0};
    std::string name;
    uint64_t calls = 0; // deliberately plain: handlers of one locality are serialised, or TSan tells
    uint64_t order = 1469598103934665603ull;
};
inline uint64_t my_id() { static std::atomic<uint64_t> n{0}; static thread_local uint64_t id = n.fetch_add(1) + 1; return id; }
struct enter_t {
    mon_t &m; uint64_t prev;
    enter_t(mon_t &m_, const char *what, bool message = true) : m(m_) {
        prev = m.owner.exchange(my_id(), relaxed);
        if (prev && prev != my_id()) bad("P16", "%s in %s is executed while another thread is in it", what, m.name.c_str());
        else if (prev && message) bad("P16", "%s in %s is delivered from within another handler", what, m.name.c_str());
        m.calls++;
        tick();
    }
    ~enter_t() { m.owner.store(prev, relaxed); }
};

struct opts_t {
    pt::time_duration timeout = ms(60000), poll = ms(1), flag_every = ms(10);
    int queue = -1;
    bool registry = false;
    r::address_ptr_t registry_addr;
    std::atomic_bool *flag = nullptr;
    int threads = 1;           // asio
    bool own_strand = false;   // asio, nested
    size_t strand_pick = 0;    // odd: that of any other supervisor instead of a new one
    bool sync_start = false;
    rotor::supervisor_policy_t policy = rotor::supervisor_policy_t::shutdown_self;
};

struct sup_rec_t {
    r::intrusive_ptr_t<r::supervisor_t> sup;
    std::shared_ptr<mon_t> mon;
    std::shared_ptr<std::atomic<bool>> down = std::make_shared<std::atomic<bool>>(false);
    std::string name;
    std::function<r::address_ptr_t()> fresh; // a new address of this supervisor
};

struct hook_t { // what the derived supervisors call
    std::shared_ptr<std::atomic<bool>> down;
    std::function<void()> at_down;
    hook_t() { live_actors.fetch_add(1, relaxed); }
    virtual ~hook_t() { live_actors.fetch_sub(1, relaxed); }
    virtual r::address_ptr_t fresh() = 0;
    void finished() { if (down) down->store(true, relaxed); if (at_down) at_down(); tick(); }
};
template <class Base> struct sup_of : Base, hook_t {
    using Base::Base;
    template <class S> using config_builder_t = typename Base::template config_builder_t<S>;
    void shutdown_finish() noexcept override { Base::shutdown_finish(); hook_t::finished(); }
    r::address_ptr_t fresh() override { return this->make_address(); }
    // the timers of request_timeout etc. go through here too
    void intercept(r::message_ptr_t &m, const void *tag, const r::continuation_t &c) noexcept override {
        if (intercepts) intercepts->fetch_add(1, relaxed);
        Base::intercept(m, tag, c);
    }
    std::atomic<uint64_t> *intercepts = nullptr;
};

struct loop_t {
    std::string kind;
    std::vector<sup_rec_t> sups; // [0] is the root
    std::vector<std::thread> threads;
    std::atomic<int> returned{0};
    int runners = 1;
    bool main_thread = false;
    virtual ~loop_t() = default;
    virtual void make_root(const opts_t &) = 0;
    virtual void make_nested(size_t parent, const opts_t &) = 0;
    virtual void run() = 0;                       // the running call of the backend
    virtual void start_root() { sups[0].sup->start(); }
    virtual void drain() { sups[0].sup->do_process(); }
    // loop's own clock in microseconds (what timers are measured by), and how imprecise the backend is
    virtual int64_t loop_clock() { return std::chrono::duration_cast<std::chrono::microseconds>(clk::now().time_since_epoch()).count(); }
    virtual int64_t start_clock(bool) { return loop_clock(); } // what a timer started now is measured from; inside a blocking handler or not
    virtual int64_t stale_us() { return 0; }                   // how long ago the clock of the loop has been updated
    int64_t early_us = 0, order_us = 0, unit_us = 1;
    r::supervisor_t &root() { return *sups[0].sup; }
    void spawn() { for (int i = 0; i < runners; ++i) threads.emplace_back([this] { run(); returned.fetch_add(1, relaxed); tick(); }); }
    bool down(size_t i = 0) { return sups[i].down->load(relaxed); }
    template <class P> sup_rec_t &adopt(P p, const std::string &name, std::shared_ptr<mon_t> mon = {}) {
        sups.emplace_back();
        auto &s = sups.back();
        s.sup = p; s.name = name;
        s.mon = mon ? mon : std::make_shared<mon_t>();
        if (!mon) s.mon->name = name;
        p->down = s.down;
        s.fresh = [q = p.get()] { return q->fresh(); };
        return s;
    }
};
std::unique_ptr<loop_t> make_loop(const std::string &kind, rng_t &g); // thread asio ev wx fltk

template <class B> auto build(B b, const opts_t &o) { // setters return the builder itself
    std::move(b).timeout(o.timeout); std::move(b).poll_duration(o.poll); std::move(b).synchronize_start(o.sync_start); std::move(b).policy(o.policy);
    if (o.queue >= 0) std::move(b).inbound_queue_size(size_t(o.queue));
    if (o.registry) std::move(b).create_registry(true);
    if (o.registry_addr) std::move(b).registry_address(o.registry_addr);
    if (o.flag) std::move(b).shutdown_flag(*o.flag, o.flag_every);
    return std::move(b).finish();
}

using workload_fn = std::function<void(rng_t &)>;
std::map<std::string, workload_fn> &registry();
struct workload_reg { workload_reg(const std::string &n, workload_fn f) { registry()[n] = std::move(f); } };
} // namespace rt
