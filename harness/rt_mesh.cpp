// Several real event loops exchange everything the library offers; every receipt is accounted for.
#include "rt.hpp"
#include <list>
namespace { namespace to { struct state {}; } }
namespace rotor { template <> inline auto &actor_base_t::access<to::state>() noexcept { return state; } }

namespace rt { namespace mesh {
namespace payload {
struct item_t { uint32_t from, seq, hops; tp_t sent; counted_t c; };
struct post_t { uint32_t from, seq; counted_t c; };                 // on topics
struct routed_t { uint32_t no, firsts; std::shared_ptr<std::atomic<uint32_t>> hits; std::shared_ptr<std::atomic<bool>> ended; counted_t c; };
struct res_t { uint32_t n = 0; counted_t c; res_t() = default; res_t(uint32_t n_) : n(n_) {} };
struct req_t { using response_t = res_t; uint32_t n; bool defer; counted_t c; req_t(uint32_t n_, bool d) : n(n_), defer(d) {} };
struct probe_t { uint32_t n; tp_t sent; counted_t c; };             // from outside, one by one
struct end_t {};
} // namespace payload
using item_m = r::message_t<payload::item_t>;
using post_m = r::message_t<payload::post_t>;
using routed_m = r::message_t<payload::routed_t>;
using probe_m = r::message_t<payload::probe_t>;
using req_m = r::request_traits_t<payload::req_t>::request::message_t;
using res_m = r::request_traits_t<payload::req_t>::response::message_t;

struct node_t;
struct case_t {
    rng_t &g;
    std::vector<std::unique_ptr<loop_t>> loops;
    std::vector<r::intrusive_ptr_t<node_t>> nodes;
    std::vector<r::address_ptr_t> addrs;      // of the nodes
    std::vector<r::address_ptr_t> topics;     // topic i belongs to node owner[i]
    std::vector<uint32_t> owner;
    std::vector<std::vector<uint32_t>> subs;  // nodes subscribed to the topic
    uint32_t outsiders = 0, n_nodes = 0;
    std::atomic<int64_t> outstanding{0};
    std::atomic<uint32_t> started{0}, finished{0};
    std::atomic<uint32_t> probe_back{0};
    std::atomic<int64_t> worst_us{0};
    std::atomic<bool> loss_ok{false};         // shutdown has been started
    bool early = false, registry = false, links = false, operational = true; // no waiting for started servers when the start is synchronized
    double p_req = 0, p_post = 0, p_route = 0, p_timer = 0, p_dyn = 0, p_temp = 0, p_slow = 0;
    case_t(rng_t &g_) : g(g_) {}
    std::vector<std::vector<uint32_t>> outsider_seq; uint32_t probe_no = 0;
    int64_t left() { return outstanding.load(relaxed); }
};

struct temp_t : r::actor_base_t { // comes, sends, goes
    explicit temp_t(r::actor_config_t &cfg) : r::actor_base_t(cfg) { live_actors.fetch_add(1, relaxed); }
    std::shared_ptr<mon_t> mon; r::address_ptr_t to; payload::item_t item;
    ~temp_t() override { live_actors.fetch_sub(1, relaxed); }
    void on_start() noexcept override {
        r::actor_base_t::on_start();
        enter_t e(*mon, "start of a temporary actor");
        send<payload::item_t>(to, item);
        do_shutdown();
    }
};

struct spec_t { case_t *C; uint32_t id; std::shared_ptr<mon_t> mon; uint64_t seed; std::vector<uint32_t> my_topics, servers; bool blocking, discover; };
static thread_local const spec_t *spec = nullptr; // of the node being created
struct node_t : r::actor_base_t {
    case_t *C; uint32_t id; std::shared_ptr<mon_t> mon;
    rng_t rng{1};
    std::vector<uint32_t> out, in, posts_in; // sequence numbers by peer
    uint32_t posts_out = 0, routed_out = 0, timers = 0;
    uint64_t received = 0, responses = 0, routed_in = 0, posts_seen = 0, requests = 0, dyn_seen = 0, dyns = 0;
    std::set<uint64_t> routed_seen;
    std::set<std::pair<uint32_t, uint32_t>> missing; // peer, number
    std::vector<r::intrusive_ptr_t<req_m>> deferred;
    std::vector<uint32_t> my_topics, servers; bool blocking, discover;
    r::subscription_info_ptr_t dyn; uint32_t dyn_topic = 0;
    bool up = false;
    explicit node_t(r::actor_config_t &cfg) : r::actor_base_t(cfg), C(spec->C), id(spec->id), mon(spec->mon), rng(spec->seed), my_topics(spec->my_topics), servers(spec->servers), blocking(spec->blocking), discover(spec->discover) {
        live_actors.fetch_add(1, relaxed);
        out.resize(C->n_nodes); in.resize(C->n_nodes + C->outsiders); posts_in.resize(C->n_nodes);
    }
    ~node_t() override { live_actors.fetch_sub(1, relaxed); }

    void configure(r::plugin::plugin_base_t &plugin) noexcept override {
        r::actor_base_t::configure(plugin);
        plugin.with_casted<r::plugin::address_maker_plugin_t>([&](auto &p) { p.set_identity("node", false); });
        plugin.with_casted<r::plugin::starter_plugin_t>([&](auto &p) {
            auto i = p.subscribe_actor(&node_t::on_item);
            if (blocking) i->tag_io();
            p.subscribe_actor(&node_t::on_req);
            p.subscribe_actor(&node_t::on_res);
            p.subscribe_actor(&node_t::on_probe);
            p.subscribe_actor(&node_t::on_routed_end);
            for (auto t : my_topics) { p.subscribe_actor(&node_t::on_post, C->topics[t]); p.subscribe_actor(&node_t::on_routed, C->topics[t]); }
        });
        if (C->registry) plugin.with_casted<r::plugin::registry_plugin_t>([&](auto &p) {
            p.register_name(fmt("node-%u", id), get_address());
            if (discover) for (auto s : servers) { found.emplace_back(); p.discover_name(fmt("node-%u", s), found.back(), true).link(C->operational); }
        });
        if (!discover && C->links) plugin.with_casted<r::plugin::link_client_plugin_t>([&](auto &p) { for (auto s : servers) p.link(C->addrs[s], C->operational && rng.chance(0.5), [](auto &) {}); });
    }
    std::list<r::address_ptr_t> found; // filled by discovery

    void hash(uint64_t x) { mon->order = (mon->order ^ (x + id * 131)) * 1099511628211ull; }
    payload::item_t item_to(uint32_t to, uint32_t hops) { C->outstanding.fetch_add(1, relaxed); return payload::item_t{id, ++out[to], hops, clk::now(), {}}; }
    void throw_item(uint32_t hops) {
        auto to = uint32_t(rng.below(C->n_nodes));
        send<payload::item_t>(C->addrs[to], item_to(to, hops));
    }
    void on_start() noexcept override {
        r::actor_base_t::on_start();
        enter_t e(*mon, "on_start");
        up = true;
        C->started.fetch_add(1, relaxed);
    }
    void shutdown_start() noexcept override {
        deferred.clear();
        r::actor_base_t::shutdown_start();
    }
    void shutdown_finish() noexcept override {
        enter_t e(*mon, "shutdown_finish");
        r::actor_base_t::shutdown_finish();
        dyn.reset(); found.clear(); // these refer to the actor, i.e. would be loops of references made by the harness
        C->finished.fetch_add(1, relaxed);
    }
    // a step of a random walk: what to do on a receipt
    void act(uint32_t hops) {
        if (rng.chance(C->p_slow)) { auto until = clk::now() + std::chrono::microseconds(rng.range(5, 300)); while (clk::now() < until) ; }
        if (rng.chance(C->p_req)) {
            auto to = uint32_t(rng.below(C->n_nodes));
            C->outstanding.fetch_add(1, relaxed); requests++;
            request<payload::req_t>(C->addrs[to], id * 1000000 + uint32_t(requests), rng.chance(0.2)).send(ms(120000));
        }
        if (!C->topics.empty() && rng.chance(C->p_post)) { // publish on an own topic
            for (size_t t = 0; t < C->topics.size(); ++t) if (C->owner[t] == id) {
                C->outstanding.fetch_add(int64_t(C->subs[t].size()), relaxed);
                send<payload::post_t>(C->topics[t], payload::post_t{id, ++posts_out, {}});
                break;
            }
        }
        if (!C->topics.empty() && rng.chance(C->p_route)) { // to any topic, then to a node
            auto t = rng.below(C->topics.size());
            auto to = rng.below(C->n_nodes);
            uint32_t firsts = uint32_t(C->subs[t].size());
            C->outstanding.fetch_add(int64_t(firsts) + 1, relaxed);
            auto h = std::make_shared<std::atomic<uint32_t>>(0);
            route<payload::routed_t>(C->topics[t], C->addrs[to], payload::routed_t{id * 1000000 + ++routed_out, firsts, h, std::make_shared<std::atomic<bool>>(false), {}});
        }
        if (rng.chance(C->p_timer)) { C->outstanding.fetch_add(1, relaxed); timers++; start_timer(us(rng.range(0, 3000)), *this, &node_t::on_timer); }
        if (rng.chance(C->p_temp)) {
            auto to = uint32_t(rng.below(C->n_nodes));
            // numbered by an outsider's series of its own: temporary actors are not ordered among themselves
            C->outstanding.fetch_add(1, relaxed);
            auto &s = get_supervisor();
            auto t = s.create_actor<temp_t>().timeout(ms(60000)).finish();
            t->mon = mon; t->to = C->addrs[to]; t->item = payload::item_t{~0u, 0, 0, clk::now(), {}};
        }
        if (!C->topics.empty() && rng.chance(C->p_dyn)) { // subscribe to and unsubscribe from a topic while it is in use
            if (!lifetime) return; if (dyn) { lifetime->unsubscribe(dyn); dyn.reset(); }
            else { dyn_topic = uint32_t(rng.below(C->topics.size())); dyn = subscribe(r::lambda<post_m>([this](post_m &) noexcept { enter_t e(*mon, "dynamic handler"); dyn_seen++; }), C->topics[dyn_topic]); dyns++; }
        }
        if (hops) throw_item(hops - 1);
    }
    void on_timer(r::request_id_t, bool cancelled) noexcept {
        if (cancelled && !C->loss_ok.load(relaxed)) bad("P18", "a timer has been cancelled by nobody");
        enter_t e(*mon, "timer callback", false);
        timers--;
        C->outstanding.fetch_sub(1, relaxed);
        if (!cancelled) throw_item(0);
    }
    void on_item(item_m &m) noexcept {
        enter_t e(*mon, "handler of items");
        auto &p = m.payload; received++; hash(p.from * 1000003ull + p.seq);
        if (p.from != ~0u) {
            auto &last = in[p.from];
            if (p.seq == last + 1 || (!last && C->early)) last = p.seq; // early: sent before the handler is subscribed
            else if (p.seq <= last) {
                if (missing.erase({p.from, p.seq})) bad("P02", "item %u of %s %u is received by node %u after item %u", p.seq, p.from < C->n_nodes ? "node" : "outsider", p.from, id, last);
                else for (auto t : {"P01", "P17"}) bad(t, "item %u of %s %u is received by node %u again", p.seq, p.from < C->n_nodes ? "node" : "outsider", p.from, id);
            }
            else {
                bad(C->loss_ok.load(relaxed) ? "P02" : "P17", "item %u of %s %u comes to node %u right after item %u: lost or overtaken", p.seq, p.from < C->n_nodes ? "node" : "outsider", p.from, id, last);
                while (++last < p.seq) missing.insert({p.from, last});
            }
        }
        auto lat = us_between(p.sent, clk::now());
        if (lat > C->worst_us.load(relaxed)) C->worst_us.store(lat, relaxed);
        C->outstanding.fetch_sub(1, relaxed);
        act(p.hops);
    }
    void on_req(req_m &m) noexcept {
        enter_t e(*mon, "handler of requests");
        if (m.payload.request_payload.defer && up) { deferred.emplace_back(&m); C->outstanding.fetch_add(1, relaxed); timers++; start_timer(us(rng.range(0, 2000)), *this, &node_t::on_answer); }
        else reply_to(m, m.payload.request_payload.n);
    }
    void on_answer(r::request_id_t, bool cancelled) noexcept {
        enter_t e(*mon, "timer of an answer", false);
        C->outstanding.fetch_sub(1, relaxed);
        if (cancelled || deferred.empty()) return;
        auto m = deferred.front(); deferred.erase(deferred.begin());
        reply_to(*m, m->payload.request_payload.n);
    }
    std::set<uint32_t> answered;
    void on_res(res_m &m) noexcept {
        enter_t e(*mon, "handler of responses");
        if (m.payload.ee) { if (!C->loss_ok.load(relaxed)) for (auto t : {"P04", "P17"}) bad(t, "a request over event loops failed: %s", m.payload.ee->message().c_str()); return; }
        auto n = m.payload.req->payload.request_payload.n;
        if (m.payload.res.n != n) bad("P04", "answer %u to request %u", m.payload.res.n, n);
        if (!answered.insert(n).second) bad("P04", "request %u is answered twice", n);
        responses++; hash(n);
        C->outstanding.fetch_sub(1, relaxed);
    }
    void on_post(post_m &m) noexcept {
        enter_t e(*mon, "handler of posts");
        auto &p = m.payload; auto &last = posts_in[p.from]; posts_seen++;
        if (p.seq <= last) for (auto t : {"P01", "P02", "P17"}) bad(t, "post %u of %u is received by node %u again or late, after %u", p.seq, p.from, id, last);
        else if (p.seq != last + 1 && !(!last && C->early)) for (auto t : {"P01", "P02", "P17"}) bad(t, "post %u of %u comes to node %u right after post %u", p.seq, p.from, id, last);
        if (p.seq > last) last = p.seq;
        hash(p.seq); C->outstanding.fetch_sub(1, relaxed);
    }
    void on_routed(routed_m &m) noexcept {
        enter_t e(*mon, "handler of routed messages");
        if (m.payload.ended->load(relaxed)) bad("P14", "routed message %u is still being handled at its first address after it has been handled at the second one", m.payload.no);
        m.payload.hits->fetch_add(1, relaxed); hash(m.payload.no);
        C->outstanding.fetch_sub(1, relaxed);
    }
    void on_routed_end(routed_m &m) noexcept {
        enter_t e(*mon, "second handler of routed messages");
        auto &p = m.payload; auto h = p.hits->load(relaxed);
        p.ended->store(true, relaxed);
        if (!routed_seen.insert(p.no).second) bad("P14", "routed message %u has reached its second address twice", p.no);
        if (h != p.firsts && !C->loss_ok.load(relaxed)) bad("P14", "routed message %u is at its second address after %u of %u first recipients", p.no, h, p.firsts);
        routed_in++; C->outstanding.fetch_sub(1, relaxed);
    }
    void on_probe(probe_m &m) noexcept {
        enter_t e(*mon, "handler of probes");
        auto lat = us_between(m.payload.sent, clk::now());
        if (lat > C->worst_us.load(relaxed)) C->worst_us.store(lat, relaxed);
        C->probe_back.store(m.payload.n, std::memory_order_release);
        tick();
    }
};

struct traits_t { std::vector<std::string> kinds; bool early = false; };

static void fn(rng_t &g, const traits_t &T) {
    live_payloads.store(0, relaxed); live_actors.store(0, relaxed);
    {
        case_t C(g); C.early = T.early; C.loss_ok = T.early;
        size_t n_loops = T.kinds.size();
        C.registry = g.chance(0.4); C.links = g.chance(0.4);
        std::atomic_bool flags[8] = {};
        std::vector<int> how_down(n_loops); // 0 shutdown(), 1 flag
        std::string world;
        for (size_t i = 0; i < n_loops; ++i) {
            C.loops.push_back(make_loop(T.kinds[i], g));
            auto &l = *C.loops.back();
            opts_t o;
            o.poll = g.chance(0.4) ? us(0) : g.chance(0.5) ? us(g.range(1, 200)) : ms(g.range(1, 3));
            if (g.chance(0.5)) o.queue = g.chance(0.5) ? g.range(0, 2) : 1024;
            o.threads = g.chance(0.5) ? 1 : g.range(2, 3);
            o.sync_start = g.chance(0.3); if (o.sync_start) C.operational = false;
            how_down[i] = g.chance(0.25) ? 1 : 0;
            if (how_down[i]) { o.flag = &flags[i]; o.flag_every = ms(g.range(1, 20)); }
            if (C.registry) { if (i == 0) o.registry = true; else o.registry_addr = C.loops[0]->root().get_registry_address(); }
            l.make_root(o);
            int nested = g.chance(0.5) ? 0 : g.range(1, 2);
            for (int k = 0; k < nested; ++k) {
                opts_t n = o; n.flag = nullptr; n.registry = false; n.own_strand = g.chance(0.5); n.strand_pick = g.below(100); n.poll = g.chance(0.5) ? us(0) : us(g.range(1, 300));
                l.make_nested(g.below(l.sups.size()), n);
            }
            world += fmt("%s[%d poll %d threads %d%s] ", T.kinds[i].c_str(), int(l.sups.size()), int(o.poll.total_microseconds()), l.runners, how_down[i] ? " flag" : "");
            for (size_t k = 0; k < l.sups.size(); ++k) l.sups[k].mon->name = fmt("%s.%d", l.kind.c_str(), int(k));
        }
        bool blocking_ok = g.chance(0.4);
        C.p_req = g.chance(0.5) ? 0.2 : 0; C.p_post = g.chance(0.5) ? 0.2 : 0; C.p_route = g.chance(0.5) ? 0.25 : 0; C.p_timer = g.chance(0.4) ? 0.1 : 0;
        C.p_dyn = g.chance(0.4) ? 0.1 : 0; C.p_temp = g.chance(0.3) ? 0.03 : 0; C.p_slow = g.chance(0.3) ? 0.1 : 0;
        std::vector<std::pair<size_t, size_t>> place;
        for (size_t i = 0; i < n_loops; ++i) for (size_t k = 0; k < C.loops[i]->sups.size(); ++k) { int n = g.range(k ? 1 : 0, 2); while (n--) place.emplace_back(i, k); }
        if (place.size() < 2) { place.emplace_back(0, 0); place.emplace_back(n_loops - 1, 0); }
        g.shuffle(place);
        C.n_nodes = uint32_t(place.size()); C.outsiders = uint32_t(g.range(0, 3));
        int n_topics = g.range(0, 3);
        for (int t = 0; t < n_topics; ++t) {
            C.owner.push_back(uint32_t(g.below(C.n_nodes)));
            C.subs.emplace_back(); for (uint32_t i = 0; i < C.n_nodes; ++i) if (g.chance(0.5)) C.subs.back().push_back(i);
            auto p = place[C.owner[t]];
            C.topics.push_back(C.loops[p.first]->sups[p.second].fresh());
            for (int u = 0; u < t; ++u) if (C.owner[t] == C.owner[u]) { C.owner[t] = ~0u; break; } // one publisher, one topic
        }
        for (uint32_t i = 0; i < C.n_nodes; ++i) {
            auto &s = C.loops[place[i].first]->sups[place[i].second];
            spec_t sp{&C, i, s.mon, g.u64(), {}, {}, blocking_ok && g.chance(0.5), C.registry && g.chance(0.5)};
            for (int t = 0; t < n_topics; ++t) for (auto x : C.subs[t]) if (x == i) sp.my_topics.push_back(t);
            if (C.links) for (uint32_t j = 0; j < i; ++j) if (g.chance(0.3)) sp.servers.push_back(j);
            spec = &sp; // early: a request to link with somebody already gone is ended by the timeout only
            auto a = s.sup->create_actor<node_t>().init_timeout(T.early ? ms(1000) : ms(60000)).shutdown_timeout(ms(60000)).finish();
            spec = nullptr;
            C.nodes.push_back(a); C.addrs.push_back(a->get_address());
        }
        if (R.verbose) fprintf(stderr, "%s nodes %u topics %d outsiders %u registry %d links %d\n", world.c_str(), C.n_nodes, n_topics, C.outsiders, C.registry, C.links);
        // the driver
        bool early = T.early; int64_t early_at = g.below(3) == 0 ? g.range(0, 300) : g.range(0, 5000);
        uint32_t first_hops = uint32_t(g.range(3, 60)); int first_items = g.range(1, 8); int probes = g.range(20, 120); int rounds = g.range(1, 2);
        bool throttled = g.chance(0.5);
        std::atomic<bool> stop_outsiders{false};
        uint64_t dseed = g.u64(); auto kick_all = g.chance(0.3);
        auto driver = [&] {
            rng_t d(dseed);
            auto poll_until = [&](auto done) { while (!done()) nap(100); };
            for (auto &l : C.loops) l->start_root();
            for (auto &l : C.loops) if (!l->main_thread) l->spawn();
            std::vector<std::thread> late; // they go on while everything stops
            std::atomic<bool> enough{false};
            if (early) {
                for (uint32_t o = 0; o < C.outsiders; ++o) late.emplace_back([&, o, seed = d.u64()] {
                    rng_t q(seed); auto from = C.n_nodes + o;
                    for (int n = 0; n < 3000 && !enough.load(relaxed); ++n) {
                        auto to = uint32_t(q.below(C.n_nodes));
                        C.addrs[to]->supervisor.enqueue(r::make_message<payload::item_t>(C.addrs[to], payload::item_t{from, ++C.outsider_seq[o][to], uint32_t(q.chance(0.1) ? 3 : 0), clk::now(), {}}));
                        nap(q.range(0, 100));
                    }
                });
                nap(early_at);
            }
            else {
                awaiting("P17", fmt("start of the actors (%s)", world.c_str()));
                poll_until([&] { return C.started.load(relaxed) == C.n_nodes; });
                for (int round = 0; round < rounds; ++round) {
                    awaiting("P17", fmt("messages in flight (%s)", world.c_str()));
                    std::vector<std::thread> os;
                    for (uint32_t o = 0; o < C.outsiders; ++o) os.emplace_back([&, o, seed = d.u64()] {
                        rng_t q(seed); auto from = C.n_nodes + o;
                        int n = q.range(5, 200);
                        for (int k = 0; k < n; ++k) {
                            auto to = uint32_t(q.below(C.n_nodes));
                            C.outstanding.fetch_add(1, relaxed);
                            auto m = r::make_message<payload::item_t>(C.addrs[to], payload::item_t{from, ++C.outsider_seq[o][to], uint32_t(q.chance(0.2) ? 5 : 0), clk::now(), {}});
                            C.addrs[to]->supervisor.enqueue(std::move(m));
                            if (throttled) nap(q.range(0, 60));
                        }
                    });
                    for (int k = 0; k < first_items; ++k) { // the walks
                        auto to = uint32_t(d.below(C.n_nodes));
                        C.outstanding.fetch_add(1, relaxed);
                        C.addrs[to]->supervisor.enqueue(r::make_message<payload::item_t>(C.addrs[to], payload::item_t{~0u, 0, first_hops, clk::now(), {}}));
                    }
                    for (auto &t : os) t.join();
                    poll_until([&] { return C.left() <= 0; });
                    if (C.left() < 0) bad("P17", "more has been received than sent: %d", int(-C.left()));
                    // single messages to loops which are falling asleep
                    awaiting("P17", fmt("an outside message to a sleeping loop (%s)", world.c_str()));
                    for (int k = 0; k < probes; ++k) {
                        auto to = uint32_t(d.below(C.n_nodes));
                        auto n = ++C.probe_no;
                        C.addrs[to]->supervisor.enqueue(r::make_message<payload::probe_t>(C.addrs[to], payload::probe_t{n, clk::now(), {}}));
                        int spins = 0;
                        while (C.probe_back.load(std::memory_order_acquire) != n) { if (++spins > 2000) nap(50); }
                        int pause = d.range(0, 3);
                        if (pause == 1) { auto u = clk::now() + std::chrono::microseconds(d.range(1, 80)); while (clk::now() < u) ; }
                        else if (pause == 2) nap(d.range(50, 400));
                        else if (pause == 3 && d.chance(0.05)) nap(d.range(1000, 5000));
                    }
                }
            }
            // the end
            awaiting("P17", fmt("shutdown (%s)", world.c_str()));
            C.loss_ok.store(true, relaxed);
            std::vector<size_t> order; for (size_t i = 0; i < n_loops; ++i) order.push_back(i);
            d.shuffle(order);
            auto stop = [&](size_t i) {
                if (how_down[i]) flags[i].store(true); else C.loops[i]->root().shutdown();
                if (early && d.chance(0.2) && !how_down[i]) C.loops[i]->root().shutdown();
            };
            // with names and links the first loop serves the others: it is the last one
            bool first_last = C.registry || C.links || C.p_dyn || n_topics;
            (void)first_last;
            for (auto i : order) if (i != 0) { stop(i); nap(d.chance(0.5) ? 0 : d.range(0, 500)); }
            for (size_t i = 1; i < n_loops; ++i) { awaiting("P17", fmt("end of loop %d (%s)", int(i), world.c_str())); poll_until([&] { return C.loops[i]->down() && C.loops[i]->returned.load(relaxed) == C.loops[i]->runners; }); }
            stop(0);
            awaiting("P17", fmt("end of loop 0 (%s)", world.c_str()));
            poll_until([&] { return C.loops[0]->down() && C.loops[0]->returned.load(relaxed) == C.loops[0]->runners; });
            if (d.chance(0.5)) nap(d.range(0, 300));
            enough.store(true, relaxed);
            for (auto &t : late) t.join();
        };
        loop_t *main_loop = nullptr;
        for (auto &l : C.loops) if (l->main_thread) main_loop = l.get();
        C.outsider_seq.assign(C.outsiders, std::vector<uint32_t>(C.n_nodes));
        std::thread dt(driver);
        if (main_loop) { main_loop->run(); main_loop->returned.fetch_add(1, relaxed); tick(); }
        dt.join();
        for (auto &l : C.loops) for (auto &t : l->threads) t.join();
        not_awaiting();
        // afterwards
        uint64_t calls = 0, order = 0, items = 0, res = 0, posts = 0, routed = 0, dyn = 0;
        for (auto &l : C.loops) {
            if (kick_all) l->drain();
            for (auto &s : l->sups) {
                if (!s.down->load(relaxed)) bad("P17", "%s is not shut down", s.mon->name.c_str());
                calls += s.mon->calls; order ^= s.mon->order;
            }
        }
        for (auto &n : C.nodes) {
            if (static_cast<r::actor_base_t &>(*n).access<to::state>() != r::state_t::SHUT_DOWN) bad("P17", "node %u is not shut down", n->id);
            if (!n->missing.empty() && !early) bad("P01", "%d items have never come to node %u, although later ones have", int(n->missing.size()), n->id);
            items += n->received; res += n->responses; posts += n->posts_seen; routed += n->routed_in; dyn += n->dyn_seen;
        }
        { std::lock_guard<std::mutex> l(big_lock); R.trace_hash ^= order; }
        seen("handlers called", calls); seen("items received", items); seen("answers", res); seen("posts received", posts); seen("routed messages", routed);
        seen("receipts by dynamic handlers", dyn); seen("probes", C.probe_no); seen("outsiders", C.outsiders); seen("loops", n_loops);
        if (early) seen("early shutdowns");
        seen(fmt("latency, worst in a case: under %s", C.worst_us.load() < 1000 ? "1 ms" : C.worst_us.load() < 100000 ? "100 ms" : C.worst_us.load() < 1000000 ? "1 s" : "20 s"));
        C.nodes.clear(); 
        C.topics.clear(); C.addrs.clear();
        // supervisors of all loops must outlive the addresses; release them together
        for (auto &l : C.loops) if (l->main_thread) l.reset(); // the main loop still processes what has come
        C.loops.clear();
    }
    if (auto n = live_payloads.load(relaxed)) bad("P15", "%d payloads are still alive after everything is dropped", int(n));
    if (auto n = live_actors.load(relaxed)) bad("P15", "%d actors are still alive after everything is dropped", int(n));
}
static std::vector<std::string> some(rng_t &g, const std::vector<std::string> &from, int lo, int hi) { std::vector<std::string> v; int n = g.range(lo, hi); while (n--) v.push_back(from[g.below(from.size())]); return v; }
#define MESH(name, make) \
    static workload_reg r_##name("mesh-" #name, [](rng_t &g) { fn(g, {make, false}); }); \
    static workload_reg e_##name("stop-" #name, [](rng_t &g) { fn(g, {make, true}); });
static std::vector<std::string> with_main(rng_t &g, const char *main) { auto v = some(g, {"thread", "asio", "ev"}, 0, 2); v.insert(v.begin() + g.below(v.size() + 1), main); return v; }
MESH(thread, some(g, {"thread"}, 1, 3))
MESH(asio, some(g, {"asio"}, 1, 3))
MESH(ev, some(g, {"ev"}, 1, 3))
MESH(mix, some(g, {"thread", "asio", "ev"}, 2, 4))
MESH(wx, with_main(g, "wx"))
MESH(fltk, with_main(g, "fltk"))
} } // namespace rt::mesh
