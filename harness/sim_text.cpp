// Errors and their texts; rendering of messages (P19).
#include "sim.hpp"
#include <boost/core/demangle.hpp>
#include <algorithm>
#include <sstream>

namespace sim { namespace text {
namespace m = r::message;
using tokens_t = std::vector<std::string>;
static std::string ptr(const void *p) { std::stringstream s; s << p; return s.str(); }
static std::string num(r::request_id_t v) { return std::to_string(v); }
static std::string type(const void *t) { return boost::core::demangle(static_cast<const char *>(t)); }
static void add_point(tokens_t &t, const r::subscription_point_t &p) {
    using T = r::owner_tag_t;
    t.push_back(ptr(p.address.get()));
    t.push_back(type(p.handler->message_type()));
    t.push_back(p.owner_tag == T::PLUGIN ? "{P :" : p.owner_tag == T::SUPERVISOR ? "{S :" : p.owner_tag == T::FOREIGN ? "{F :" : "{A :"); // whose subscription it is
}
static void add_error(tokens_t &t, const r::extended_error_ptr_t &ee) {
    for (auto e = ee.get(); e; e = e->next.get()) { t.push_back(e->context); t.push_back(e->ec.message()); }
}
// a success must not look like a failure
static bool failure_of(const r::message_base_t &b, bool &is_response, std::string &named) {
    auto i = b.type_index; is_response = true;
#define RS(T, NAME) if (i == m::T::message_type) { auto &x = static_cast<const m::T &>(b); named = NAME; return bool(x.payload.ee); }
    RS(init_response_t, "") RS(shutdown_response_t, "") RS(registration_response_t, x.payload.req->payload.request_payload.service_name)
    RS(discovery_response_t, x.payload.req->payload.request_payload.service_name) RS(discovery_future_t, x.payload.req->payload.request_payload.service_name)
    RS(link_response_t, "") RS(unlink_response_t, "")
#undef RS
    return is_response = false;
}
// what has to be seen in the text of a message; the first one is the kind
static tokens_t expected(const r::message_base_t &b) {
    tokens_t t; auto i = b.type_index;
#define AS(T) if (i == m::T::message_type) { auto &x = static_cast<const m::T &>(b); (void)x;
    AS(unsubscription_t) t = {"unsubscription"}; add_point(t, x.payload.point); }
    else AS(unsubscription_external_t) t = {"unsubscription_external"}; add_point(t, x.payload.point); }
    else AS(subscription_t) t = {"subscription"}; add_point(t, x.payload.point); }
    else AS(external_subscription_t) t = {"external_subscription"}; add_point(t, x.payload.point); }
    else AS(commit_unsubscription_t) t = {"commit_unsubscription"}; add_point(t, x.payload.point); }
    else AS(handler_call_t) t = {"handler_call"}; for (auto &s : expected(*x.payload.orig_message)) t.push_back(s); t.push_back(ptr(x.payload.handler->actor_ptr)); }
    else AS(init_request_t) t = {"init_request", num(x.payload.id), ptr(x.address.get())}; }
    else AS(init_response_t) t = {"init_response", num(x.payload.req->payload.id), ptr(x.payload.req->payload.origin.get())}; add_error(t, x.payload.ee); }
    else AS(start_trigger_t) t = {"start_trigger", ptr(x.address.get())}; }
    else AS(shutdown_trigger_t) t = {"shutdown_trigger", ptr(x.payload.actor_address.get())}; add_error(t, x.payload.reason); }
    else AS(shutdown_request_t) t = {"shutdown_request", num(x.payload.id), ptr(x.payload.origin.get())}; add_error(t, x.payload.request_payload.reason); }
    else AS(shutdown_response_t) t = {"shutdown_response", num(x.payload.req->payload.id), ptr(x.payload.req->payload.origin.get())}; add_error(t, x.payload.ee); }
    else AS(create_actor_t) auto &a = *x.payload.actor; t = {"create_actor", ptr(x.address.get()), type(typeid(a).name())}; }
    else AS(spawn_actor_t) t = {"spawn_actor", ptr(x.address.get()), ptr(x.payload.spawner_address.get())}; }
    else AS(registration_request_t) t = {"registration_request", num(x.payload.id), x.payload.request_payload.service_name, ptr(x.payload.request_payload.service_addr.get())}; }
    else AS(registration_response_t) auto &q = x.payload.req->payload; t = {"registration_response", num(q.id), q.request_payload.service_name, ptr(q.request_payload.service_addr.get())}; add_error(t, x.payload.ee); }
    else AS(deregistration_notify_t) t = {"deregistration_notify", ptr(x.payload.service_addr.get())}; }
    else AS(deregistration_service_t) t = {"deregistration_service", x.payload.service_name}; }
    else AS(discovery_request_t) t = {"discovery_request", x.payload.request_payload.service_name}; }
    else AS(discovery_response_t) t = {"discovery_response", x.payload.req->payload.request_payload.service_name}; if (x.payload.ee) add_error(t, x.payload.ee); else t.push_back(ptr(x.payload.res.service_addr.get())); }
    else AS(discovery_promise_t) t = {"discovery_promise", x.payload.request_payload.service_name}; }
    else AS(discovery_future_t) t = {"discovery_future", x.payload.req->payload.request_payload.service_name}; if (x.payload.ee) add_error(t, x.payload.ee); else t.push_back(ptr(x.payload.res.service_addr.get())); }
    else AS(discovery_cancel_t) t = {"discovery_cancel", ptr(x.payload.source.get())}; }
    else AS(link_request_t) t = {"link_request", ptr(x.address.get()), ptr(x.payload.origin.get())}; }
    else AS(link_response_t) t = {"link_response", ptr(x.payload.req->payload.origin.get())}; add_error(t, x.payload.ee); }
    else AS(unlink_notify_t) t = {"unlink_notify", ptr(x.payload.client_addr.get())}; }
    else AS(unlink_request_t) t = {"unlink_request", ptr(x.payload.request_payload.server_addr.get())}; }
    else AS(unlink_response_t) t = {"unlink_response", ptr(x.payload.req->payload.request_payload.server_addr.get())}; add_error(t, x.payload.ee); }
    else t = {type(i)};
#undef AS
    t.push_back(ptr(b.address.get()));
    return t;
}
void verify(const r::message_base_t &b, const std::string &s) {
    auto t = expected(b);
    count("texts of " + (t[0].find("::") == std::string::npos ? t[0] : std::string("user messages")));
    if (s.find(t[0]) == std::string::npos || (t[0].find("subscription") != std::string::npos && s.find(" " + t[0]) == std::string::npos && s.find("::" + t[0] + " ") == std::string::npos))
        violate("P19", "%s is rendered as something else", t[0].c_str());
    bool response; std::string named;
    if (!failure_of(b, response, named) && response && named.find("fail") == std::string::npos) {
        count("texts of successful responses");
        if (s.find("fail") != std::string::npos) violate("P19", "text of a successful %s tells of a failure", t[0].c_str());
    }
    for (size_t i = 1; i < t.size(); ++i) {
        if (!t[i].empty() && s.find(t[i]) == std::string::npos) { violate("P19", "text of %s misses detail %d", t[0].c_str(), int(i)); if (R.verbose) fprintf(stderr, "'%s' misses '%s'\n", s.c_str(), t[i].c_str()); }
    }
}
struct checking_t : r::misc::default_stringifier_t {
    void stringify_to(std::ostream &out, const r::message_base_t &b) const override {
        static thread_local int depth;
        std::stringstream s; ++depth;
        r::misc::default_stringifier_t::stringify_to(s, b);
        if (!--depth) verify(b, s.str());
        out << s.str();
    }
};
} // namespace text
r::message_stringifier_ptr_t ctx_t::make_stringifier() const noexcept { return std::make_unique<text::checking_t>(); }

namespace text {
struct note_t { int n; };
struct ask_t { using response_t = note_t; int n; };
struct world_of_errors {
    world_t &w; rng_t &g; sup_t *sup; act_t *act;
    std::vector<r::address_ptr_t> addrs;
    std::vector<r::extended_error_ptr_t> errs; // nested ones
    std::vector<r::message_ptr_t> msgs;
    r::misc::default_stringifier_t plain;
    std::string word() {
        static const char *odd[] = {"", " ", "%s%n", "a <- b", "[x]", "\n", "\xd0\xb6", "'", "fail:", "=>"};
        if (g.chance(0.2)) return odd[g.range(0, 9)];
        std::string s; int n = g.chance(0.01) ? g.range(1000, 5000) : g.range(1, 12);
        while (n--) s += char('a' + g.range(0, 25));
        if (g.chance(0.05)) s += '\0', s += "tail";
        return s + std::to_string(g.u64() % 100000);
    }
    std::error_code code() {
        switch (g.range(0, 4)) {
        case 0: return r::make_error_code(r::error_code_t(g.range(0, 11)));
        case 1: return r::make_error_code(r::shutdown_code_t(g.range(0, 5)));
        case 2: return std::error_code(g.range(1, 100), std::system_category());
        case 3: return std::error_code(g.range(-3, 40), g.chance(0.5) ? static_cast<const std::error_category &>(r::error_code_category()) : r::shutdown_code_category());
        default: return {};
        }
    }
    r::extended_error_ptr_t error() { return errs.empty() || g.chance(0.3) ? r::extended_error_ptr_t() : g.pick(errs); }
    r::address_ptr_t addr() { return g.pick(addrs); }
    r::subscription_point_t point() {
        r::handler_ptr_t h;
        if (g.chance(0.5)) { auto l = r::lambda<r::message_t<note_t>>([](r::message_t<note_t> &) noexcept {}); using h_t = r::handler_t<decltype(l)>; h = new h_t(*act, std::move(l)); }
        else h = new r::handler_t<void (act_t::*)(m::init_request_t &) noexcept>(*act, nullptr);
        if (g.chance(0.5)) return r::subscription_point_t(h, addr());
        return r::subscription_point_t(h, addr(), act, r::owner_tag_t(g.range(0, 3)));
    }
    // a request of the given payload; id, reply address etc. are arbitrary
    template <class P, class... A> auto req(A &&...a) {
        using w_t = r::wrapped_request_t<P>;
        using msg_t = r::message_t<w_t>;
        return r::intrusive_ptr_t<msg_t>(static_cast<msg_t *>(r::make_message<w_t>(addr(), r::request_id_t(g.u64() >> g.range(0, 63)), addr(), addr(), std::forward<A>(a)...).get()));
    }
    template <class P, class Q, class... A> r::message_ptr_t res(Q q, A &&...a) {
        using w_t = typename r::request_traits_t<P>::response::wrapped_t;
        if (auto e = error()) return r::make_message<w_t>(addr(), e, std::move(q));
        return r::make_message<w_t>(addr(), std::move(q), std::forward<A>(a)...);
    }
    r::message_ptr_t make() {
        namespace p = r::payload;
        auto any = [&](auto q) { return r::message_ptr_t(q.get()); };
        switch (g.range(0, 28)) {
        case 0: return r::make_message<p::unsubscription_confirmation_t>(addr(), point());
        case 1: return r::make_message<p::external_unsubscription_t>(addr(), point());
        case 2: return r::make_message<p::subscription_confirmation_t>(addr(), point());
        case 3: return r::make_message<p::external_subscription_t>(addr(), point());
        case 4: return r::make_message<p::commit_unsubscription_t>(addr(), point());
        case 5: { if (msgs.empty()) return {}; auto o = g.pick(msgs); if (o->type_index == m::handler_call_t::message_type) return {}; auto c = r::make_message<p::handler_call_t>(addr(), o, point().handler); return c; }
        case 6: return any(req<p::initialize_actor_t>());
        case 7: return res<p::initialize_actor_t>(req<p::initialize_actor_t>());
        case 8: return r::make_message<p::start_actor_t>(addr());
        case 9: return r::make_message<p::shutdown_trigger_t>(addr(), addr(), error());
        case 10: return any(req<p::shutdown_request_t>(error()));
        case 11: return res<p::shutdown_request_t>(req<p::shutdown_request_t>(error()));
        case 12: return r::make_message<p::create_actor_t>(addr(), r::actor_ptr_t(g.chance(0.5) ? static_cast<r::actor_base_t *>(act) : sup), us(100));
        case 13: return r::make_message<p::spawn_actor_t>(addr(), addr());
        case 14: return any(req<p::registration_request_t>(word(), addr()));
        case 15: return res<p::registration_request_t>(req<p::registration_request_t>(word(), addr()));
        case 16: return r::make_message<p::deregistration_notify_t>(addr(), addr());
        case 17: return r::make_message<p::deregistration_service_t>(addr(), word());
        case 18: return any(req<p::discovery_request_t>(word()));
        case 19: return res<p::discovery_request_t>(req<p::discovery_request_t>(word()), addr());
        case 20: return any(req<p::discovery_promise_t>(word()));
        case 21: return res<p::discovery_promise_t>(req<p::discovery_promise_t>(word()), addr());
        case 22: return r::make_message<m::discovery_cancel_t::payload_t>(addr(), r::request_id_t(g.u64()), addr());
        case 23: return any(req<p::link_request_t>(g.chance(0.5)));
        case 24: return res<p::link_request_t>(req<p::link_request_t>(g.chance(0.5)));
        case 25: return r::make_message<p::unlink_notify_t>(addr(), addr());
        case 26: return any(req<p::unlink_request_t>(addr()));
        case 27: return res<p::unlink_request_t>(req<p::unlink_request_t>(addr()), addr());
        default: return g.chance(0.5) ? r::make_message<note_t>(addr(), note_t{1}) : any(req<ask_t>(1));
        }
    }
    // an independent statement of what the text of an error is made of
    void check(const r::extended_error_ptr_t &e, const std::vector<const r::extended_error_t *> &chain, bool with) {
        std::string s = e->message(with ? &plain : nullptr);
        size_t at = 0;
        for (size_t i = 0; i < chain.size(); ++i) {
            auto x = chain[i];
            for (auto part : {x->context, x->ec.message()}) {
                auto f = s.find(part, at);
                if (f == std::string::npos) { violate("P19", "text of an error of %d misses a part of error %d", int(chain.size()), int(i)); return; }
                at = f + part.size();
            }
            if (x->request) {
                auto t = plain.stringify(*x->request);
                auto f = s.find(t, at);
                if (with && f == std::string::npos) { violate("P19", "text of an error of %d misses the request of error %d", int(chain.size()), int(i)); return; }
                if (with) { at = f + t.size(); count("requests in texts of errors"); }
            }
        }
        if (!with) { // nothing but contexts, messages and the separators
            size_t n = 0; for (auto x : chain) n += x->context.size() + x->ec.message().size() + 1;
            n += 4 * (chain.size() - 1);
            if (s.size() != n) violate("P19", "text of an error has something extra or is damaged: %d, expected %d", int(s.size()), int(n));
        }
    }
    void errors() {
        bool deep = g.chance(0.005); int n = deep ? g.range(50, 400) : g.range(1, 12); // quadratic
        r::extended_error_ptr_t e; std::vector<const r::extended_error_t *> chain; r::extended_error_ptr_t inner;
        struct src_t { std::string c; std::error_code ec; const void *rq; }; std::vector<src_t> src;
        if (n < 50 && !errs.empty() && g.chance(0.3)) { // on the top of a shared one
            e = g.pick(errs); for (auto p = e.get(); p; p = p->next.get()) { chain.push_back(p); src.push_back({p->context, p->ec, p->request.get()}); } inner = r::extended_error_ptr_t(const_cast<r::extended_error_t *>(chain.back()));
        }
        for (int i = 0; i < n; ++i) {
            auto c = word(); if (deep && c.size() > 20) c.resize(20); auto ec = code(); r::message_ptr_t rq; if (!msgs.empty() && !deep && g.chance(0.3)) rq = g.pick(msgs);
            e = r::make_error(c, ec, e, rq);
            if (!inner) inner = e;
            chain.insert(chain.begin(), e.get()); src.insert(src.begin(), {c, ec, rq.get()});
        }
        auto p = e.get(); size_t i = 0;
        for (; p; p = p->next.get(), ++i) {
            if (i >= src.size() || p != chain[i]) { violate("P19", "the chain of errors is broken at %d", int(i)); return; }
            if (p->context != src[i].c || p->ec != src[i].ec || p->request.get() != src[i].rq) violate("P19", "error %d of the chain is changed", int(i));
        }
        if (i != src.size()) violate("P19", "the chain of errors is lost after %d", int(i));
        if (e->root() != inner) violate("P19", "root() is not the innermost error of %d", int(chain.size()));
        if (inner->root() != inner) violate("P19", "the innermost error is not the root of itself");
        check(e, chain, false); check(e, chain, true);
        count("error chains"); if (chain.size() > 2) count("error chains longer than two");
        if (chain.size() < 6 && g.chance(0.5)) { bool heavy = false; for (auto x : chain) heavy |= bool(x->request); if (!heavy) errs.push_back(e); }
        if (g.chance(0.5)) { auto q = e; e.reset(); inner.reset(); if (q->root()->ec != src.back().ec) violate("P19", "the root is lost"); }
    }
};
static void codes() {
    using E = r::error_code_t; using S = r::shutdown_code_t;
    static const std::vector<std::pair<E, std::pair<int, const char *>>> es = {
        {E::success, {0, "success"}}, {E::cancelled, {1, "cancelled"}}, {E::request_timeout, {2, "timeout"}}, {E::supervisor_defined, {3, "supervisor"}}, {E::already_registered, {4, "registered"}},
        {E::actor_misconfigured, {5, "misconfigured"}}, {E::actor_not_linkable, {6, "link"}}, {E::already_linked, {7, "linked"}}, {E::failure_escalation, {8, "escalation"}}, {E::registration_failed, {9, "registration"}},
        {E::discovery_failed, {10, "discovery"}}, {E::unknown_service, {11, "service"}}};
    static const std::vector<std::pair<S, std::pair<int, const char *>>> ss = {
        {S::normal, {0, "normal"}}, {S::supervisor_shutdown, {1, "supervisor"}}, {S::child_down, {2, "child"}}, {S::child_init_failed, {3, "init"}}, {S::init_failed, {4, "init"}}, {S::unlink_requested, {5, "unlink"}}};
    auto scan = [](auto &v, const std::error_category &cat, const std::error_category &other, const char *name) {
        std::set<std::string> seen;
        for (auto &p : v) {
            std::error_code c = p.first; // implicit conversion
            if (c != r::make_error_code(p.first) || c.category() != cat || c.value() != p.second.first) violate("P19", "%s: code %d is mapped to %d", name, p.second.first, c.value());
            if (c == std::error_code(c.value(), other)) violate("P19", "%s: code %d equals to a code of the other category", name, c.value());
            auto t = c.message();
            if (t.find(p.second.second) == std::string::npos) violate("P19", "%s: text of code %d is '%s'", name, c.value(), t.c_str());
            if (!seen.insert(t).second) violate("P19", "%s: text '%s' is shared by codes", name, t.c_str());
        }
        for (int x : {-1, int(v.size()), int(v.size()) + 7, 1 << 30}) { auto t = std::error_code(x, cat).message(); if (t.empty() || seen.count(t)) violate("P19", "%s: foreign code %d is shown as '%s'", name, x, t.c_str()); }
        if (std::string(cat.name()).find("rotor") == std::string::npos) violate("P19", "category is named %s", cat.name());
    };
    scan(es, r::error_code_category(), r::shutdown_code_category(), "error"); scan(ss, r::shutdown_code_category(), r::error_code_category(), "shutdown");
    if (std::string(r::error_code_category().name()) == r::shutdown_code_category().name()) violate("P19", "two categories of the same name");
    count("tables of codes");
}
static void fn(world_t &w) {
    auto &g = w.rng;
    codes();
    auto root = create_root(w, [&](auto &&b) { return std::move(b).timeout(ms(1000)); });
    act_t *a = nullptr; sup_ptr_t s;
    w.in_loc(*root->loc, [&] { a = root->create_actor<act_t>().timeout(ms(1000)).finish().get(); s = root->create_actor<sup_t>().timeout(ms(1000)).loc(w.new_loc()).finish(); });
    w.run(10000, virtual_now + 100000);
    {
        world_of_errors x{w, g, root.get(), a};
        x.addrs = {root->get_address(), s->get_address(), a->get_address(), a->new_address()};
        int n = g.range(20, 60);
        auto &st = w.ctx->get_stringifier();
        for (int i = 0; i < n; ++i) {
            if (g.chance(0.3)) { x.errors(); continue; }
            auto msg = x.make();
            if (!msg) continue;
            auto t = st.stringify(*msg); // verified on the way
            std::stringstream o; o << "<"; st.stringify_to(o, *msg); o << ">";
            if (o.str() != "<" + t + ">") violate("P19", "two renderings of one message differ");
            if (x.plain.stringify(*msg) != t) violate("P19", "rendering depends on history");
            tracef("%s", text::type(msg->type_index).c_str());
            if (x.msgs.size() < 40) x.msgs.push_back(msg); else x.msgs[g.below(40)] = msg;
        }
        x.msgs.clear(); x.errs.clear(); x.addrs.clear();
    }
    w.act(*root->loc, [&] { root->do_shutdown(); });
    w.run(20000);
    w.check_lifecycle();
    s.reset(); root.reset();
    w.finish();
}
static workload_reg r1("text", [](world_t &w) { fn(w); });
} }
