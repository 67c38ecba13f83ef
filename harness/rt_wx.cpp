#include "rotor/wx.hpp"
#include "rt.hpp"
#include <wx/app.h>
#include <wx/apptrait.h>
#include <wx/evtloop.h>
#include <wx/init.h>

namespace rt { namespace {
struct app_t : wxAppConsole { bool OnInit() override { return true; } };
} wxAppConsole *the_app() {
    static app_t *a = [] { auto p = new app_t(); wxApp::SetInstance(p); wxInitialize(); p->CallOnInit(); return p; }();
    return a;
}
namespace { struct wx_loop_t : loop_t {
    using sup_t = sup_of<r::wx::supervisor_wx_t>;
    wxAppConsole *app = the_app();
    std::unique_ptr<wxEventLoopBase> loop{app->GetTraits()->CreateEventLoop()};
    r::wx::system_context_ptr_t ctx{new r::wx::system_context_wx_t(app)};
    wxEvtHandler handler;
    wx_loop_t() { main_thread = true; early_us = 2500; order_us = 3500; unit_us = 1000; wxEventLoopBase::SetActive(loop.get()); }
    ~wx_loop_t() override { sups.clear(); ctx.reset(); wxEventLoopBase::SetActive(nullptr); }
    void make_root(const opts_t &o) override {
        auto b = ctx->create_supervisor<sup_t>(); std::move(b).handler(&handler);
        auto p = build(std::move(b), o);
        adopt(p, "wx-root");
        p->at_down = [this] { if (loop->IsRunning()) loop->ScheduleExit(); };
    }
    void make_nested(size_t p, const opts_t &o) override {
        auto b = sups[p].sup->create_actor<sup_t>(); std::move(b).handler(&handler);
        adopt(build(std::move(b), o), "wx-nested", sups[0].mon);
    }
    void run() override { if (!down()) loop->Run(); }
    void drain() override { app->ProcessPendingEvents(); root().do_process(); }
};
} // namespace
std::unique_ptr<loop_t> make_wx_loop() { return std::make_unique<wx_loop_t>(); }
} // namespace rt
