#include "sim.hpp"
namespace sim {
static void smoke(world_t &w) {
    auto root = create_root(w, [&](auto &&b) { return std::move(b).timeout(ms(100)); });
    auto sp = std::make_shared<spec_t>();
    w.in_loc(*root->loc, [&] { for (int i = 0; i < 3; ++i) root->template create_actor<act_t>().timeout(ms(50)).spec(sp).finish();
      auto s = root->template create_actor<sup_t>().timeout(ms(50)).loc(w.new_loc()).finish();  s->template create_actor<act_t>().timeout(ms(50)).finish();});
    w.run(10000, virtual_now + 1000000);
    w.in_loc(*root->loc, [&] { root->do_shutdown(); root->loc->kick = true; });
    w.run(10000, virtual_now + 1000000);
    w.check_lifecycle();
    root.reset();
    w.finish();
}
static workload_reg reg("smoke", smoke);
}
