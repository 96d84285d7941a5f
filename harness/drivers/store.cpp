// Random life cycles of a ParticleGroup; see spec/Store.tla.
#include "store.hpp"
using namespace nv;
int main(int argc, char **argv) {
  init(argc, argv);
  auto &c = ctx();
  const int ntraces = (int)c.get("traces", 3), nops = (int)c.get("ops", 14);
  const std::string mode = c.gets("mode", "moves");
  for (int t = 0; t < ntraces; t++) {
    Rng rng(mix(c.seed, t, c.size));
    vsycl::reseed(mix(c.seed, t, c.rank, 3));
    Store s(rng);
    int nd = rng.in(2, 3), sub = rng.below(3);
    if (nd == 3 && sub == 2)
      sub = 1;
    std::vector<int> dims = {rng.in(1, 4), rng.in(1, 4), rng.in(1, 3)};
    if (sub == 0)
      dims[0] += 2;
    if (nd == 2)
      dims.resize(2);
    // what the mesh falls back to: a decomposition over one dimension
    while (*std::max_element(dims.begin(), dims.end()) << sub < c.size)
      dims[0]++;
    double ext = rng.pick(std::vector<double>{1.0, 1.0, 0.5, 4.0, 0.3, 1.7});
    std::vector<PropDef> ps = {{"A", true, rng.in(1, 3)},
                               {"B", false, rng.in(1, 3)}};
    if (rng.chance(50))
      ps.push_back({"CC", true, 2});
    s.setup(nd, dims, ext, sub, rng.below(3), ps);
    s.emit_init("store");
    int big = rng.chance((int)c.get("big", 10));
    auto howmany = [&] {
      return big ? rng.in(300, 900)
                 : rng.pick(std::vector<int>{0, 1, 2, 5, 20, 60, 100});
    };
    s.add_set(big ? 700 : rng.in(20, 80), rng.below(3));
    int ops = big ? nops / 2 : nops;
    for (int k = 0; k < ops; k++) {
      int o = rng.below(100);
      if (mode == "moves") {
        if (o < 30) {
          s.set_pos();
          s.hybrid_move();
          if (rng.chance(80))
            s.cell_move();
        } else if (o < 40)
          s.hybrid_move();
        else if (o < 58)
          s.global_move();
        else if (o < 70)
          s.local_move();
        else if (o < 78)
          s.set_val();
        else if (o < 84)
          s.add_set(howmany(), rng.below(3));
        else if (o < 88) {
          s.add_dat();
          s.set_val();
        } else if (o < 92)
          s.del_dat();
        else if (o < 96)
          s.remove(rng.below(4));
        else
          s.clear_one();
      } else {
        if (o < 25)
          s.remove(rng.below(4));
        else if (o < 50)
          s.add_set(howmany(), rng.below(3));
        else if (o < 72)
          s.cell_shuffle();
        else if (o < 77) {
          s.set_pos();
          s.hybrid_move();
          s.cell_move();
        } else if (o < 84)
          s.set_val();
        else if (o < 90)
          s.add_dat();
        else if (o < 95)
          s.del_dat();
        else
          s.clear_one();
      }
    }
    s.free();
  }
  finish();
}
