// C22: particles created anywhere are brought to their owners in steps.
#include "../store.hpp"
#include <neso_particles/parallel_initialisation.hpp>
using namespace nv;

static void initialise(Store &s, int steps, bool by_hand) {
  if (!by_hand)
    parallel_advection_initialisation(s.pg, steps);
  else { // the same in parts, other things may happen in between
    parallel_advection_store(s.pg);
    J a('[');
    std::vector<std::string> at;
    for_rows(s.pg, [&](const RowView &v) {
      std::vector<long> x;
      for (int d = 0; d < s.ndim; d++)
        x.push_back((long)std::floor(v.real("P", d) / s.w * DEN));
      at.push_back("[" + std::to_string(ctx().rank) + "," + J::list(x) + "," +
                   std::to_string(v.integer("ID")) + "]");
    });
    J j;
    j.str("ev", "parstart");
    emit(j.raw("at", gather_list(at)));
    for (int k = 0; k < steps; k++) {
      parallel_advection_step(s.pg, steps, k);
      s.pg->hybrid_move();
      if (k % 3 == 1)
        s.pg->cell_move();
    }
    parallel_advection_restore(s.pg);
    s.pg->hybrid_move();
  }
  J j;
  j.str("ev", "parinit").num("steps", steps);
  j.num("left", s.pg->contains_dat(Sym<REAL>("NESO_ORIG_POS")) ? 1 : 0);
  s.state(j);
  // their owners keep them
  J k;
  k.str("ev", "kept");
  auto where = [&] {
    std::vector<std::string> r;
    for (auto &l : s.locs())
      r.push_back(std::to_string(l.id));
    std::sort(r.begin(), r.end());
    J l('[');
    for (auto &x : r)
      l.add(x);
    return gather_each(l.done());
  };
  k.raw("before", where());
  s.pg->hybrid_move();
  k.raw("after", where());
  emit(k);
  s.hybrid_move();
}

int main(int argc, char **argv) {
  init(argc, argv);
  auto &c = ctx();
  for (int t = 0; t < c.get("traces", 4); t++) {
    Rng rng(mix(c.seed, t, 0x22));
    Store s(rng);
    const int nd = rng.chance(70) ? 2 : 3, sub = rng.below(3);
    std::vector<int> dims;
    for (int d = 0; d < nd; d++)
      dims.push_back(rng.in(1, 4));
    // what the mesh falls back to: a decomposition over one dimension
    while (*std::max_element(dims.begin(), dims.end()) << sub < c.size)
      dims[0]++;
    const double ext = rng.pick(std::vector<double>{1.0, 0.5, 4.0, 0.3, 1.7, 1000.0});
    s.setup(nd, dims, ext, sub, rng.below(3), {{"A", true, 2}, {"B", false, 1}});
    s.emit_init("init");
    for (int i = 0; i < c.get("ops", 6); i++) {
      if (i == 0 || rng.chance(70))
        s.add_set(rng.pick(std::vector<int>{0, 1, 3, 30, 80}), rng.below(3));
      if (rng.chance(60))
        s.set_pos();
      initialise(s, rng.pick(std::vector<int>{1, 2, 3, 5, 20}), rng.chance(40));
      if (rng.chance(60))
        s.cell_move();
      if (rng.chance(20))
        s.remove(rng.below(4));
    }
    s.free();
  }
  finish();
}
