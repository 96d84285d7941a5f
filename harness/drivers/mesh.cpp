// Conformance driver for spec/MeshTrace: claims, indices, neighbours and
// per-cell data of the MeshHierarchy.
#include "../nv.hpp"
#include <fstream>
using namespace nv;

static SYCLTargetSharedPtr target;

struct Item : public MeshHierarchyData::SerialInterface {
  std::vector<int> v;
  std::size_t get_num_bytes() const override { return v.size() * sizeof(int); }
  void serialise(std::byte *b, const std::size_t n) const override {
    if (n)
      std::memcpy(b, v.data(), n);
  }
  void deserialise(const std::byte *b, const std::size_t n) override {
    v.resize(n / sizeof(int));
    if (n)
      std::memcpy(v.data(), b, n);
  }
};

struct World {
  Rng rng, mine; // shared by all the ranks; this rank's own
  int nd, order;
  std::vector<int> dims;
  std::shared_ptr<MeshHierarchy> mh;
  double width;
  std::vector<double> origin;
  std::vector<INT> owner;
  World(std::uint64_t s) : rng(s), mine(mix(s, ctx().rank + 1)) {}

  std::vector<INT> tuple(INT lin) {
    std::vector<INT> t(2 * nd);
    mh->linear_to_tuple_global(lin, t.data());
    return t;
  }
  void make() {
    nd = rng.in(1, 3);
    order = rng.below(nd == 3 ? 2 : 3);
    dims.clear();
    for (int d = 0; d < nd; d++)
      dims.push_back(rng.in(1, nd == 1 ? 9 : nd == 2 ? 5 : 3));
    const double widths[] = {1.0, 0.5, 4.0, 2.0};
    width = rng.pick(std::vector<double>(widths, widths + 4));
    origin.clear();
    for (int d = 0; d < nd; d++)
      origin.push_back(rng.in(-3, 3) * 0.25);
    mh = std::make_shared<MeshHierarchy>(MPI_COMM_WORLD, nd, dims, origin, width,
                                         order);
    J j, m;
    m.num("nd", nd).arr("dims", dims).num("order", order);
    J a('[');
    a.addn(mh->ncells_coarse).addn(mh->ncells_fine);
    a.addn(mh->ncells_dim_fine).addn(mh->ncells_global);
    j.str("ev", "mesh").raw("m", m.done()).raw("cells", gather_each(a.done()));
    emit(j);
  }
  void owners(const char *how, const std::vector<std::vector<int>> &my) {
    std::vector<long> o;
    owner.clear();
    for (INT c = 0; c < mh->ncells_global; c++) {
      const int x = mh->get_owner(c);
      owner.push_back(x);
      o.push_back(x < 0 ? -1 : x);
    }
    J j;
    j.str("ev", "claims").str("how", how);
    j.raw("claims", gather_each(J::list(my)));
    j.raw("owners", gather_each(J::list(o)));
    emit(j);
  }
  // concurrent claims
  void claims() {
    std::vector<std::vector<int>> my;
    const int phases = rng.in(1, 3), top = rng.in(1, 3), density = rng.in(0, 4);
    const int big = rng.chance(20) ? 2147483646 - top : 0;
    mh->claim_initialise();
    for (int p = 0; p < phases; p++) {
      const int n = mine.below((int)mh->ncells_global * density + 1);
      for (int i = 0; i < n; i++) {
        const int c = mine.below((int)mh->ncells_global), w = big + mine.in(1, top);
        mh->claim_cell(c, w);
        my.push_back({c, w});
      }
      if (rng.chance(60))
        MPI_Barrier(MPI_COMM_WORLD);
    }
    mh->claim_finalise();
    owners("concurrent", my);
  }
  // the interleaving of a behaviour of MeshClaim
  void replay(const std::vector<std::array<int, 3>> &h) {
    std::vector<std::vector<int>> my;
    mh->claim_initialise();
    for (auto &x : h) {
      if (x[0] == ctx().rank) {
        mh->claim_cell(x[1], x[2]);
        my.push_back({x[1], x[2]});
      }
      MPI_Barrier(MPI_COMM_WORLD);
    }
    mh->claim_finalise();
    owners("behaviour", my);
  }
  void ask() {
    const int n = mine.below(60);
    std::vector<INT> q;
    std::vector<int> r(n + 1);
    for (int i = 0; i < n; i++) {
      // neighbouring queries are often close to each other
      INT c = mine.below((int)mh->ncells_global);
      if (i && mine.chance(60)) {
        std::vector<INT> prev(q.end() - 2 * nd, q.end());
        c = (mh->tuple_to_linear_global(prev.data()) + mine.below(3)) %
            mh->ncells_global;
      }
      for (INT x : tuple(c))
        q.push_back(x);
    }
    mh->get_owners(n, q.data(), r.data());
    J a('[');
    for (int i = 0; i < n; i++) {
      J o('[');
      o.add(J::list(std::vector<INT>(q.begin() + i * 2 * nd,
                                     q.begin() + (i + 1) * 2 * nd)));
      o.addn(r[i] < 0 ? -1 : r[i]);
      a.add(o.done());
    }
    J j;
    j.str("ev", "ask").raw("q", gather_each(a.done()));
    emit(j);
  }
  void index() {
    MeshHierarchyMapper mapper(target, mh);
    auto hm = mapper.get_host_mapper();
    auto dm = mapper.get_device_mapper();
    std::vector<INT> cells;
    for (INT c = 0; c < mh->ncells_global; c++)
      if (mh->ncells_global <= 40 || mine.chance(40))
        cells.push_back(c);
    const int n = (int)cells.size();
    std::vector<INT> t(6 * n + 1), dlin(n + 1);
    J a('[');
    for (int i = 0; i < n; i++)
      mh->linear_to_tuple_global(cells[i], &t[6 * i]);
    BufferDevice<INT> dt(target, t), dl(target, dlin);
    INT *pt = dt.ptr, *pl = dl.ptr;
    if (n)
      target->queue
          .parallel_for(sycl::range<1>(n),
                        [=](auto ix) {
                          const std::size_t i = ix;
                          pl[i] = dm.tuple_to_linear_global(pt + 6 * i);
                        })
          .wait_and_throw();
    dlin = dl.get();
    for (int i = 0; i < n; i++) {
      INT *x = &t[6 * i];
      std::vector<INT> cart(nd), un(2 * nd), back(2 * nd);
      hm.map_tuple_to_cart_tuple(x, cart.data());
      hm.cart_tuple_to_tuple(cart.data(), un.data());
      const INT lin = mh->tuple_to_linear_global(x);
      mh->linear_to_tuple_global(lin, back.data());
      J o;
      o.arr("t", std::vector<INT>(x, x + 2 * nd)).num("lin", lin);
      o.arr("back", back).arr("cart", cart).arr("uncart", un).num("dev", dlin[i]);
      J p('[');
      p.addn(mh->tuple_to_linear_coarse(x)).addn(mh->tuple_to_linear_fine(x + nd));
      o.raw("part", p.done());
      a.add(o.done());
    }
    J j;
    j.str("ev", "index").raw("t", a.done());
    emit(j);
  }
  void positions() {
    MeshHierarchyMapper mapper(target, mh);
    auto dm = mapper.get_device_mapper();
    const int n = rng.in(1, 60);
    const int fine = 1 << order;
    const double unit = width / fine / 8;
    std::vector<REAL> pos(3 * n);
    std::vector<std::vector<int>> at(n, std::vector<int>(nd));
    for (int i = 0; i < n; i++)
      for (int d = 0; d < nd; d++) {
        const int N = dims[d] * fine * 8;
        const int k = mine.below(10);
        at[i][d] = k == 0 ? 0 : k == 1 ? N : k == 2 ? 8 * mine.below(N / 8) : mine.below(N);
        pos[3 * i + d] = origin[d] + at[i][d] * unit;
        // the largest number below a boundary of two cells is in the lower one
        if (k == 3 && at[i][d] % 8 == 7)
          pos[3 * i + d] = origin[d] + (at[i][d] + 0.999999) * unit;
      }
    BufferDevice<REAL> dp(target, pos);
    std::vector<INT> out(6 * n, -9), outf(3 * n, -9);
    BufferDevice<INT> dt(target, out), df(target, outf);
    REAL *pp = dp.ptr;
    INT *pt = dt.ptr;
    target->queue
        .parallel_for(sycl::range<1>(n),
                      [=](auto ix) {
                        const std::size_t i = ix;
                        dm.map_to_tuple(pp + 3 * i, pt + 6 * i);
                      })
        .wait_and_throw();
    out = dt.get();
    J a('[');
    for (int i = 0; i < n; i++) {
      J o;
      o.arr("at", at[i]);
      o.arr("t", std::vector<INT>(out.begin() + 6 * i, out.begin() + 6 * i + 2 * nd));
      a.add(o.done());
    }
    J j;
    j.str("ev", "pos").raw("p", a.done());
    emit(j);
    // inside of the cells of the unbounded grid
    J b('[');
    for (int i = 0; i < n; i++) {
      REAL p[3];
      INT t[3];
      std::vector<int> f(nd);
      for (int d = 0; d < nd; d++) {
        f[d] = 8 * mine.in(-20, 30) + mine.in(1, 7);
        p[d] = origin[d] + f[d] * unit;
      }
      mapper.get_host_mapper().map_to_cart_tuple_no_trunc(p, t);
      J o;
      o.arr("at", f).arr("t", std::vector<INT>(t, t + nd));
      b.add(o.done());
    }
    J k;
    k.str("ev", "far").raw("p", b.done());
    emit(k);
  }
  void near() {
    J a('['), b('[');
    int most = 1;
    for (int d = 0; d < nd; d++)
      most = std::max(most, dims[d] << order);
    for (int i = 0; i < 4; i++) {
      const INT c = mine.below((int)mh->ncells_global);
      const int off = mine.below(std::min(nd == 3 ? 3 : 4, 2 * most + 2) + 1);
      const bool pbc = mine.chance(50);
      std::set<INT> out;
      get_neighbour_mh_cells(mh, c, off, pbc, out);
      J o;
      o.num("c", c).num("off", off).boo("pbc", pbc);
      o.arr("out", std::vector<INT>(out.begin(), out.end()));
      a.add(o.done());
      std::vector<INT> cs, extra, res;
      for (int k = mine.below(4); k > 0; k--)
        cs.push_back(mine.below((int)mh->ncells_global));
      for (int k = mine.below(3); k > 0; k--)
        extra.push_back(mine.below((int)mh->ncells_global));
      if (mine.chance(30))
        res.push_back(5); // earlier contents are of no account
      get_neighbour_mh_cells(mh, cs, extra, off, pbc, res);
      J q;
      q.arr("cs", cs).arr("extra", extra).num("off", off).boo("pbc", pbc);
      q.arr("out", res);
      b.add(q.done());
    }
    J j;
    j.str("ev", "near").raw("one", a.done()).raw("many", b.done());
    emit(j);
  }
  void data() {
    std::map<INT, std::vector<Item>> d;
    const int n = mine.below((int)mh->ncells_global + 2);
    const int longest = rng.chance(20) ? 400 : 4;
    int id = 0;
    for (int i = 0; i < n; i++) {
      auto &v = d[mine.below((int)mh->ncells_global)];
      for (int k = mine.below(4); k > 0; k--) {
        Item it;
        if (mine.chance(90))
          it.v.push_back(1000 * ctx().rank + id++);
        for (int q = mine.below(longest); q > 0 && it.v.size(); q--)
          it.v.push_back(mine.below(9));
        v.push_back(it);
      }
    }
    J a('[');
    for (auto &x : d) {
      J o('[');
      o.addn(x.first);
      J p('[');
      for (auto &y : x.second)
        p.add(J::list(y.v));
      o.add(p.done());
      a.add(o.done());
    }
    J j;
    j.str("ev", "give").raw("data", gather_each(a.done()));
    emit(j);
    {
      MeshHierarchyData::MeshHierarchyContainer<Item> con(mh, d);
      const int rounds = rng.in(1, 4);
      std::set<INT> known;
      for (int r = 0; r < rounds; r++) {
        std::vector<INT> want;
        if (mine.chance(80))
          for (int k = mine.below((int)mh->ncells_global + 1); k > 0; k--)
            want.push_back(mine.below((int)mh->ncells_global));
        con.gather(want);
        known.insert(want.begin(), want.end());
        J g('[');
        for (INT c : known) {
          std::vector<Item> out;
          if (mine.chance(30))
            out.resize(2);
          con.get(c, out);
          J o('['), p('[');
          o.addn(c);
          for (auto &y : out)
            p.add(J::list(y.v));
          o.add(p.done());
          g.add(o.done());
        }
        J k;
        k.str("ev", "gather").raw("got", gather_each(g.done()));
        emit(k);
      }
      con.free();
    }
  }
};

static void trace(int t) {
  World w(mix(ctx().seed, t, 0x3e54));
  w.make();
  const int ops = ctx().get("ops", 12);
  w.claims();
  for (int i = 0; i < ops; i++) {
    switch (w.rng.below(8)) {
    case 0:
    case 1:
      w.claims();
      break;
    case 2:
      w.ask();
      break;
    case 3:
      w.index();
      break;
    case 4:
      w.positions();
      break;
    case 5:
      w.near();
      break;
    default:
      w.data();
    }
  }
  w.mh->free();
}

static void behaviours(const std::string &file) {
  std::ifstream in(file);
  std::string line;
  while (std::getline(in, line)) {
    // {"n":3,"h":[[rank,cell,weight],...]}
    std::vector<int> v;
    for (std::size_t i = 0; i < line.size(); i++)
      if (std::isdigit((unsigned char)line[i])) {
        v.push_back(std::atoi(&line[i]));
        while (i < line.size() && std::isdigit((unsigned char)line[i]))
          i++;
      }
    const bool nfirst = line.find("\"n\"") < line.find("\"h\"");
    if (nfirst)
      v.erase(v.begin());
    else
      v.pop_back();
    World w(mix(ctx().seed, 5));
    w.nd = 1;
    w.order = 0;
    w.dims = {(int)ctx().get("cells", 2)};
    w.mh = std::make_shared<MeshHierarchy>(MPI_COMM_WORLD, 1, w.dims,
                                           std::vector<double>{0.0}, 1.0, 0);
    J j, m;
    m.num("nd", 1).arr("dims", w.dims).num("order", 0);
    J a('[');
    a.addn(w.mh->ncells_coarse).addn(w.mh->ncells_fine);
    a.addn(w.mh->ncells_dim_fine).addn(w.mh->ncells_global);
    j.str("ev", "mesh").raw("m", m.done()).raw("cells", gather_each(a.done()));
    emit(j);
    std::vector<std::array<int, 3>> h;
    for (std::size_t i = 0; i + 2 < v.size(); i += 3)
      h.push_back({v[i], v[i + 1], v[i + 2]});
    w.replay(h);
    w.mh->free();
  }
}

int main(int argc, char **argv) {
  init(argc, argv);
  target = std::make_shared<SYCLTarget>(0, MPI_COMM_WORLD);
  const auto f = ctx().gets("behaviours", "");
  if (!f.empty())
    behaviours(f);
  else
    for (int t = 0; t < ctx().get("traces", 3); t++)
      trace(t);
  target->free();
  finish();
  return 0;
}
