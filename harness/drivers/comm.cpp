// C20: the collective helpers, on communicators whose ranks are in any order.
#include "../nv.hpp"
#include <climits>
using namespace nv;

struct World {
  Rng rng, mine;
  MPI_Comm comm;
  int size, rank;
  std::vector<int> world_of; // of the ranks of comm
  std::unique_ptr<CommunicationEdgesCounter> ece;
  World(std::uint64_t seed) : rng(seed), mine(mix(seed, 0x20, ctx().rank)) {
    std::vector<int> key(ctx().size);
    std::iota(key.begin(), key.end(), 0);
    if (rng.chance(60))
      for (int i = (int)key.size() - 1; i > 0; i--)
        std::swap(key[i], key[rng.in(0, i)]);
    MPI_Comm_split(MPI_COMM_WORLD, 0, key[ctx().rank], &comm);
    MPI_Comm_size(comm, &size);
    MPI_Comm_rank(comm, &rank);
    world_of.resize(size);
    MPI_Allgather(&ctx().rank, 1, MPI_INT, world_of.data(), 1, MPI_INT, comm);
    ece = std::make_unique<CommunicationEdgesCounter>(comm);
    J j;
    j.str("ev", "init");
    emit(j.num("n", size));
  }
  void done() {
    ece->free();
    MPI_Comm_free(&comm);
  }
  // in the order of comm
  std::string each(const std::string &x) {
    auto all = gather(x);
    std::string r;
    for (int i = 0; i < size; i++)
      r += (i ? "," : "") + all[world_of[i]];
    return "[" + r + "]";
  }
  template <typename C> static std::string show(const C &c) {
    J j('[');
    for (auto x : c)
      j.adds(hex(x));
    return j.done();
  }
  static std::string hex(std::int64_t v) { return nv::hex((std::uint64_t)v); }
  static std::string hex(int v) { return nv::hex((std::uint64_t)(std::int64_t)v); }
  static std::string hex(double v) { return nv::hex(v); }
  static std::string hex(char v) { return nv::hex((std::uint64_t)(unsigned char)v); }
  static std::string ints(const std::vector<int> &v) {
    J j('[');
    for (auto x : v)
      j.addn(x);
    return j.done();
  }
  // values that use all the bits
  template <typename T> T value() {
    if constexpr (std::is_same_v<T, double>)
      return (mine.unit() - 0.5) * std::pow(2.0, mine.in(-300, 300));
    else if (mine.chance(40))
      return (T)mine.in(-3, 12);
    else
      return (T)mine.next();
  }
  template <typename T> std::vector<T> some(int most) {
    const int shape = mine.below(4);
    std::vector<T> v(shape == 0 ? 0 : mine.in(0, most));
    for (auto &x : v)
      x = value<T>();
    return v;
  }
  template <typename T> void gathers() {
    auto in = some<T>(9);
    const int root = rng.below(size);
    const bool all = rng.chance(50);
    std::vector<T> out(mine.below(5), value<T>());
    if (all)
      all_gather_v(in, comm, out);
    else
      gather_v(in, comm, root, out);
    J j;
    j.str("ev", "gather").num("root", all ? -1 : root);
    j.raw("in", each(show(in)));
    emit(j.raw("out", each(show(out))));
  }
  template <typename T> void unions() {
    auto v = some<T>(8);
    std::set<T> in(v.begin(), v.end()), out;
    const int root = rng.below(size);
    const int what = rng.below(3);
    if (what == 0)
      out = set_reduce_union(in, root, comm);
    else if (what == 1)
      out = set_all_reduce_union(in, comm);
    else
      out = set_bcast(in, root, comm);
    J j;
    j.str("ev", what == 2 ? "bcast" : "union").num("root", what == 1 ? -1 : root);
    j.raw("in", each(show(in)));
    emit(j.raw("out", each(show(out))));
  }
  // a set passed around
  template <typename T> void pass() {
    auto v = some<T>(8);
    std::set<T> in(v.begin(), v.end()), out;
    const int from = rng.below(size), to = rng.below(size), tag = rng.below(90);
    if (from != to) {
      if (rank == from)
        set_send(in, to, tag, comm);
      else if (rank == to)
        out = set_recv<T>(from, tag, comm);
    }
    J j;
    j.str("ev", "pass").num("from", from).num("to", to);
    j.raw("in", each(show(in)));
    emit(j.raw("out", each(show(out))));
  }
  // edges as <from, to>, perhaps several times the same one
  std::vector<std::pair<int, int>> edges(int most, bool several) {
    std::vector<std::pair<int, int>> e;
    const int n = rng.in(0, most);
    for (int i = 0; i < n; i++) {
      std::pair<int, int> x(rng.below(size), rng.below(size));
      if (several || std::find(e.begin(), e.end(), x) == e.end())
        e.push_back(x);
    }
    return e;
  }
  MPI_Comm graph(const std::vector<std::pair<int, int>> &e, std::vector<int> &src,
                 std::vector<int> &dst) {
    for (auto &x : e) {
      if (x.second == rank)
        src.push_back(x.first);
      if (x.first == rank)
        dst.push_back(x.second);
    }
    // what belongs together stays in the same order on both sides
    std::vector<int> w0(src.size() + 1, 1), w1(dst.size() + 1, 1);
    MPI_Comm g;
    MPI_Dist_graph_create_adjacent(comm, (int)src.size(), src.data(), w0.data(),
                                   (int)dst.size(), dst.data(), w1.data(),
                                   MPI_INFO_NULL, 0, &g);
    return g;
  }
  static std::pair<std::vector<int>, std::vector<int>> neighbours(MPI_Comm g) {
    int in, out, w;
    MPI_Dist_graph_neighbors_count(g, &in, &out, &w);
    std::vector<int> a(in + 1), b(out + 1), wa(in + 1), wb(out + 1);
    MPI_Dist_graph_neighbors(g, in, a.data(), wa.data(), out, b.data(), wb.data());
    a.resize(in), b.resize(out);
    return {a, b};
  }
  void reverse() {
    std::vector<int> src, dst;
    MPI_Comm g = graph(edges(2 * size + 2, rng.chance(30)), src, dst), r;
    if (reverse_graph_edge_directions(comm, g, &r) != MPI_SUCCESS)
      MPI_Abort(MPI_COMM_WORLD, 3);
    auto x = neighbours(r);
    J j;
    j.str("ev", "reverse").raw("src", each(ints(src))).raw("dst", each(ints(dst)));
    emit(j.raw("newsrc", each(ints(x.first))).raw("newdst", each(ints(x.second))));
    MPI_Comm_free(&r);
    MPI_Comm_free(&g);
  }
  template <typename T> void exchange(MPI_Datatype type) {
    std::vector<int> src, dst;
    MPI_Comm g = graph(edges(2 * size + 2, rng.chance(40)), src, dst);
    const int n = rng.in(0, 3);
    std::vector<T> out(n * dst.size() + 1), in(n * src.size() + 1, (T)77);
    for (auto &x : out)
      x = value<T>();
    const T guard = in.back();
    NP_MPI_Neighbor_alltoall_wrapper(out.data(), n, type, in.data(), n, type, g);
    const bool kept = in.back() == guard;
    out.pop_back(), in.pop_back();
    J j;
    j.str("ev", "exchange").num("count", n);
    j.raw("src", each(ints(src))).raw("dst", each(ints(dst)));
    j.raw("sent", each(show(out))).raw("kept", each(kept ? "true" : "false"));
    emit(j.raw("got", each(show(in))));
    MPI_Comm_free(&g);
  }
  // different amounts for each edge, at any places of the buffers
  void exchangew() {
    auto e = edges(2 * size + 2, rng.chance(40));
    std::vector<int> amount; // of doubles or bytes
    std::vector<bool> dbl;
    for (std::size_t i = 0; i < e.size(); i++) {
      amount.push_back(rng.chance(25) ? 0 : rng.in(1, 9));
      dbl.push_back(rng.chance(50));
    }
    std::vector<int> src, dst, sc, rc;
    std::vector<MPI_Datatype> st, rt;
    std::vector<MPI_Aint> sd, rd;
    std::size_t so = 0, ro = 0;
    for (std::size_t i = 0; i < e.size(); i++) {
      auto t = dbl[i] ? MPI_DOUBLE : MPI_CHAR;
      const std::size_t b = amount[i] * (dbl[i] ? 8 : 1);
      const std::size_t gap = mine.below(3);
      if (e[i].first == rank) {
        so += gap;
        sc.push_back(amount[i]), st.push_back(t), sd.push_back(so);
        so += b;
      }
      if (e[i].second == rank) {
        ro += gap;
        rc.push_back(amount[i]), rt.push_back(t), rd.push_back(ro);
        ro += b;
      }
    }
    std::vector<char> out(so + 4), in(ro + 4, 0x55);
    for (auto &x : out)
      x = (char)mine.next();
    MPI_Comm g = graph(e, src, dst);
    sc.push_back(0), rc.push_back(0), sd.push_back(0), rd.push_back(0);
    st.push_back(MPI_CHAR), rt.push_back(MPI_CHAR);
    NP_MPI_Neighbor_alltoallw_wrapper(out.data(), sc.data(), sd.data(), st.data(),
                                      in.data(), rc.data(), rd.data(), rt.data(), g);
    J a('['), b('[');
    for (std::size_t i = 0; i < dst.size(); i++) {
      auto p = out.data() + sd[i];
      a.add(show(std::vector<char>(p, p + sc[i] * (st[i] == MPI_DOUBLE ? 8 : 1))));
    }
    std::vector<bool> used(in.size(), false);
    for (std::size_t i = 0; i < src.size(); i++) {
      auto p = in.data() + rd[i];
      const int k = rc[i] * (rt[i] == MPI_DOUBLE ? 8 : 1);
      for (int x = 0; x < k; x++)
        used[rd[i] + x] = true;
      b.add(show(std::vector<char>(p, p + k)));
    }
    bool kept = true;
    for (std::size_t i = 0; i < in.size(); i++)
      if (!used[i] && in[i] != 0x55)
        kept = false;
    J j;
    j.str("ev", "exchangew").raw("src", each(ints(src))).raw("dst", each(ints(dst)));
    j.raw("sent", each(a.done())).raw("kept", each(kept ? "true" : "false"));
    emit(j.raw("got", each(b.done())));
    MPI_Comm_free(&g);
  }
  // each rank knows to whom it has something to say
  void edges_counter() {
    std::vector<int> to;
    const int shape = rng.below(4); // some, all, nobody, all to one
    const int one = rng.below(size);
    for (int r = 0; r < size; r++)
      if (shape == 1 || (shape == 3 && r == one) || (shape == 0 && mine.chance(50)))
        to.push_back(r);
    for (int i = (int)to.size() - 1; i > 0; i--)
      std::swap(to[i], to[mine.in(0, i)]);
    std::vector<std::int64_t> say, hear;
    std::vector<int> from(mine.below(3), -3);
    std::vector<std::vector<char>> data;
    for (auto r : to) {
      (void)r;
      data.emplace_back(mine.chance(20) ? 0 : mine.in(1, 20));
      for (auto &x : data.back())
        x = (char)mine.next();
      say.push_back((std::int64_t)data.back().size());
    }
    const bool by_hand = rng.chance(30);
    if (by_hand) { // the parts one by one
      ece->reset();
      ece->init_count(to);
      const int n = ece->get_count();
      from.assign(n, -1);
      hear.assign(n, -1);
      ece->exchange_send_recv_counts(to, say, from, hear);
    } else
      ece->get_remote_ranks(to, say, from, hear);
    std::vector<std::vector<char>> got;
    for (auto h : hear)
      got.emplace_back(std::max<std::int64_t>(h, 0));
    std::vector<void *> a, b;
    for (auto &x : data)
      a.push_back(x.data());
    for (auto &x : got)
      b.push_back(x.data());
    ece->exchange_send_recv_data(to, say, a, from, hear, b);
    // and an answer: a number for each of those who spoke
    std::vector<std::int64_t> answer, answers(to.size(), -1);
    for (auto r : from) {
      (void)r;
      answer.push_back(value<std::int64_t>());
    }
    ece->exchange_send_recv_counts(from, answer, to, answers, true);
    J x('['), y('[');
    for (auto &d : data)
      x.add(show(d));
    for (auto &d : got)
      y.add(show(d));
    J j;
    j.str("ev", "edges").raw("to", each(ints(to))).raw("from", each(ints(from)));
    j.raw("sent", each(x.done())).raw("got", each(y.done()));
    j.raw("answer", each(show(answer)));
    emit(j.raw("answers", each(show(answers))));
  }
  // work for a number of units
  void decomp() {
    const int units = rng.in(1, 9);
    const int items = rng.pick(std::vector<int>{0, 1, units - 1, units, units + 1,
                                                rng.in(0, 60), rng.in(0, 9)});
    const int kind = rng.below(3);
    J a('['), b('[');
    for (int u = 0; u < units; u++) {
      J p('[');
      if (kind == 0) {
        int s, e;
        get_decomp_1d(units, items, u, &s, &e);
        p.addn(s).addn(e);
      } else if (kind == 1) {
        INT s, e;
        get_decomp_1d((INT)units, (INT)items, (INT)u, &s, &e);
        p.addn(s).addn(e);
      } else {
        std::size_t s, e;
        get_decomp_1d((std::size_t)units, (std::size_t)items, (std::size_t)u, &s, &e);
        p.addn(s).addn(e);
      }
      a.add(p.done());
    }
    for (int i = 0; i < items; i++)
      b.addn(get_decomp_1d_inverse(units, items, i));
    J j;
    j.str("ev", "decomp").num("units", units).num("items", items);
    emit(j.raw("parts", a.done()).raw("inverse", b.done()));
  }
  void cart() {
    const int ndim = rng.in(1, 3);
    std::vector<int> cells;
    for (int d = 0; d < ndim; d++)
      cells.push_back(rng.pick(std::vector<int>{1, 2, 3, 4, 5, 7, 8, 12, 30}));
    const int n = rng.in(1, 24);
    auto dims = get_cart_dims(n, ndim);
    auto re = get_reordered_cart_decomp(ndim, dims, cells);
    auto single = get_single_dimension_cart_decomp(n, ndim, cells);
    auto lower = get_lower_dimension_cart_decomp(n, ndim, cells);
    J j;
    j.str("ev", "cart").num("n", n).raw("cells", ints(cells)).raw("dims", ints(dims));
    emit(j.raw("reordered", ints(re)).raw("single", ints(single)).raw("lower", ints(lower)));
  }
  void run(int ops) {
    for (int o = 0; o < ops; o++)
      switch (rng.below(14)) {
      case 0:
        gathers<REAL>();
        break;
      case 1:
        gathers<INT>();
        break;
      case 2:
        gathers<int>();
        break;
      case 3:
        unions<int>();
        break;
      case 4:
        unions<INT>();
        break;
      case 5:
        rng.chance(50) ? unions<REAL>() : pass<INT>();
        break;
      case 6:
        reverse();
        break;
      case 7:
        exchange<REAL>(MPI_DOUBLE);
        break;
      case 8:
        exchange<int>(MPI_INT);
        break;
      case 9:
        exchangew();
        break;
      case 10:
      case 11:
        edges_counter();
        break;
      case 12:
        decomp();
        break;
      default:
        cart();
      }
    done();
  }
};

int main(int argc, char **argv) {
  init(argc, argv);
  for (int t = 0; t < ctx().get("traces", 6); t++) {
    World w(mix(ctx().seed, t, 0x201));
    w.run(ctx().get("ops", 30));
  }
  finish();
  return 0;
}
