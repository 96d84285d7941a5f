// Common parts of the conformance drivers: command line, JSON events, the
// projection of a ParticleGroup onto the abstract state of the specifications.
#ifndef NV_HPP
#define NV_HPP
#include <neso_particles.hpp>

#include <cinttypes>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace nv {
using namespace NESO::Particles;

// ----------------------------------------------------------------- JSON
struct J {
  std::string s;
  bool first = true;
  char open;
  explicit J(char o = '{') : open(o) { s += o; }
  void sep() {
    if (!first)
      s += ',';
    first = false;
  }
  static std::string esc(const std::string &v) {
    std::string o = "\"";
    for (char c : v) {
      if (c == '"' || c == '\\') {
        o += '\\';
        o += c;
      } else if (c == '\n') {
        o += "\\n";
      } else {
        o += c;
      }
    }
    return o + "\"";
  }
  J &key(const char *k) {
    sep();
    s += esc(k);
    s += ':';
    return *this;
  }
  J &raw(const char *k, const std::string &v) {
    key(k);
    s += v;
    return *this;
  }
  J &str(const char *k, const std::string &v) { return raw(k, esc(v)); }
  // TLC's integers have 32 bits: anything larger is not a value a
  // specification can produce and is recorded as the extreme ones
  static std::string integer(long long v) {
    const long long m = 2147483647ll;
    return std::to_string(v > m ? m : v < -m ? -m : v);
  }
  J &num(const char *k, long long v) { return raw(k, integer(v)); }
  J &boo(const char *k, bool v) { return raw(k, v ? "true" : "false"); }
  template <typename V> J &arr(const char *k, const V &v) {
    return raw(k, list(v));
  }
  // array elements
  J &add(const std::string &v) {
    sep();
    s += v;
    return *this;
  }
  J &addn(long long v) { return add(integer(v)); }
  J &adds(const std::string &v) { return add(esc(v)); }
  std::string done() const { return s + (open == '{' ? '}' : ']'); }

  template <typename V> static std::string list(const V &v) {
    J a('[');
    for (const auto &x : v)
      a.add(item(x));
    return a.done();
  }
  static std::string item(const std::string &x) { return esc(x); }
  static std::string item(const char *x) { return esc(x); }
  template <typename T>
  static typename std::enable_if<std::is_integral<T>::value, std::string>::type
  item(T x) {
    if (std::is_same<T, bool>::value)
      return x ? "true" : "false";
    return integer((long long)x);
  }
  template <typename T> static std::string item(const std::vector<T> &x) {
    return list(x);
  }
  template <typename T, std::size_t N>
  static std::string item(const std::array<T, N> &x) {
    return list(x);
  }
};

inline std::string hex(std::uint64_t v) {
  char b[24];
  std::snprintf(b, sizeof b, "%" PRIx64, v);
  return b;
}
inline std::string hex(double v) {
  std::uint64_t u;
  std::memcpy(&u, &v, 8);
  return hex(u);
}
inline std::string hex(INT v) { return hex((std::uint64_t)v); }

// ------------------------------------------------------------------ RNG
inline std::uint64_t mix(std::uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline std::uint64_t mix(std::uint64_t a, std::uint64_t b, std::uint64_t c = 0,
                         std::uint64_t d = 0) {
  return mix(mix(mix(mix(a) ^ b) ^ c) ^ d);
}
struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed) : s(mix(seed)) {}
  std::uint64_t next() { return mix(s++, 77); }
  // uniform in [0, n)
  int below(int n) { return n <= 0 ? 0 : (int)(next() % (std::uint64_t)n); }
  int in(int lo, int hi) { return lo + below(hi - lo + 1); }
  bool chance(int pct) { return below(100) < pct; }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
  template <typename V> auto pick(const V &v) { return v[below((int)v.size())]; }
};

// -------------------------------------------------------------- context
struct Ctx {
  int rank = 0, size = 1;
  std::map<std::string, std::string> opt;
  FILE *out = nullptr;
  long events = 0;
  std::uint64_t seed = 1;
  long get(const std::string &k, long d) const {
    auto it = opt.find(k);
    return it == opt.end() ? d : std::atol(it->second.c_str());
  }
  std::string gets(const std::string &k, const std::string &d) const {
    auto it = opt.find(k);
    return it == opt.end() ? d : it->second;
  }
};
inline Ctx &ctx() {
  static Ctx c;
  return c;
}

inline void init(int argc, char **argv) {
  int prov;
  MPI_Init_thread(&argc, &argv, MPI_THREAD_FUNNELED, &prov);
  auto &c = ctx();
  MPI_Comm_rank(MPI_COMM_WORLD, &c.rank);
  MPI_Comm_size(MPI_COMM_WORLD, &c.size);
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto p = a.find('=');
    if (p == std::string::npos)
      c.opt[a] = "1";
    else
      c.opt[a.substr(0, p)] = a.substr(p + 1);
  }
  c.seed = c.get("seed", 1);
  if (c.rank == 0) {
    std::string f = c.gets("out", "");
    c.out = f.empty() ? stdout : std::fopen(f.c_str(), "w");
    if (!f.empty()) {
      FILE *st = std::fopen((f + ".started").c_str(), "w");
      if (st)
        std::fclose(st);
    }
  }
}

// One event of the trace. Call on every rank, rank 0 writes.
inline void emit(const J &j) {
  auto &c = ctx();
  c.events++;
  if (c.rank == 0) {
    std::string s = j.done();
    std::fwrite(s.data(), 1, s.size(), c.out);
    std::fputc('\n', c.out);
    std::fflush(c.out);
  }
}
inline void finish() {
  J j;
  j.str("ev", "end");
  emit(j);
  if (ctx().rank == 0 && ctx().out != stdout)
    std::fclose(ctx().out);
  MPI_Finalize();
}

// Concatenates the rank local comma separated element lists into one array.
inline std::vector<std::string> gather(const std::string &mine) {
  auto &c = ctx();
  int n = (int)mine.size();
  std::vector<int> ns(c.size), off(c.size);
  MPI_Allgather(&n, 1, MPI_INT, ns.data(), 1, MPI_INT, MPI_COMM_WORLD);
  long tot = 0;
  for (int i = 0; i < c.size; i++) {
    off[i] = (int)tot;
    tot += ns[i];
  }
  std::string all(tot, ' ');
  MPI_Allgatherv(mine.data(), n, MPI_CHAR, all.data(), ns.data(), off.data(),
                 MPI_CHAR, MPI_COMM_WORLD);
  std::vector<std::string> r;
  for (int i = 0; i < c.size; i++)
    r.push_back(all.substr(off[i], ns[i]));
  return r;
}
inline std::string gather_list(const std::vector<std::string> &mine) {
  std::string m;
  for (auto &x : mine) {
    if (!m.empty())
      m += ',';
    m += x;
  }
  std::string r;
  for (auto &x : gather(m)) {
    if (x.empty())
      continue;
    if (!r.empty())
      r += ',';
    r += x;
  }
  return "[" + r + "]";
}
// one element for each rank
inline std::string gather_each(const std::string &mine) {
  std::string r;
  for (auto &x : gather(mine)) {
    if (!r.empty())
      r += ',';
    r += x;
  }
  return "[" + r + "]";
}

// ------------------------------------------- projection of a ParticleGroup
// Every particle as {name: "hex,hex,..."} over all dats, layer by layer.
template <typename T>
inline std::string prop_hex(const CellData<T> &d, int row) {
  std::string s;
  for (int c = 0; c < d->ncol; c++) {
    if (c)
      s += '.';
    s += hex((*d)[c][row]);
  }
  return s;
}

struct RowView {
  int cell, layer;
  std::map<std::string, CellData<REAL>> *r;
  std::map<std::string, CellData<INT>> *i;
  REAL real(const std::string &n, int c = 0) const {
    return (*r->at(n))[c][layer];
  }
  INT integer(const std::string &n, int c = 0) const {
    return (*i->at(n))[c][layer];
  }
  // payload object over all dats except the named ones
  std::string payload(const std::set<std::string> &skip) const {
    J j;
    for (auto &x : *r)
      if (!skip.count(x.first))
        j.str(x.first.c_str(), prop_hex(x.second, layer));
    for (auto &x : *i)
      if (!skip.count(x.first))
        j.str(x.first.c_str(), prop_hex(x.second, layer));
    return j.done();
  }
};
template <typename PG, typename F> inline void for_rows(PG pg, F f) {
  const int nc = pg->domain->mesh->get_cell_count();
  for (int c = 0; c < nc; c++) {
    std::map<std::string, CellData<REAL>> r;
    std::map<std::string, CellData<INT>> i;
    int n = -1;
    for (auto &d : pg->particle_dats_real) {
      auto cd = d.second->cell_dat.get_cell(c);
      r.emplace(d.first.name, cd);
      n = n < 0 ? cd->nrow : std::min(n, cd->nrow);
    }
    for (auto &d : pg->particle_dats_int) {
      auto cd = d.second->cell_dat.get_cell(c);
      i.emplace(d.first.name, cd);
      n = n < 0 ? cd->nrow : std::min(n, cd->nrow);
    }
    for (int l = 0; l < n; l++)
      f(RowView{c, l, &r, &i});
  }
}

// Everything the library says about how many particles there are where.
template <typename PG> inline std::string counts_json(PG pg) {
  const int nc = pg->domain->mesh->get_cell_count();
  J j;
  std::vector<long> pc;
  for (int c = 0; c < nc; c++)
    pc.push_back((long)pg->get_npart_cell(c));
  j.arr("pc", pc);
  j.num("np", pg->get_npart_local());
  J ds('[');
  auto one = [&](auto &d) {
    std::vector<long> h, s, a;
    std::vector<int> dev(nc);
    d->sycl_target->queue.memcpy(dev.data(), d->d_npart_cell, nc * sizeof(int))
        .wait_and_throw();
    for (int c = 0; c < nc; c++) {
      h.push_back(d->h_npart_cell[c]);
      s.push_back((long)d->cell_dat.nrow[c]);
    }
    J o;
    o.arr("h", h).arr("d", dev).arr("nr", s);
    o.num("np", d->get_npart_local());
    ds.add(o.done());
  };
  for (auto &d : pg->particle_dats_real)
    one(d.second);
  for (auto &d : pg->particle_dats_int)
    one(d.second);
  j.raw("ds", ds.done());
  return j.done();
}

} // namespace nv
#endif
