// Executes allocator scripts on the real strategies and logs one event per
// layer operation, with the calls that layer made on its parent.
#include <sys/prctl.h>

#include <set>

#include "common.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/strategy/AlignedAllocator.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/MixedPool.hpp"
#include "umpire/strategy/MonotonicAllocationStrategy.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/NamingShim.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/SlotPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/error.hpp"

using namespace umpire;
using vf::emit;
using vf::J;
using vf::lim;

static std::size_t ARENA = std::size_t{1} << 31; // offsets fit the specification's integers
// Histories on gigabytes: the script and the log count in units of so many bytes.
static std::size_t g_unit = 1;
static long units(std::size_t n)
{
  return g_unit == 1 || n > ARENA ? lim(n) : n % g_unit ? -7 : lim(n / g_unit);
}
static char* g_base = nullptr;
static const unsigned char CANARY = 0xEE;
static const std::size_t CAN = 1 << 16;

static long addr(const void* p)
{
  auto d = reinterpret_cast<const char*>(p) - g_base;
  if (!p)
    return -1;
  if (d < 0 || static_cast<std::size_t>(d) >= ARENA)
    return -3;
  return d % static_cast<long>(g_unit) ? -7 : static_cast<long>(d) / static_cast<long>(g_unit);
}

struct Arena {
  std::map<std::size_t, std::size_t> held; // offset -> size
  int policy{0};
  std::size_t mis{0}, gran{16}, cursor{4096};
  long budget{-1}; // bytes that may be held, -1 unlimited
  long fail_next{0};
  bool bad_alloc{false};
  std::size_t total{0};
  unsigned rng{1};
  unsigned rnd()
  {
    rng = rng * 1103515245u + 12345u;
    return (rng >> 16) & 0x7fff;
  }
  std::size_t fit(std::size_t from, std::size_t n)
  {
    auto up = [&](std::size_t x) {
      std::size_t y = (x / gran) * gran + mis;
      while (y < x)
        y += gran;
      return y;
    };
    std::size_t pos = up(from);
    for (auto& h : held) {
      if (h.first + h.second <= pos)
        continue;
      if (h.first >= pos + n)
        break;
      pos = up(h.first + h.second);
    }
    return pos;
  }
  void* get(std::size_t n)
  {
    bool fail = false;
    if (fail_next > 0) {
      --fail_next;
      fail = true;
    }
    if (budget >= 0 && total + n > static_cast<std::size_t>(budget))
      fail = true;
    if (n > ARENA / 4 || total > ARENA / 4)
      fail = true;
    if (fail) {
      if (bad_alloc)
        throw std::bad_alloc();
      UMPIRE_ERROR(out_of_memory_error, "arena exhausted");
    }
    std::size_t pos = 0;
    switch (policy) {
      case 0: // lowest fit: adjacent blocks, immediate address reuse
        pos = fit(4096, n);
        break;
      case 1: // never adjacent, never reused
        cursor = fit(g_unit == 1 ? cursor + 64 + rnd() % 256 : cursor + g_unit * (1 + rnd() % 8), n);
        if (g_unit > 1 && cursor + n > ARENA)
          cursor = fit(4096, n);
        pos = cursor;
        cursor += n;
        break;
      case 2: // random position in a small window
        pos = fit(g_unit == 1 ? 4096 + rnd() % 8192 : g_unit * (rnd() % 256), n);
        break;
      default: { // descending: new blocks immediately below older ones
        std::size_t top = ARENA / 32;
        if (!held.empty())
          top = held.begin()->first;
        top = top > n + 4096 ? top - n : 4096;
        pos = (top / gran) * gran + mis;
        if (pos > top && pos >= gran)
          pos -= gran;
        pos = fit(pos, n);
        if (pos + n > top + n) // does not fit below: anywhere
          pos = fit(4096, n);
        break;
      }
    }
    held[pos] = n;
    total += n;
    return g_base + pos;
  }
  bool put(void* p)
  {
    long a = addr(p);
    auto it = a < 0 ? held.end() : held.find(static_cast<std::size_t>(a) * g_unit);
    if (it == held.end())
      return false;
    total -= it->second;
    if (it->second <= (1 << 24))
      memset(g_base + it->first, CANARY, it->second);
    else { // what lies beyond the watched part need not be touched
      if (it->first < CAN)
        memset(g_base + it->first, CANARY, CAN - it->first);
      auto lo = (std::max(it->first, CAN) + 4095) / 4096 * 4096, hi = (it->first + it->second) / 4096 * 4096;
      madvise(g_base + lo, hi - lo, MADV_DONTNEED);
    }
    held.erase(it);
    return true;
  }
};
static Arena g_arena;
static bool g_recording = true;

struct Layer {
  int id;
  std::string kind;
  Allocator alloc;
  strategy::AllocationStrategy* strat{nullptr};
  std::vector<std::string> down; // calls made on the parent during the current operation
  bool built{false};
};
static std::vector<Layer*> g_layers;
static std::vector<Layer*> g_all;

static std::string exname(std::exception_ptr e)
{
  try {
    std::rethrow_exception(e);
  } catch (umpire::out_of_memory_error&) {
    return "oom";
  } catch (umpire::runtime_error&) {
    return "rt";
  } catch (std::bad_alloc&) {
    return "bad";
  } catch (...) {
    return "other";
  }
}

static std::string joined(Layer* l)
{
  std::string s{"["};
  for (std::size_t i = 0; i < l->down.size(); ++i)
    s += (i ? "," : "") + l->down[i];
  l->down.clear();
  return s + "]";
}

static void stats(J& j, Layer* l)
{
  auto* s = l->strat;
  if (!s) {
    j.vec("s", {}).vec("q", {});
    return;
  }
  j.vec("s", {units(s->getCurrentSize()), units(s->getHighWatermark()), lim(s->getAllocationCount()), units(s->getActualSize())});
  if (auto* q = dynamic_cast<strategy::QuickPool*>(s))
    j.vec("q", {units(q->getReleasableSize()), lim(q->getReleasableBlocks()), lim(q->getTotalBlocks()), units(q->getAlignedSize()),
                units(q->getAlignedHighwaterMark()), units(q->getActualHighwaterMark()), lim(q->getBlocksInPool()),
                units(q->getLargestAvailableBlock())});
  else if (auto* d = dynamic_cast<strategy::DynamicPoolList*>(s))
    j.vec("q", {units(d->getReleasableSize()), lim(d->getReleasableBlocks()), lim(d->getTotalBlocks()), units(d->getAlignedSize()),
                units(d->getAlignedHighwaterMark()), units(d->getActualHighwaterMark()), lim(d->getBlocksInPool()),
                units(d->getLargestAvailableBlock())});
  else if (auto* f = dynamic_cast<strategy::FixedPool*>(s))
    j.vec("q", {lim(f->numPools())});
  else
    j.vec("q", {});
}

static Layer* layer_of(strategy::AllocationStrategy* s)
{
  for (auto* l : g_layers)
    if (l->strat == s)
      return l;
  return nullptr;
}

// Sits between a layer and its parent.
class Tap : public strategy::AllocationStrategy {
 public:
  Tap(const std::string& name, int id, Allocator parent, int owner)
      : strategy::AllocationStrategy{name, id, parent.getAllocationStrategy(), "Tap"}, m_owner{g_all[static_cast<std::size_t>(owner)]}, m_down{parent.getAllocationStrategy()}
  {
  }
  ~Tap()
  {
    if (!m_owner->built)
      return;
    J j;
    j.str("t", "D").i("i", m_owner->id).raw("d", joined(m_owner));
    emit(j.done());
  }
  void* allocate(std::size_t n) override
  {
    return go(n, [&] { return m_down->allocate_internal(n); });
  }
  void* allocate_named(const std::string& nm, std::size_t n) override
  {
    return go(n, [&] { return m_down->allocate_named_internal(nm, n); });
  }
  template <typename F>
  void* go(std::size_t n, F f)
  {
    Layer* low = layer_of(m_down);
    void* p{nullptr};
    std::exception_ptr ex;
    try {
      p = f();
    } catch (...) {
      ex = std::current_exception();
    }
    if (low) {
      J j;
      j.str("t", "A").i("i", low->id).i("u", 0).i("n", units(n)).i("r", ex ? -1 : addr(p)).str("x", ex ? exname(ex) : "").raw("d", joined(low));
      stats(j, low);
      emit(j.done());
    }
    m_owner->down.push_back("[" + std::string(ex ? "2" : "1") + "," + std::to_string(units(n)) + "," + std::to_string(ex ? 0 : addr(p)) + "]");
    if (ex)
      std::rethrow_exception(ex);
    return p;
  }
  void deallocate(void* p, std::size_t n) override
  {
    Layer* low = layer_of(m_down);
    std::exception_ptr ex;
    try {
      m_down->deallocate_internal(p, n);
    } catch (...) {
      ex = std::current_exception();
    }
    if (low) {
      J j;
      j.str("t", "F").i("i", low->id).i("u", 0).i("p", addr(p)).i("n", units(n)).i("c", 1).str("x", ex ? exname(ex) : "").raw("d", joined(low));
      stats(j, low);
      emit(j.done());
    }
    m_owner->down.push_back("[" + std::string(ex ? "4" : "3") + "," + std::to_string(units(n)) + "," + std::to_string(addr(p)) + "]");
    if (ex)
      std::rethrow_exception(ex);
  }
  Platform getPlatform() noexcept override
  {
    return m_down->getPlatform();
  }
  MemoryResourceTraits getTraits() const noexcept override
  {
    return m_down->getTraits();
  }
  Layer* m_owner;
  strategy::AllocationStrategy* m_down;
};

class ArenaStrategy : public strategy::AllocationStrategy {
 public:
  ArenaStrategy(const std::string& name, int id) : strategy::AllocationStrategy{name, id, nullptr, "Arena"}
  {
  }
  void* allocate(std::size_t n) override
  {
    return g_arena.get(n);
  }
  void deallocate(void* p, std::size_t) override
  {
    g_arena.put(p);
  }
  Platform getPlatform() noexcept override
  {
    return Platform::host;
  }
  MemoryResourceTraits getTraits() const noexcept override
  {
    MemoryResourceTraits t{};
    t.resource = MemoryResourceTraits::resource_type::host;
    return t;
  }
};

struct Slot {
  Layer* l;
  void* p;
  std::size_t n;
  unsigned char pat;
};
static std::vector<Slot> g_live;
static std::vector<Slot> g_freed;
static std::map<void*, long> g_zero;
static unsigned g_pat = 0;

static void fill(Slot& s)
{
  if (s.n > (1 << 22)) { // large ones: only the ends
    *static_cast<unsigned char*>(s.p) = s.pat;
    static_cast<unsigned char*>(s.p)[s.n - 1] = s.pat;
    return;
  }
  for (std::size_t i = 0; i < s.n; ++i)
    static_cast<unsigned char*>(s.p)[i] = static_cast<unsigned char>(s.pat + 31 * i);
}
static bool intact(const Slot& s)
{
  if (s.n > (1 << 22))
    return *static_cast<unsigned char*>(s.p) == s.pat && static_cast<unsigned char*>(s.p)[s.n - 1] == s.pat;
  for (std::size_t i = 0; i < s.n; ++i)
    if (static_cast<unsigned char*>(s.p)[i] != static_cast<unsigned char>(s.pat + 31 * i))
      return false;
  return true;
}

template <typename P>
static strategy::PoolCoalesceHeuristic<P> heur(int h, int v)
{
  switch (h) {
    case 1:
      return P::percent_releasable(v);
    case 2:
      return P::percent_releasable_hwm(v);
    case 3:
      return P::blocks_releasable(static_cast<std::size_t>(v));
    case 4:
      return P::blocks_releasable_hwm(static_cast<std::size_t>(v));
    default:
      return P::percent_releasable(0);
  }
}

static long zid(void* p)
{
  if (!p)
    return -1;
  auto it = g_zero.find(p);
  if (it == g_zero.end())
    it = g_zero.emplace(p, static_cast<long>(g_zero.size())).first;
  return it->second;
}

static std::size_t parse_size(const std::string& s, std::size_t unit = 1)
{
  // "max-K" and "half+K" name sizes near SIZE_MAX; plain numbers otherwise
  if (s.rfind("max-", 0) == 0)
    return SIZE_MAX - std::strtoull(s.c_str() + 4, nullptr, 0);
  if (s.rfind("half+", 0) == 0)
    return (SIZE_MAX / 2) + std::strtoull(s.c_str() + 5, nullptr, 0);
  if (s.rfind("g4+", 0) == 0)
    return (std::size_t{1} << 32) + std::strtoull(s.c_str() + 3, nullptr, 0);
  if (s.rfind("g2+", 0) == 0)
    return (std::size_t{1} << 31) + std::strtoull(s.c_str() + 3, nullptr, 0);
  return std::strtoull(s.c_str(), nullptr, 0) * unit;
}

static void body(const std::vector<std::string>& ep)
{
  for (auto& line : ep)
    if (line[0] == 'S') { // S k: the unit is 2^k bytes
      g_unit = std::size_t{1} << std::strtoul(line.c_str() + 2, nullptr, 0);
      ARENA = std::size_t{1} << 40;
    }
  g_base = static_cast<char*>(mmap(reinterpret_cast<void*>(0x200000000000ull), ARENA, PROT_READ | PROT_WRITE,
                                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0));
  if (g_base == MAP_FAILED && g_unit > 1) { // no room for such a history here
    J j;
    j.str("t", "K").i("can", 1).i("c", 1).i("at", 0);
    emit(j.done());
    return;
  }
  if (g_base == MAP_FAILED)
    _exit(98);
  if (g_unit > 1)
    madvise(g_base, ARENA, MADV_NOHUGEPAGE);
  memset(g_base, CANARY, CAN);
  auto& rm = ResourceManager::getInstance();
  auto arena = rm.makeAllocator<ArenaStrategy>("arena");

  for (auto& line : ep) {
    std::istringstream is(line);
    std::string op;
    is >> op;
    if (op == "E" || op == "S")
      continue;
    else if (op == "U") {
      long mis, gran, bad;
      is >> g_arena.policy >> gran >> mis >> g_arena.rng >> bad;
      g_arena.mis = static_cast<std::size_t>(mis);
      g_arena.gran = static_cast<std::size_t>(gran);
      g_arena.bad_alloc = bad != 0;
    } else if (op == "N") { // N kind parent trk params...
      std::string kind;
      int parent, trk;
      is >> kind >> parent >> trk;
      int given = 99; // "QP2": only the first two parameters are passed, the rest are the documented defaults
      if (kind.size() == 3) {
        given = kind[2] - '0';
        kind.resize(2);
      }
      std::vector<long> a;
      std::string v;
      while (is >> v)
        a.push_back(static_cast<long>(parse_size(v)));
      a.resize(16, 0);
      int scaled = kind == "QP" || kind == "DL" ? 3 : kind == "SL" || kind == "MO" ? 1 : 0; // so many parameters are sizes
      auto z = [&](int i) { return static_cast<std::size_t>(a[static_cast<std::size_t>(i)]) * (i < scaled ? g_unit : 1); };
      auto* l = new Layer{};
      g_all.push_back(l);
      l->id = static_cast<int>(g_layers.size()) + 1;
      l->kind = kind;
      Allocator par = parent == 0 ? arena : g_layers[static_cast<std::size_t>(parent - 1)]->alloc;
      std::string nm = "L" + std::to_string(l->id);
      auto tap = rm.makeAllocator<Tap>("T" + std::to_string(l->id), par, static_cast<int>(g_all.size()) - 1);
      auto tr = trk ? Tracking::Tracked : Tracking::Untracked;
      std::string ex;
      try {
        auto pool = [&](auto* t) {
          using P = std::remove_pointer_t<decltype(t)>;
          return given == 0   ? rm.makeAllocator<P>(nm, tap)
                 : given == 1 ? rm.makeAllocator<P>(nm, tap, z(0))
                 : given == 2 ? rm.makeAllocator<P>(nm, tr, tap, z(0), z(1))
                              : rm.makeAllocator<P>(nm, tr, tap, z(0), z(1), z(2));
        };
        if (given < 99 && kind == "QP")
          l->alloc = pool(static_cast<strategy::QuickPool*>(nullptr));
        else if (given < 99 && kind == "DL")
          l->alloc = pool(static_cast<strategy::DynamicPoolList*>(nullptr));
        else if (given < 99 && kind == "FP")
          l->alloc = rm.makeAllocator<strategy::FixedPool>(nm, tr, tap, z(0));
        else if (given < 99 && kind == "AA")
          l->alloc = rm.makeAllocator<strategy::AlignedAllocator>(nm, tap);
        else if (given < 99 && kind == "MP")
          l->alloc = given == 0   ? rm.makeAllocator<strategy::MixedPool>(nm, tap)
                     : given == 4 ? rm.makeAllocator<strategy::MixedPool>(nm, tr, tap, z(0), z(1), z(2), z(3))
                                  : rm.makeAllocator<strategy::MixedPool>(nm, tr, tap, z(0), z(1), z(2), z(3), z(4), z(5), z(6));
        else if (kind == "QP")
          l->alloc = rm.makeAllocator<strategy::QuickPool>(nm, tr, tap, z(0), z(1), z(2), heur<strategy::QuickPool>((int)a[3], (int)a[4]));
        else if (kind == "DL")
          l->alloc = rm.makeAllocator<strategy::DynamicPoolList>(nm, tr, tap, z(0), z(1), z(2), heur<strategy::DynamicPoolList>((int)a[3], (int)a[4]));
        else if (kind == "FP")
          l->alloc = rm.makeAllocator<strategy::FixedPool>(nm, tr, tap, z(0), z(1));
        else if (kind == "MP")
          l->alloc = rm.makeAllocator<strategy::MixedPool>(nm, tr, tap, z(0), z(1), z(2), z(3), z(4), z(5), z(6), heur<strategy::QuickPool>((int)a[7], (int)a[8]));
        else if (kind == "SP")
          l->alloc = rm.makeAllocator<strategy::SlotPool>(nm, tr, tap, z(0));
        else if (kind == "MO")
          l->alloc = rm.makeAllocator<strategy::MonotonicAllocationStrategy>(nm, tr, tap, z(0));
        else if (kind == "AA")
          l->alloc = rm.makeAllocator<strategy::AlignedAllocator>(nm, tr, tap, z(0));
        else if (kind == "SL")
          l->alloc = rm.makeAllocator<strategy::SizeLimiter>(nm, tr, tap, z(0));
        else if (kind == "NA")
          l->alloc = rm.makeAllocator<strategy::NamedAllocationStrategy>(nm, tr, tap);
        else if (kind == "NS")
          l->alloc = rm.makeAllocator<strategy::NamingShim>(nm, tr, tap);
        else if (kind == "TS")
          l->alloc = rm.makeAllocator<strategy::ThreadSafeAllocator>(nm, tr, tap);
        else
          _exit(98);
        l->strat = l->alloc.getAllocationStrategy();
        l->built = true;
      } catch (...) {
        ex = exname(std::current_exception());
      }
      if (ex.empty())
        g_layers.push_back(l);
      J j;
      a.resize(9);
      for (auto& x : a) // the specification's integers have 32 bits; no history reaches such a value
        x = (x < 0 || x > 0x7fffffff) ? 0x7fffffff : x;
      j.str("t", "N").i("i", l->id).str("k", kind).i("par", parent).i("trk", trk).vec("a", a).str("x", ex).raw("d", joined(l));
      stats(j, l);
      emit(j.done());
      if (!ex.empty())
        return;
    } else if (op == "A" || op == "B") {
      int i;
      std::string ns;
      is >> i >> ns;
      std::size_t n = parse_size(ns, g_unit);
      Layer* l = g_layers[static_cast<std::size_t>(i - 1)];
      l->down.clear();
      void* p{nullptr};
      std::string ex;
      long okinfo = 1;
      try {
        p = op == "A" ? l->alloc.allocate(n) : l->alloc.allocate("nm", n);
      } catch (umpire::out_of_memory_error& e) {
        ex = "oom";
        okinfo = (op == "B" || (e.requested_size() == n && e.get_allocator_id() == l->alloc.getId()));
      } catch (...) {
        ex = exname(std::current_exception());
      }
      bool ok = ex.empty();
      J j;
      if (n == 0)
        j.str("t", "Z").i("i", i).i("r", ok ? zid(p) : -1);
      else
        j.str("t", "A").i("i", i).i("u", 1).i("n", units(n)).i("r", ok ? addr(p) : -1);
      j.str("x", ex).i("oi", okinfo).raw("d", joined(l));
      stats(j, l);
      emit(j.done());
      if (ok && p) {
        Slot s{l, p, n, static_cast<unsigned char>(g_pat += 7)};
        if (addr(p) >= 0 && n > 0)
          fill(s);
        g_live.push_back(s);
      }
    } else if (op == "F" || op == "f") {
      std::size_t k;
      is >> k;
      if (g_live.empty())
        continue;
      k %= g_live.size();
      Slot s = g_live[k];
      bool okc = s.n == 0 || addr(s.p) < 0 || intact(s);
      std::string ex;
      s.l->down.clear();
      try {
        if (op == "F")
          s.l->alloc.deallocate(s.p);
        else
          rm.deallocate(s.p);
      } catch (...) {
        ex = exname(std::current_exception());
      }
      J j;
      if (s.n == 0)
        j.str("t", "Y").i("i", s.l->id).i("p", zid(s.p));
      else
        j.str("t", "F").i("i", s.l->id).i("u", 1).i("p", addr(s.p)).i("n", units(s.n)).i("c", okc);
      j.str("x", ex).raw("d", joined(s.l));
      stats(j, s.l);
      emit(j.done());
      g_live.erase(g_live.begin() + static_cast<long>(k));
      g_freed.push_back(s);
    } else if (op == "AB") { // AB layer count size: so many allocations; one event
      int i;
      std::size_t count, n;
      is >> i >> count >> n;
      Layer* l = g_layers[static_cast<std::size_t>(i - 1)];
      l->down.clear();
      std::string ex;
      std::vector<long> rs;
      try {
        for (std::size_t k = 0; k < count; ++k) {
          Slot s{l, nullptr, n, static_cast<unsigned char>(g_pat += 7)};
          s.p = l->alloc.allocate(s.n);
          if (addr(s.p) >= 0)
            fill(s);
          g_live.push_back(s);
          rs.push_back(addr(s.p));
        }
      } catch (...) {
        ex = exname(std::current_exception());
      }
      J j;
      j.str("t", "AB").i("i", i).vec("r", rs).i("n", static_cast<long>(n)).str("x", ex).raw("d", joined(l));
      stats(j, l);
      emit(j.done());
    } else if (op == "ZC") { // ZC layer rounds k: k zero byte allocations made and given back, again and again; one event
      int i;
      std::size_t rounds, k;
      is >> i >> rounds >> k;
      Layer* l = g_layers[static_cast<std::size_t>(i - 1)];
      l->down.clear();
      std::string ex;
      std::set<void*> seen;
      try {
        for (std::size_t q = 0; q < rounds; ++q) {
          std::vector<void*> v;
          for (std::size_t z = 0; z < k; ++z) {
            v.push_back(l->alloc.allocate(0));
            seen.insert(v.back());
          }
          for (auto* p : v)
            l->alloc.deallocate(p);
        }
      } catch (...) {
        ex = exname(std::current_exception());
      }
      J j;
      j.str("t", "ZC").i("i", i).i("n", static_cast<long>(rounds * k)).i("k", static_cast<long>(k)).i("u", static_cast<long>(seen.size()));
      j.str("x", ex).raw("d", joined(l));
      stats(j, l);
      emit(j.done());
    } else if (op == "FB") { // FB layer percent seed: deallocate so many of its allocations in some order; one event
      int i;
      unsigned pct, seed;
      is >> i >> pct >> seed;
      Layer* l = g_layers[static_cast<std::size_t>(i - 1)];
      l->down.clear();
      std::vector<Slot> go, keep;
      auto rnd = [&] { return (seed = seed * 1664525u + 1013904223u) >> 16; };
      for (auto& s : g_live)
        (s.l == l && rnd() % 100 < pct ? go : keep).push_back(s);
      if (seed % 3)
        for (std::size_t k = go.size(); k > 1; --k)
          std::swap(go[k - 1], go[rnd() % k]);
      g_live = keep;
      bool okc = true;
      std::string ex;
      std::vector<long> ps;
      for (auto& s : go) {
        okc = okc && intact(s);
        ps.push_back(addr(s.p));
        try {
          l->alloc.deallocate(s.p);
        } catch (...) {
          ex = exname(std::current_exception());
        }
        g_freed.push_back(s);
      }
      J j;
      j.str("t", "FB").i("i", i).vec("p", ps).i("c", okc).str("x", ex).raw("d", joined(l));
      stats(j, l);
      emit(j.done());
    } else if (op == "R" || op == "C") {
      int i;
      is >> i;
      Layer* l = g_layers[static_cast<std::size_t>(i - 1)];
      l->down.clear();
      std::string ex;
      try {
        if (op == "R")
          l->alloc.release();
        else
          umpire::coalesce(l->alloc);
      } catch (...) {
        ex = exname(std::current_exception());
      }
      J j;
      j.str("t", op).i("i", i).str("x", ex).raw("d", joined(l));
      stats(j, l);
      emit(j.done());
    } else if (op == "W" || op == "V" || op == "G" || op == "H" || op == "O") {
      // misuse: W wrong allocator, V interior pointer, G freed pointer, H unknown pointer, O null pointer
      std::size_t k;
      int i;
      std::size_t off = 1;
      is >> i >> k >> off;
      Layer* l = g_layers[static_cast<std::size_t>(i - 1)];
      void* p{nullptr};
      bool valid = true;
      static char unknown[64];
      if (op == "W" || op == "V") {
        if (g_live.empty())
          continue;
        Slot& s = g_live[k % g_live.size()];
        p = s.p;
        if (op == "W")
          valid = s.l != l;
        else {
          l = s.l;
          i = l->id;
          off *= g_unit;
          valid = off > 0 && off < s.n;
          p = static_cast<char*>(s.p) + off;
        }
      } else if (op == "G") {
        if (g_freed.empty())
          continue;
        Slot& s = g_freed[k % g_freed.size()];
        p = s.p;
        for (auto& q : g_live)
          if (q.p == p)
            valid = false;
      } else if (op == "H")
        p = unknown + (off % 64);
      if (!valid)
        continue;
      std::string ex;
      for (auto* q : g_layers)
        q->down.clear();
      try {
        if (k % 2 && (op == "V" || op == "G" || op == "H"))
          rm.deallocate(p);
        else
          l->alloc.deallocate(p);
      } catch (...) {
        ex = exname(std::current_exception());
      }
      J j;
      j.str("t", "M").str("w", op).i("i", i).i("p", addr(p)).str("x", ex).raw("d", joined(l));
      stats(j, l);
      emit(j.done());
    } else if (op == "L") { // budget: current holding + v, -1 unlimited
      long v;
      is >> v;
      g_arena.budget = v < 0 ? -1 : static_cast<long>(g_arena.total) + v * static_cast<long>(g_unit);
    } else if (op == "X") {
      is >> g_arena.fail_next;
    } else if (op == "P") { // probe every layer's statistics, and the contents of every live allocation
      bool ok = true;
      for (auto& s : g_live)
        ok = ok && (s.n == 0 || addr(s.p) < 0 || intact(s));
      for (auto* l : g_layers) {
        J j;
        j.str("t", "P").i("i", l->id).i("c", ok);
        stats(j, l);
        emit(j.done());
      }
    } else
      _exit(98);
  }
  bool can = true;
  std::size_t pos = 0;
  for (std::size_t b = 0; b < CAN; ++b) {
    auto it = g_arena.held.upper_bound(b);
    if (it != g_arena.held.begin()) {
      --it;
      if (b < it->first + it->second)
        continue;
    }
    if (static_cast<unsigned char>(g_base[b]) != CANARY) {
      can = false;
      pos = b;
      break;
    }
  }
  bool ok = true;
  for (auto& s : g_live)
    ok = ok && (s.n == 0 || addr(s.p) < 0 || intact(s));
  J j;
  j.str("t", "K").i("can", can).i("c", ok).i("at", static_cast<long>(pos));
  emit(j.done());
}

int main(int argc, char** argv)
{
  return vf::run_episodes(argc, argv, body);
}
