// Several threads at work on one ThreadSafeAllocator, on the shared records of
// allocations, and on the registry.  Every call is logged with the moments it
// began and ended (one global order); calls that reach the wrapped allocator are
// logged as entering and leaving it.
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <thread>

#include "common.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"

using namespace umpire;
using vf::emit;
using vf::J;
using vf::lim;

static std::atomic<long> g_clock{0};
static std::atomic<int> g_races{0};
extern "C" void __tsan_on_report(void*)
{
  g_races.fetch_add(1, std::memory_order_relaxed);
}

struct Ev {
  long at;
  std::string s;
};
static thread_local std::vector<Ev>* t_log = nullptr;
static thread_local int t_id = -1;

static void note(long at, const std::string& s)
{
  if (t_log)
    t_log->push_back(Ev{at, s});
}

// Sits between the ThreadSafeAllocator and the allocator it wraps.
static std::atomic<int> g_inside{0};
static std::atomic<int> g_waiting{0}; // threads that have started a call and not ended it
static std::atomic<bool> g_park{false};

class Tap : public strategy::AllocationStrategy {
 public:
  Tap(const std::string& name, int id, Allocator a, int no)
      : AllocationStrategy{name, id, a.getAllocationStrategy(), "Tap"}, m_a{a.getAllocationStrategy()}, m_no{no}
  {
  }
  void* allocate(std::size_t n) override
  {
    enter();
    void* p = nullptr;
    try {
      p = m_a->allocate_internal(n);
    } catch (...) {
      leave();
      throw;
    }
    leave();
    return p;
  }
  void deallocate(void* p, std::size_t n) override
  {
    enter();
    m_a->deallocate_internal(p, n);
    leave();
  }
  Platform getPlatform() noexcept override
  {
    return m_a->getPlatform();
  }
  MemoryResourceTraits getTraits() const noexcept override
  {
    return m_a->getTraits();
  }

 private:
  void enter()
  {
    if (!t_log)
      return;
    note(g_clock.fetch_add(1), J{}.str("t", "in").i("w", t_id).i("a", m_no).done());
    if (g_park.load()) {
      // stay here while another thread with a call under way may still come in
      m_in.fetch_add(1);
      auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(3);
      while (g_waiting.load() > 1 && m_in.load() < 2 && std::chrono::steady_clock::now() < until)
        std::this_thread::yield();
    }
  }
  void leave()
  {
    if (!t_log)
      return;
    if (g_park.load())
      m_in.fetch_sub(1);
    note(g_clock.fetch_add(1), J{}.str("t", "out").i("w", t_id).i("a", m_no).done());
  }
  strategy::AllocationStrategy* m_a;
  int m_no;
  std::atomic<int> m_in{0};
};

// A resource of its own, so that no statistics are shared with other allocators.
class Own : public strategy::AllocationStrategy {
 public:
  Own(const std::string& name, int id) : AllocationStrategy{name, id, nullptr, "Own"}
  {
  }
  void* allocate(std::size_t n) override
  {
    return malloc(n ? n : 1);
  }
  void deallocate(void* p, std::size_t) override
  {
    free(p);
  }
  Platform getPlatform() noexcept override
  {
    return Platform::host;
  }
  MemoryResourceTraits getTraits() const noexcept override
  {
    return MemoryResourceTraits{};
  }
};

struct Slot { // a block one thread handed to all
  std::atomic<char*> p{nullptr};
  std::atomic<long> n{0};
};

static std::mutex g_addr_mutex;
static long addr(const void* p)
{
  static std::map<std::uintptr_t, long> win;
  if (!p)
    return 0;
  std::lock_guard<std::mutex> g{g_addr_mutex};
  auto u = reinterpret_cast<std::uintptr_t>(p);
  auto it = win.emplace(u >> 24, static_cast<long>(win.size()) + 1).first;
  if (it->second > 60)
    _exit(98);
  return (it->second << 24) | static_cast<long>(u & 0xffffff);
}

static void run(const std::vector<std::string>& ep)
{
  auto& rm = ResourceManager::getInstance();
  std::vector<Allocator> ts;
  std::vector<std::vector<std::string>> work;
  int nt = 0;
  static char fake[1 << 16]; // addresses for the record operations; never touched
  for (std::size_t li = 1; li < ep.size(); ++li) {
    std::istringstream is{ep[li]};
    std::string op;
    is >> op;
    if (op == "T") { // T threads park
      int pk;
      is >> nt >> pk;
      g_park = pk != 0;
      work.resize(static_cast<std::size_t>(nt));
    } else if (op == "A") { // A kind: a new thread-safe allocator
      std::string k;
      is >> k;
      auto no = std::to_string(ts.size());
      Allocator base = rm.makeAllocator<Own>("own" + no);
      if (k == "QP")
        base = rm.makeAllocator<strategy::QuickPool>("q" + no, base, 256, 128, 16);
      else if (k == "DL")
        base = rm.makeAllocator<strategy::DynamicPoolList>("d" + no, base, 256, 128, 16);
      else if (k == "NA")
        base = rm.makeAllocator<strategy::NamedAllocationStrategy>("n" + no, base);
      base = rm.makeAllocator<Tap>("tap" + no, base, static_cast<int>(ts.size()));
      ts.push_back(rm.makeAllocator<strategy::ThreadSafeAllocator>("ts" + no, base));
    } else if (op == "D") {
      int w;
      std::string rest;
      is >> w;
      std::getline(is, rest);
      work[static_cast<std::size_t>(w)].push_back(rest);
    }
  }
  emit(J{}.str("t", "T0").i("na", static_cast<long>(ts.size())).i("nt", nt).done());
  std::vector<std::vector<Ev>> logs(static_cast<std::size_t>(nt));
  std::vector<Slot> slots(16);
  std::atomic<int> ready{0};
  auto body = [&](int w) {
    t_id = w;
    t_log = &logs[static_cast<std::size_t>(w)];
    std::map<int, std::pair<char*, std::size_t>> mine;
    ready.fetch_add(1);
    while (ready.load() < nt)
      std::this_thread::yield();
    for (auto& line : work[static_cast<std::size_t>(w)]) {
      std::istringstream is{line};
      std::string op;
      is >> op;
      J j;
      j.str("t", "i").i("w", w).str("op", op);
      long b = 0;
      auto begin = [&] {
        g_waiting.fetch_add(1);
        b = g_clock.fetch_add(1);
      };
      auto end = [&] {
        long e = g_clock.fetch_add(1);
        g_waiting.fetch_sub(1);
        return e;
      };
      long e = 0;
      if (op == "al") { // al slot allocator bytes [name]
        int s, a;
        std::size_t n;
        is >> s >> a >> n;
        int named = s % 3 == 0;
        char* p = nullptr;
        int x = 0;
        begin();
        try {
          p = static_cast<char*>(named ? ts[static_cast<std::size_t>(a)].allocate("nm", n) : ts[static_cast<std::size_t>(a)].allocate(n));
        } catch (...) {
          x = 1;
        }
        e = end();
        if (!x) {
          for (std::size_t i = 0; i < n; ++i)
            p[i] = static_cast<char>(w * 16 + s);
          mine[s] = {p, n};
          slots[static_cast<std::size_t>(s % 16)].p.store(p);
        }
        j.i("a", a).i("n", lim(n)).i("p", addr(p)).i("x", x).i("bad", 0);
      } else if (op == "fr") { // fr slot allocator viarm
        int s, a, viarm;
        is >> s >> a >> viarm;
        if (!mine.count(s))
          continue;
        auto m = mine[s];
        int bad = 0;
        for (std::size_t i = 0; i < m.second; ++i)
          if (m.first[i] != static_cast<char>(w * 16 + s))
            bad = 1;
        int x = 0;
        begin();
        try {
          if (viarm)
            rm.deallocate(m.first);
          else
            ts[static_cast<std::size_t>(a)].deallocate(m.first);
        } catch (...) {
          x = 1;
        }
        e = end();
        mine.erase(s);
        j.i("a", a).i("n", 0).i("p", addr(m.first)).i("x", x).i("bad", bad);
      } else if (op == "reg" || op == "der") { // reg k bytes: record of an allocation made elsewhere
        long k;
        std::size_t n;
        is >> k >> n;
        char* p = fake + k * 16;
        int x = 0;
        long got = 0;
        begin();
        try {
          if (op == "reg")
            rm.registerAllocation(p, {p, n, ts[0].getAllocationStrategy()});
          else
            got = lim(rm.deregisterAllocation(p).size);
        } catch (...) {
          x = 1;
        }
        e = end();
        j.i("a", 0).i("n", op == "reg" ? lim(n) : got).i("p", addr(p)).i("x", x).i("bad", 0);
      } else if (op == "sz" || op == "has") { // sz own? k: size of own block, of a registered address, or of anybody's
        std::string who;
        long k;
        is >> who >> k;
        char* p = nullptr;
        if (who == "own") {
          if (!mine.count(static_cast<int>(k)))
            continue;
          p = mine[static_cast<int>(k)].first;
        } else
          p = fake + k * 8;
        int x = 0;
        long got = -1;
        begin();
        try {
          got = op == "sz" ? lim(rm.getSize(p)) : (rm.hasAllocator(p) ? 1 : 0);
        } catch (...) {
          x = 1;
        }
        e = end();
        j.i("a", 0).i("n", got).i("p", addr(p)).i("x", x).i("bad", 0);
      } else if (op == "mk") { // mk name: make an allocator
        std::string nm;
        is >> nm;
        int x = 0;
        long id = -1;
        begin();
        try {
          id = rm.makeAllocator<strategy::NamedAllocationStrategy>(nm, ts[0]).getId();
        } catch (...) {
          x = 1;
        }
        e = end();
        j.i("a", 0).i("n", id).i("p", 0).i("x", x).i("bad", 0).str("nm", nm);
      } else
        continue;
      note(b, j.done());
      note(e, J{}.str("t", "r").i("w", w).done());
    }
    t_log = nullptr;
  };
  std::vector<std::thread> th;
  for (int w = 0; w < nt; ++w)
    th.emplace_back(body, w);
  for (auto& t : th)
    t.join();
  std::vector<Ev> all;
  for (auto& l : logs)
    all.insert(all.end(), l.begin(), l.end());
  std::sort(all.begin(), all.end(), [](const Ev& x, const Ev& y) { return x.at < y.at; });
  for (auto& x : all)
    emit(x.s);
  std::vector<long> cu, ct, hw;
  for (auto& a : ts) {
    cu.push_back(lim(a.getCurrentSize()));
    ct.push_back(lim(a.getAllocationCount()));
    hw.push_back(lim(a.getHighWatermark()));
  }
  emit(J{}.str("t", "T1").vec("cu", cu).vec("ct", ct).vec("hw", hw).i("races", g_races.load()).done());
}

int main(int argc, char** argv)
{
  return vf::run_episodes(argc, argv, run);
}
