// Operations on memory of several platforms: which operation is asked for, how
// often, with what.  The platforms are strategies of our own on host memory, the
// operations are recording ones put into the real registry; everything between
// (ResourceManager, registry, advisor, prefetcher, wrappers, pools) is the real code.
#include <memory>
#include <unordered_map>

#include "common.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/interface/c_fortran/umpire.h"
#include "umpire/op/GenericReallocateOperation.hpp"
#include "umpire/op/MemoryOperation.hpp"
#include "umpire/op/MemoryOperationRegistry.hpp"
#include "umpire/strategy/AlignedAllocator.hpp"
#include "umpire/strategy/AllocationAdvisor.hpp"
#include "umpire/strategy/AllocationPrefetcher.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/MixedPool.hpp"
#include "umpire/strategy/MonotonicAllocationStrategy.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/NamingShim.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/SlotPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/error.hpp"

using namespace umpire;
using vf::emit;
using vf::J;

// TLC's integers have 32 bits: 4 GiB +- k is logged as 1 GiB +- k, what is in neither range as -2.
static long lim(std::size_t v)
{
  const std::size_t g = std::size_t(1) << 32;
  return v < (1u << 29) ? static_cast<long>(v) : v >= g - (1u << 28) && v < g + (1u << 28) ? static_cast<long>(v - g + (1u << 30)) : -2;
}

static std::string at(const void* p)
{
  if (!p)
    return "nil";
  char b[32];
  snprintf(b, sizeof b, "%zx", reinterpret_cast<std::size_t>(p));
  return b;
}

static std::vector<std::string> calls;
static const camp::resources::Resource* given{nullptr};

static void call(const char* k, long o, const void* s, const std::string& d, std::size_t n, long v, const util::AllocationRecord* rs,
                 const util::AllocationRecord* rd, const camp::resources::Resource* x)
{
  J j;
  j.str("k", k).i("o", o).str("s", at(s)).str("d", d).i("n", lim(n)).i("v", v);
  j.str("rs", rs ? at(rs->ptr) : "nil").i("rsn", rs ? lim(rs->size) : 0).str("rd", rd ? at(rd->ptr) : "nil").i("rdn", rd ? lim(rd->size) : 0);
  j.i("x", !x ? 0 : x == given ? 1 : 2);
  calls.push_back(j.done());
}

// --------------------------------------------------------------------------
struct Boom : std::runtime_error {
  using std::runtime_error::runtime_error;
};

class Dev : public strategy::AllocationStrategy {
 public:
  Dev(const std::string& name, int id, int no, int plat, int res)
      : strategy::AllocationStrategy(name, id, nullptr, "Dev"), m_no{no}, m_plat{static_cast<Platform>(plat)}
  {
    m_traits.resource = static_cast<MemoryResourceTraits::resource_type>(res);
    all()[no] = this;
  }
  static std::map<int, Dev*>& all()
  {
    static std::map<int, Dev*> m;
    return m;
  }
  void* allocate(std::size_t n) override
  {
    if (m_fail) {
      --m_fail;
      call("al", m_no, nullptr, "-", n, 0, nullptr, nullptr, nullptr);
      throw Boom("device");
    }
    void* p = ::malloc(n ? n : 1);
    call("al", m_no, p, "-", n, 0, nullptr, nullptr, nullptr);
    return p;
  }
  void deallocate(void* p, std::size_t n) override
  {
    call("fr", m_no, p, "-", n, 0, nullptr, nullptr, nullptr);
    ::free(p);
  }
  Platform getPlatform() noexcept override
  {
    return m_plat;
  }
  MemoryResourceTraits getTraits() const noexcept override
  {
    return m_traits;
  }
  int m_fail{0};

 private:
  int m_no;
  Platform m_plat;
  MemoryResourceTraits m_traits;
};

// --------------------------------------------------------------------------
// N: overrides nothing.  T: the synchronous forms only.  A: all.  X: all, and every call fails.
struct OpT : op::MemoryOperation {
  explicit OpT(int id, bool re, bool boom) : m_id{id}, m_re{re}, m_boom{boom}
  {
  }
  void transform(void* s, void** d, util::AllocationRecord* rs, util::AllocationRecord* rd, std::size_t n) override
  {
    call("tr", m_id, s, m_re ? "-" : at(*d), n, 0, rs, rd, nullptr);
    if (m_boom)
      throw Boom("op");
    if (m_re)
      m_gen.transform(s, d, rs, rd, n);
    else
      std::memmove(*d, s, n);
  }
  void apply(void* s, util::AllocationRecord* rs, int v, std::size_t n) override
  {
    call("ap", m_id, s, "-", n, v, rs, nullptr, nullptr);
    if (m_boom)
      throw Boom("op");
  }
  int m_id;
  bool m_re, m_boom;
  op::GenericReallocateOperation m_gen;
};
using Proxy = camp::resources::EventProxy<camp::resources::Resource>;
struct OpA : OpT {
  using OpT::OpT;
  Proxy transform_async(void* s, void** d, util::AllocationRecord* rs, util::AllocationRecord* rd, std::size_t n, camp::resources::Resource& x) override
  {
    call("tra", m_id, s, m_re ? "-" : at(*d), n, 0, rs, rd, &x);
    if (m_boom)
      throw Boom("op");
    if (m_re)
      return m_gen.transform_async(s, d, rs, rd, n, x);
    std::memmove(*d, s, n);
    return Proxy{x};
  }
  Proxy apply_async(void* s, util::AllocationRecord* rs, int v, std::size_t n, camp::resources::Resource& x) override
  {
    call("apa", m_id, s, "-", n, v, rs, nullptr, &x);
    if (m_boom)
      throw Boom("op");
    return Proxy{x};
  }
};

// --------------------------------------------------------------------------
struct H {
  void* p;
  std::size_t n;
};

static void episode(const std::vector<std::string>& ep)
{
  auto& rm = ResourceManager::getInstance();
  umpire_resourcemanager crm;
  umpire_resourcemanager_get_instance(&crm);
  std::vector<Allocator> al{rm.getAllocator("HOST")};
  std::map<long, H> live;
  std::map<const op::MemoryOperation*, int> opid;
  long turn = 0;
  auto fin = [&](J& j, const std::string& r) {
    j.str("r", r);
    std::string c = "[";
    for (std::size_t i = 0; i < calls.size(); ++i)
      c += (i ? "," : "") + calls[i];
    j.raw("calls", c + "]");
    std::string st = "[";
    for (std::size_t i = 0; i < al.size(); ++i)
      st += (i ? ",[" : "[") + std::to_string(lim(al[i].getCurrentSize())) + "," + std::to_string(lim(al[i].getAllocationCount())) + "]";
    j.raw("st", st + "]");
    emit(j.done());
    calls.clear();
  };
  auto tried = [](std::function<void()> f) -> std::string {
    try {
      f();
      return "ok";
    } catch (const Boom&) {
      return "boom";
    } catch (const out_of_memory_error&) {
      return "oom";
    } catch (const runtime_error&) {
      return "err";
    } catch (const std::exception&) {
      return "other";
    }
  };
  for (std::size_t li = 1; li < ep.size(); ++li, ++turn) {
    std::istringstream is(ep[li]);
    std::string t;
    is >> t;
    camp::resources::Resource ctx{camp::resources::Host{}};
    given = &ctx;
    auto in = [&](std::size_t i) { return i < al.size(); };
    J j;
    j.str("t", t);
    if (t == "reg") {
      std::string name, fl;
      int p, q, id;
      is >> name >> p >> q >> fl >> id;
      std::shared_ptr<op::MemoryOperation> o;
      const bool re = name == "REALLOCATE";
      if (fl == "N")
        o = std::make_shared<op::MemoryOperation>();
      else if (fl == "T")
        o = std::make_shared<OpT>(id, re, false);
      else if (fl == "G")
        o = std::make_shared<op::GenericReallocateOperation>();
      else
        o = std::make_shared<OpA>(id, re, fl == "X");
      opid[o.get()] = id;
      j.str("name", name).i("p", p).i("q", q).str("fl", fl).i("id", id);
      op::MemoryOperationRegistry::getInstance().registerOperation(name, {static_cast<Platform>(p), static_cast<Platform>(q)}, std::move(o));
      fin(j, "ok");
    } else if (t == "mk") {
      std::string kind, opn = "-";
      int par, a = 0, b = 0, form = 0;
      is >> kind >> par >> a >> b >> opn >> form;
      std::string name = "a" + std::to_string(turn), pad = name + "  ";
      const int ln = static_cast<int>(name.size());
      j.str("kind", kind).i("par", par).i("a", a).i("b", b).str("op", opn).i("form", form);
      if (!in(static_cast<std::size_t>(par)) || !in(static_cast<std::size_t>(b)) && kind == "AV")
        continue;
      Allocator P = kind == "DV" ? al[0] : al[static_cast<std::size_t>(par)];
      umpire_allocator ca{&P, 0}, cr{nullptr, 0};
      Allocator N = al[0];
      auto r = tried([&] {
        if (kind == "DV")
          N = rm.makeAllocator<Dev>(name, static_cast<int>(al.size()), a, b);
        else if (kind == "NA")
          N = rm.makeAllocator<strategy::NamedAllocationStrategy>(name, P);
        else if (kind == "TS")
          N = rm.makeAllocator<strategy::ThreadSafeAllocator>(name, P);
        else if (kind == "LI")
          N = rm.makeAllocator<strategy::SizeLimiter>(name, P, static_cast<std::size_t>(a));
        else if (kind == "QP")
          N = rm.makeAllocator<strategy::QuickPool>(name, P, static_cast<std::size_t>(512), static_cast<std::size_t>(256));
        else if (kind == "DL")
          N = rm.makeAllocator<strategy::DynamicPoolList>(name, P, static_cast<std::size_t>(512), static_cast<std::size_t>(256));
        else if (kind == "MP")
          N = rm.makeAllocator<strategy::MixedPool>(name, P);
        else if (kind == "MO")
          N = rm.makeAllocator<strategy::MonotonicAllocationStrategy>(name, P, static_cast<std::size_t>(1) << 20);
        else if (kind == "FX")
          N = rm.makeAllocator<strategy::FixedPool>(name, P, static_cast<std::size_t>(a));
        else if (kind == "SP")
          N = rm.makeAllocator<strategy::SlotPool>(name, P, static_cast<std::size_t>(64));
        else if (kind == "AA")
          N = rm.makeAllocator<strategy::AlignedAllocator>(name, P, static_cast<std::size_t>(64));
        else if (kind == "AV") {
          if (form == 0)
            N = rm.makeAllocator<strategy::AllocationAdvisor>(name, P, opn, a);
          else if (form == 1)
            N = rm.makeAllocator<strategy::AllocationAdvisor>(name, P, opn, al[static_cast<std::size_t>(b)], a);
          else if (form == 2)
            N = *static_cast<Allocator*>(umpire_resourcemanager_make_allocator_advisor(&crm, name.c_str(), ca, opn.c_str(), a, &cr)->addr);
          else
            N = *static_cast<Allocator*>(umpire_resourcemanager_make_allocator_bufferify_advisor(&crm, pad.c_str(), ln, ca, (opn + " ").c_str(),
                                                                                                static_cast<int>(opn.size()), a, &cr)
                                             ->addr);
        } else if (kind == "AD") // the device left out
          N = rm.makeAllocator<strategy::AllocationAdvisor>(name, P, opn);
        else if (kind == "PF") {
          if (form == 0)
            N = rm.makeAllocator<strategy::AllocationPrefetcher>(name, P, a);
          else if (form == 2)
            N = *static_cast<Allocator*>(umpire_resourcemanager_make_allocator_prefetcher(&crm, name.c_str(), ca, a, &cr)->addr);
          else
            N = *static_cast<Allocator*>(umpire_resourcemanager_make_allocator_bufferify_prefetcher(&crm, pad.c_str(), ln, ca, a, &cr)->addr);
        } else if (kind == "PD")
          N = rm.makeAllocator<strategy::AllocationPrefetcher>(name, P);
        else
          _exit(98);
      });
      if (r == "ok")
        al.push_back(N);
      j.i("is", rm.isAllocator(name)).i("same", r == "ok" && N.getName() == name);
      j.i("plat", r == "ok" ? static_cast<int>(N.getPlatform()) : -1);
      j.i("res", r == "ok" ? static_cast<int>(N.getAllocationStrategy()->getTraits().resource) : -1);
      fin(j, r);
    } else if (t == "df") {
      int k, n;
      is >> k >> n;
      Dev::all().at(k)->m_fail = n;
      j.i("k", k).i("n", n);
      fin(j, "ok");
    } else if (t == "al") {
      long h;
      std::size_t i, n;
      is >> h >> i >> n;
      if (!in(i))
        continue;
      void* p = nullptr;
      auto r = tried([&] { p = al[i].allocate(n); });
      if (r == "ok")
        live[h] = H{p, n};
      j.i("h", h).i("i", static_cast<long>(i)).i("n", lim(n)).str("p", at(p));
      fin(j, r);
    } else if (t == "fr") {
      long h, via;
      is >> h >> via;
      if (!live.count(h))
        continue;
      H x = live[h];
      auto r = tried([&] {
        if (via)
          rm.deallocate(x.p);
        else
          rm.getAllocator(x.p).deallocate(x.p);
      });
      if (r == "ok")
        live.erase(h);
      j.i("h", h);
      fin(j, r);
    } else if (t == "cp") {
      long s, so, d, dof, as;
      std::size_t n;
      is >> s >> so >> d >> dof >> n >> as;
      if (!live.count(s) || !live.count(d))
        continue;
      char* sp = static_cast<char*>(live[s].p) + so;
      char* dp = static_cast<char*>(live[d].p) + dof;
      int ev = 0;
      auto r = tried([&] {
        if (as) {
          auto e = rm.copy(dp, sp, ctx, n);
          ev = e.resource == &ctx;
        } else
          rm.copy(dp, sp, n);
      });
      j.i("s", s).i("so", so).i("d", d).i("do", dof).i("n", lim(n)).i("as", as).str("sp", at(sp)).str("dp", at(dp)).i("ev", ev);
      fin(j, r);
    } else if (t == "ms") {
      long h, o, v, as;
      std::size_t n;
      is >> h >> o >> v >> n >> as;
      if (!live.count(h))
        continue;
      char* p = static_cast<char*>(live[h].p) + o;
      int ev = 0;
      auto r = tried([&] {
        if (as) {
          auto e = rm.memset(p, static_cast<int>(v), ctx, n);
          ev = e.resource == &ctx;
        } else
          rm.memset(p, static_cast<int>(v), n);
      });
      j.i("h", h).i("o", o).i("v", v).i("n", lim(n)).i("as", as).str("p", at(p)).i("ev", ev);
      fin(j, r);
    } else if (t == "pre") {
      long h, o, v;
      is >> h >> o >> v;
      if (!live.count(h))
        continue;
      char* p = static_cast<char*>(live[h].p) + o;
      int ev = 0;
      auto r = tried([&] {
        auto e = rm.prefetch(p, static_cast<int>(v), ctx);
        ev = e.resource == &ctx;
      });
      j.i("h", h).i("o", o).i("v", v).str("p", at(p)).i("ev", ev);
      fin(j, r);
    } else if (t == "re") {
      long h, as, w;
      std::size_t n;
      is >> h >> n >> as >> w;
      if (!live.count(h))
        continue;
      void *p = live[h].p, *np = nullptr;
      auto A = rm.getAllocator(p);
      auto r = tried([&] { np = w ? (as ? rm.reallocate(p, n, A, ctx) : rm.reallocate(p, n, A)) : (as ? rm.reallocate(p, n, ctx) : rm.reallocate(p, n)); });
      if (r == "ok")
        live[h] = H{np, n};
      j.i("h", h).i("n", lim(n)).i("as", as).str("p", at(np));
      fin(j, r);
    } else if (t == "mv") {
      long h;
      std::size_t i;
      is >> h >> i;
      if (!live.count(h) || !in(i))
        continue;
      void *p = live[h].p, *np = nullptr;
      auto r = tried([&] { np = rm.move(p, al[i]); });
      if (r == "ok")
        live[h].p = np;
      j.i("h", h).i("i", static_cast<long>(i)).str("p", at(np));
      fin(j, r);
    } else if (t == "op") {
      std::string name;
      std::size_t a, b;
      is >> name >> a >> b;
      if (!in(a) || !in(b))
        continue;
      int id = -1;
      auto r = tried([&] {
        auto o = rm.getOperation(name, al[a], al[b]);
        id = opid.count(o.get()) ? opid[o.get()] : 0;
      });
      j.str("name", name).i("a", static_cast<long>(a)).i("b", static_cast<long>(b)).i("id", id);
      fin(j, r);
    }
  }
}

int main(int argc, char** argv)
{
  return vf::run_episodes(argc, argv, episode);
}
