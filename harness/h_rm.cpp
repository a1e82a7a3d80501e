// Executes scripts against the ResourceManager and the free functions, in C++
// or through the C interface, and logs one event per call.
#include <malloc.h>

#include <set>

#include "camp/resource.hpp"
#include "common.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/TypedAllocator.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/util/wrap_allocator.hpp"
#include "umpire/interface/c_fortran/umpire.h"
#include "umpire/resource/MemoryResourceTypes.hpp"
#include "umpire/strategy/AlignedAllocator.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/MonotonicAllocationStrategy.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/SlotPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/error.hpp"

using namespace umpire;
using vf::emit;
using vf::J;
using vf::lim;

// 16 MiB windows of the address space, numbered in the order they are first seen.
static long addr(const void* p)
{
  static std::map<std::uintptr_t, long> win;
  if (!p)
    return 0;
  auto u = reinterpret_cast<std::uintptr_t>(p);
  auto it = win.emplace(u >> 24, static_cast<long>(win.size()) + 1).first;
  if (it->second > 60)
    _exit(98);
  return (it->second << 24) | static_cast<long>(u & 0xffffff);
}

struct Live {
  char* p;
  std::size_t n;
  int a; // script number of the allocator
  bool alive;
  bool ext;
  bool tracked;
};

template <typename T>
struct Blob {
  char c[sizeof(T)];
};
struct B24 {
  char c[24];
};

static char g_ext[4096];

struct Run {
  ResourceManager& rm{ResourceManager::getInstance()};
  umpire_resourcemanager crm;
  std::map<int, Allocator> A; // script number -> allocator
  std::map<int, bool> trk;
  std::map<int, Live> L;
  unsigned fillc{7}, alt{7};
  unsigned lineno{0};
  bool pools{false};
  camp::resources::Resource host{camp::resources::Host{}};

  Run()
  {
    umpire_resourcemanager_get_instance(&crm);
  }

  template <typename F>
  int guard(F&& f)
  {
    try {
      f();
      return 0;
    } catch (umpire::out_of_memory_error&) {
      return 2;
    } catch (umpire::runtime_error&) {
      return 1;
    } catch (std::exception&) {
      return 3;
    }
  }

  umpire_allocator cap(const Allocator& a)
  {
    umpire_allocator c;
    c.addr = const_cast<Allocator*>(&a);
    c.idtor = 0;
    return c;
  }
  Allocator uncap(umpire_allocator& c)
  {
    Allocator a{*static_cast<Allocator*>(c.addr)};
    umpire_allocator_delete(&c);
    return a;
  }

  static std::vector<long> bytes(const char* p, std::size_t n)
  {
    std::vector<long> v;
    for (std::size_t i = 0; i < n && i < 64; ++i)
      v.push_back(static_cast<unsigned char>(p[i]));
    return v;
  }
  void fill(char* p, std::size_t n)
  {
    for (std::size_t i = 0; i < n; ++i) {
      fillc = fillc * 1103515245u + 12345u;
      p[i] = static_cast<char>(fillc >> 16);
    }
  }
  bool ok(int h)
  {
    auto i = L.find(h);
    return i != L.end() && i->second.alive;
  }
  bool stale(int h, const void* p)
  {
    for (auto& x : L)
      if (x.second.alive && x.second.p <= p && p <= x.second.p + x.second.n)
        return false;
    return L.count(h) && !L[h].alive;
  }
  // pointer argument: h>=0 a live handle (plus offset), -1 null, -2 wild, <=-10 the freed handle -(h+10)
  bool ptr(int h, long o, void*& p, bool anyway = false)
  {
    static char wild[64];
    if (h >= 0) {
      if (!ok(h))
        return false;
      p = L[h].p + o;
      return true;
    }
    if (h == -1)
      p = nullptr;
    else if (h == -2)
      p = wild + (o & 31);
    else {
      int k = -(h + 10);
      if (!L.count(k) || L[k].alive || (pools && !anyway))
        return false; // inside a pool's block the address is still known
      p = L[k].p + o;
      return stale(k, p);
    }
    return true;
  }
  bool has(int a)
  {
    return A.find(a) != A.end();
  }
  void known(J& j, const char* pre, Allocator a)
  {
    j.i("id", a.getId()).str("rn", a.getName());
  }
  static std::string unq(const std::string& s)
  {
    return s == "-" ? std::string{} : s;
  }

  std::size_t num(const std::string& s)
  {
    if (s.rfind("max-", 0) == 0)
      return SIZE_MAX - std::stoul(s.substr(4));
    if (s.rfind("p", 0) == 0) { // p60 = 2^60, p60+3
      auto q = s.find('+');
      return (std::size_t{1} << std::stoul(s.substr(1, q))) + (q == std::string::npos ? 0 : std::stoul(s.substr(q + 1)));
    }
    return std::stoul(s);
  }

  int stats(J& j, Allocator a)
  {
    j.i("cu", lim(a.getCurrentSize())).i("hw", lim(a.getHighWatermark())).i("ct", lim(a.getAllocationCount()));
    return 0;
  }

  void line(const std::string& l)
  {
    std::istringstream in(l);
    std::string c;
    in >> c;
    alt = ++lineno * 2654435761u; // which of several equivalent forms this line uses
    for (char x : l)
      alt = (alt ^ static_cast<unsigned char>(x)) * 16777619u;
    alt ^= alt >> 15;
    int api = 0;
    if (c.size() > 2 && c[0] == 'C' && c[1] == '.') {
      api = 1;
      c = c.substr(2);
    }
    J j;
    j.str("t", c).i("api", api);
    if (c == "R") {
      auto v = rm.getResourceNames();
      std::string s = "[";
      for (auto& n : v)
        s += (s.size() > 1 ? ",\"" : "\"") + n + "\"";
      emit(j.raw("ns", s + "]").done());
    } else if (c == "get") { // get NUM NAME
      int k;
      std::string n;
      in >> k >> n;
      int x = guard([&] {
        Allocator a;
        if (api) {
          umpire_allocator r;
          if (alt & 1)
            umpire_resourcemanager_get_allocator_by_name(&crm, n.c_str(), &r);
          else {
            std::string padded = n + "   ";
            umpire_resourcemanager_get_allocator_by_name_bufferify(&crm, padded.c_str(), static_cast<int>(n.size()), &r);
          }
          a = uncap(r);
        } else
          a = rm.getAllocator(n);
        if (!A.emplace(k, a).second)
          A.at(k) = a;
        trk[k] = a.isTracked();
        known(j, "", a);
        j.i("par", a.getParent() ? a.getParent()->getId() : -1);
      });
      if (x)
        j.i("id", -1).str("rn", "").i("par", -1);
      emit(j.str("nm", n).i("x", x).done());
    } else if (c == "grt") { // by resource type
      int k;
      std::string n;
      in >> k >> n;
      int x = guard([&] {
        Allocator a = rm.getAllocator(resource::string_to_resource(n));
        if (!A.emplace(k, a).second)
          A.at(k) = a;
        trk[k] = a.isTracked();
        known(j, "", a);
        j.i("par", a.getParent() ? a.getParent()->getId() : -1);
      });
      if (x)
        j.i("id", -1).str("rn", "").i("par", -1);
      j.s.replace(0, 10, "{\"t\":\"get\"");
      emit(j.str("nm", n).i("x", x).done());
    } else if (c == "mk") { // mk NUM NAME KIND PARNUM TRACKED params...
      int k, pn, t;
      std::string n, kind;
      in >> k >> n >> kind >> pn >> t;
      std::vector<std::size_t> a;
      std::string w;
      while (in >> w)
        a.push_back(num(w));
      if (!has(pn))
        return;
      a.resize(4, 0);
      Allocator par = A.at(pn), made = par;
      Tracking tr = t ? Tracking::Tracked : Tracking::Untracked;
      std::string want;
      int x = guard([&] {
        if (api) {
          umpire_allocator r;
          r.addr = nullptr;
          auto pc = cap(par);
          std::string pad = n + "  ";
          int ln = static_cast<int>(n.size());
          bool bf = (alt >> 3) & 1;
          if (kind == "QP")
            bf ? umpire_resourcemanager_make_allocator_bufferify_quick_pool(&crm, pad.c_str(), ln, pc, a[0], a[1], &r)
               : umpire_resourcemanager_make_allocator_quick_pool(&crm, n.c_str(), pc, a[0], a[1], &r);
          else if (kind == "DL")
            bf ? umpire_resourcemanager_make_allocator_bufferify_list_pool(&crm, pad.c_str(), ln, pc, a[0], a[1], &r)
               : umpire_resourcemanager_make_allocator_list_pool(&crm, n.c_str(), pc, a[0], a[1], &r);
          else if (kind == "NA")
            bf ? umpire_resourcemanager_make_allocator_bufferify_named(&crm, pad.c_str(), ln, pc, &r)
               : umpire_resourcemanager_make_allocator_named(&crm, n.c_str(), pc, &r);
          else if (kind == "TS")
            bf ? umpire_resourcemanager_make_allocator_bufferify_thread_safe(&crm, pad.c_str(), ln, pc, &r)
               : umpire_resourcemanager_make_allocator_thread_safe(&crm, n.c_str(), pc, &r);
          else if (kind == "FP")
            bf ? umpire_resourcemanager_make_allocator_bufferify_fixed_pool(&crm, pad.c_str(), ln, pc, a[0], &r)
               : umpire_resourcemanager_make_allocator_fixed_pool(&crm, n.c_str(), pc, a[0], &r);
          else
            throw std::logic_error("kind");
          made = uncap(r);
        } else if (kind == "QP")
          made = rm.makeAllocator<strategy::QuickPool>(n, tr, par, a[0], a[1], a[2]);
        else if (kind == "DL")
          made = rm.makeAllocator<strategy::DynamicPoolList>(n, tr, par, a[0], a[1], a[2]);
        else if (kind == "NA")
          made = rm.makeAllocator<strategy::NamedAllocationStrategy>(n, tr, par);
        else if (kind == "TS")
          made = rm.makeAllocator<strategy::ThreadSafeAllocator>(n, tr, par);
        else if (kind == "SL")
          made = rm.makeAllocator<strategy::SizeLimiter>(n, tr, par, a[0]);
        else if (kind == "AA")
          made = rm.makeAllocator<strategy::AlignedAllocator>(n, tr, par, static_cast<unsigned>(a[0]));
        else if (kind == "FP")
          made = rm.makeAllocator<strategy::FixedPool>(n, tr, par, a[0]);
        else
          throw std::logic_error("kind");
      });
      if (x == 3 && kind != "QP") {
        bool known = kind == "DL" || kind == "NA" || kind == "TS" || kind == "SL" || kind == "AA" || kind == "FP";
        if (!known)
          _exit(98);
      }
      if (!x) {
        if (!A.emplace(k, made).second)
          A.at(k) = made;
        trk[k] = t;
        if (kind != "NA" && kind != "TS" && kind != "SL")
          pools = true;
        j.i("id", made.getId()).str("rn", made.getName()).i("pid", made.getParent() ? made.getParent()->getId() : -1);
        j.i("isn", rm.isAllocator(n)).i("same", rm.getAllocator(n).getId() == made.getId() && rm.getAllocator(made.getId()).getId() == made.getId());
        stats(j, made);
        j.i("tr", made.isTracked()).i("pf", made.getPlatform() == par.getPlatform());
        j.i("acc", umpire::is_accessible(Platform::host, made) == umpire::is_accessible(Platform::host, par));
      } else
        j.i("id", -1).str("rn", "").i("pid", -1).i("isn", rm.isAllocator(n)).i("same", 0).i("cu", 0).i("hw", 0).i("ct", 0).i("tr", 0).i("pf", 0).i("acc", 0);
      emit(j.str("nm", n).str("k", kind).i("par", par.getId()).i("trk", t).i("lim", lim(a[0])).i("x", x).done());
    } else if (c == "gid") { // lookup by numeric id
      std::string w;
      in >> w;
      int id = w[0] == '@' ? (has(std::stoi(w.substr(1))) ? A.at(std::stoi(w.substr(1))).getId() : -1) : std::stoi(w);
      int x, is = 0;
      is = api ? umpire_resourcemanager_is_allocator_id(&crm, id) : rm.isAllocator(id);
      x = guard([&] {
        if (api) {
          umpire_allocator r;
          umpire_resourcemanager_get_allocator_by_id(&crm, id, &r);
          Allocator a = uncap(r);
          known(j, "", a);
        } else
          known(j, "", rm.getAllocator(id));
      });
      if (x)
        j.i("id", -1).str("rn", "");
      emit(j.i("q", id).i("is", is).i("x", x).done());
    } else if (c == "isn") {
      std::string n;
      in >> n;
      int is = api ? ((alt & 4) ? umpire_resourcemanager_is_allocator_name(&crm, n.c_str())
                                  : umpire_resourcemanager_is_allocator_name_bufferify(&crm, (n + " ").c_str(), static_cast<int>(n.size())))
                   : rm.isAllocator(n);
      emit(j.str("nm", n).i("is", is).done());
    } else if (c == "lst") {
      std::string s = "[";
      for (auto& n : rm.getAllocatorNames())
        s += (s.size() > 1 ? ",\"" : "\"") + n + "\"";
      std::vector<long> ids;
      for (int i : rm.getAllocatorIds())
        ids.push_back(i);
      emit(j.raw("ns", s + "]").vec("ids", ids).done());
    } else if (c == "ali" || c == "una") {
      std::string n;
      int k;
      in >> n >> k;
      if (!has(k))
        return;
      auto& a = A.at(k);
      auto pc = cap(a);
      int x = guard([&] {
        if (c == "ali") {
          if (!api)
            rm.addAlias(n, a);
          else if (alt & 2)
            umpire_resourcemanager_add_alias(&crm, n.c_str(), pc);
          else
            umpire_resourcemanager_add_alias_bufferify(&crm, (n + "  ").c_str(), static_cast<int>(n.size()), pc);
        } else if (!api)
          rm.removeAlias(n, a);
        else if (alt & 2)
          umpire_resourcemanager_remove_alias(&crm, n.c_str(), pc);
        else
          umpire_resourcemanager_remove_alias_bufferify(&crm, (n + "  ").c_str(), static_cast<int>(n.size()), pc);
      });
      emit(j.str("nm", n).i("id", a.getId()).i("x", x).done());
    } else if (c == "def") {
      int k;
      in >> k;
      if (!has(k))
        return;
      rm.setDefaultAllocator(A.at(k));
      emit(j.i("id", A.at(k).getId()).done());
    } else if (c == "gdf") {
      int k;
      in >> k;
      Allocator a = rm.getDefaultAllocator();
      if (!A.emplace(k, a).second)
        A.at(k) = a;
      trk[k] = a.isTracked();
      known(j, "", a);
      emit(j.done());
    } else if (c == "al") { // al H A size [name]   (size "T8:5" = TypedAllocator of 8 byte elements, 5 of them)
      int h, k;
      std::string w, name;
      in >> h >> k >> w >> name;
      if (!has(k))
        return;
      Allocator a = A.at(k);
      void* p = nullptr;
      std::size_t n = 0;
      int ty = 0;
      bool wide = false;
      int x;
      if (w[0] == 'T') {
        auto q = w.find(':');
        ty = std::stoi(w.substr(1, q - 1));
        std::size_t m = num(w.substr(q + 1));
        wide = __builtin_mul_overflow(m, static_cast<std::size_t>(ty), &n);
        x = guard([&] {
          switch (ty) {
            case 1: p = TypedAllocator<char>(a).allocate(m); break;
            case 2: p = TypedAllocator<short>(a).allocate(m); break;
            case 4: p = TypedAllocator<int>(TypedAllocator<char>(a)).allocate(m); break;
            case 8: p = TypedAllocator<double>(a).allocate(m); break;
            case 24: p = TypedAllocator<B24>(a).allocate(m); break;
            default: _exit(98);
          }
        });
      } else {
        n = num(w);
        x = guard([&] {
          if (api) {
            auto pc = cap(a);
            p = umpire_allocator_allocate(&pc, n);
          } else
            p = name.empty() ? a.allocate(n) : a.allocate(name, n);
        });
      }
      if (!x && !wide) {
        L[h] = {static_cast<char*>(p), n, k, true, false, trk[k]};
        fill(L[h].p, n);
        j.vec("c", bytes(L[h].p, n));
      } else
        j.vec("c", {});
      stats(j, a);
      emit(j.i("h", h).i("a", a.getId()).i("n", wide ? -2 : lim(n)).i("p", addr(p)).str("nm", name).i("x", x).done());
    } else if (c == "fr" || c == "rf") { // fr A H O      rf H O
      int k = -1, h;
      long o;
      if (c == "fr")
        in >> k;
      in >> h >> o;
      void* p;
      if ((c == "fr" && !has(k)) || !ptr(h, o, p, c == "fr"))
        return;
      if (h >= 0 && (L[h].ext || (!L[h].tracked && (o || (c == "rf") || L[h].a != k))))
        return;
      if (c == "fr" && !trk[k] && (h < 0 || L[h].a != k))
        return;
      std::vector<long> was = h >= 0 ? bytes(L[h].p, L[h].n) : std::vector<long>{};
      Allocator* a = c == "fr" ? &A.at(k) : nullptr;
      int x = guard([&] {
        if (!a)
          api ? umpire_resourcemanager_deallocate(&crm, p) : rm.deallocate(p);
        else if (api) {
          auto pc = cap(*a);
          umpire_allocator_deallocate(&pc, p);
        } else if (h >= 0 && (alt & 3) == 3 && o == 0)
          TypedAllocator<char>(*a).deallocate(static_cast<char*>(p), L[h].n);
        else
          a->deallocate(p);
      });
      if (!x && h >= 0)
        L[h].alive = false;
      if (a)
        stats(j, *a);
      else
        j.i("cu", 0).i("hw", 0).i("ct", 0);
      emit(j.i("h", h).i("a", a ? a->getId() : -1).i("p", addr(p)).vec("c", was).i("x", x).done());
    } else if (c == "cp") { // cp D DO S SO n async
      int d, s, as;
      long dof, sof;
      std::string w;
      in >> d >> dof >> s >> sof >> w >> as;
      void *dp, *sp;
      if (!ptr(d, dof, dp) || !ptr(s, sof, sp))
        return;
      std::size_t n = num(w);
      if (d >= 0 && s >= 0) {
        auto &D = L[d], &S = L[s];
        if (D.ext || S.ext || !D.tracked || !S.tracked)
          return;
        if (dof > static_cast<long>(D.n) || sof > static_cast<long>(S.n) || (dof && dof == static_cast<long>(D.n)) || (sof && sof == static_cast<long>(S.n)))
          return;
        std::size_t m = n ? n : S.n - static_cast<std::size_t>(sof), dr = D.n - static_cast<std::size_t>(dof);
        if (m <= dr && m > S.n - static_cast<std::size_t>(sof))
          return; // would read past the source
        if (m <= dr && sof > dof && sof + std::min<long>(static_cast<long>(m), 64 - dof) > 64)
          return; // contents are followed for the first 64 bytes
        if (d == s && m <= dr && m && !(dof + static_cast<long>(m) <= sof || sof + static_cast<long>(m) <= dof))
          return; // overlapping
      }
      std::vector<long> sb = s >= 0 ? bytes(L[s].p, L[s].n) : std::vector<long>{};
      int x = guard([&] {
        if (api)
          n ? umpire_resourcemanager_copy_with_size(&crm, dp, sp, n) : umpire_resourcemanager_copy_all(&crm, dp, sp);
        else if (as)
          rm.copy(dp, sp, host, n);
        else if (n || (alt & 1))
          rm.copy(dp, sp, n);
        else
          rm.copy(dp, sp);
      });
      emit(j.i("d", d).i("do", dof).i("s", s).i("so", sof).i("n", lim(n)).i("as", as).vec("c", d >= 0 ? bytes(L[d].p, L[d].n) : std::vector<long>{}).vec("sb", sb).i("x", x).done());
    } else if (c == "ms") { // ms H O v n async
      int h, as, v;
      long o;
      std::string w;
      in >> h >> o >> v >> w >> as;
      void* p;
      if (!ptr(h, o, p))
        return;
      std::size_t n = num(w);
      if (h >= 0 && (L[h].ext || !L[h].tracked || o > static_cast<long>(L[h].n) || (o && o == static_cast<long>(L[h].n))))
        return;
      int x = guard([&] {
        if (api)
          n ? umpire_resourcemanager_memset_with_size(&crm, p, v, n) : umpire_resourcemanager_memset_all(&crm, p, v);
        else if (as)
          rm.memset(p, v, host, n);
        else
          rm.memset(p, v, n);
      });
      emit(j.i("h", h).i("o", o).i("v", ((v % 256) + 256) % 256).i("n", lim(n)).i("as", as).vec("c", h >= 0 ? bytes(L[h].p, L[h].n) : std::vector<long>{}).i("x", x).done());
    } else if (c == "re") { // re NEWH H O n A async        A = -1: not given
      int nh, h, k, as;
      long o;
      std::string w;
      in >> nh >> h >> o >> w >> k >> as;
      void* p;
      if (!ptr(h, o, p) || (k >= 0 && !has(k)))
        return;
      if (h >= 0 && (L[h].ext || !L[h].tracked || o > static_cast<long>(L[h].n) || (o && o == static_cast<long>(L[h].n))))
        return;
      std::size_t n = num(w);
      int aid = k >= 0 ? A.at(k).getId() : -1;
      void* q = nullptr;
      int owner = h >= 0 ? L[h].a : k;
      int x = guard([&] {
        if (api) {
          if (k >= 0)
            q = umpire_resourcemanager_reallocate_with_allocator(&crm, p, n, cap(A.at(k)));
          else
            q = umpire_resourcemanager_reallocate_default(&crm, p, n);
        } else if (k >= 0)
          q = as ? rm.reallocate(p, n, A.at(k), host) : rm.reallocate(p, n, A.at(k));
        else
          q = as ? rm.reallocate(p, n, host) : rm.reallocate(p, n);
      });
      Allocator ow;
      if (owner >= 0)
        ow = A.at(owner);
      else if (!x)
        ow = rm.getDefaultAllocator();
      std::vector<long> got;
      if (!x) {
        got = bytes(static_cast<char*>(q), n);
        std::size_t old = h >= 0 ? L[h].n : 0;
        if (h >= 0)
          L[h].alive = false;
        bool t = ow.isTracked();
        int own = owner;
        if (own < 0) {
          own = 900;
          if (!A.emplace(own, ow).second)
            A.at(own) = ow;
          trk[own] = t;
        }
        L[nh] = {static_cast<char*>(q), n, own, true, false, t};
        if (n > old)
          fill(L[nh].p + old, n - old);
        j.vec("c", bytes(L[nh].p, n));
      } else
        j.vec("c", h >= 0 ? bytes(L[h].p, L[h].n) : std::vector<long>{});
      if (owner >= 0 || !x)
        stats(j, ow);
      else
        j.i("cu", 0).i("hw", 0).i("ct", 0);
      emit(j.i("h", h).i("nh", nh).i("o", o).i("a", aid).i("n", lim(n)).i("as", as).i("p", addr(q)).i("op", addr(p)).vec("got", got).i("ow", owner >= 0 || !x ? ow.getId() : -1).i("x", x).done());
    } else if (c == "mv") { // mv NEWH H O A
      int nh, h, k;
      long o;
      in >> nh >> h >> o >> k;
      void* p;
      if (!ptr(h, o, p) || !has(k))
        return;
      if (h >= 0 && (L[h].ext || !L[h].tracked || (o && o >= static_cast<long>(L[h].n))))
        return;
      if (!trk[k])
        return;
      void* q = nullptr;
      int x = guard([&] {
        if (api)
          q = umpire_resourcemanager_move(&crm, p, cap(A.at(k)));
        else
          q = rm.move(p, A.at(k));
      });
      std::size_t n = h >= 0 ? L[h].n : 0;
      if (!x && h >= 0) {
        if (static_cast<char*>(q) - o == L[h].p && A.at(L[h].a).getId() == A.at(k).getId()) {
          j.i("stay", 1).vec("c", bytes(L[h].p, n));
        } else {
          L[h].alive = false;
          L[nh] = {static_cast<char*>(q), n, k, true, false, trk[k]};
          j.i("stay", 0).vec("c", bytes(L[nh].p, n));
        }
      } else
        j.i("stay", 0).vec("c", h >= 0 ? bytes(L[h].p, L[h].n) : std::vector<long>{});
      stats(j, A.at(k));
      emit(j.i("h", h).i("nh", nh).i("o", o).i("a", A.at(k).getId()).i("p", addr(q)).i("op", addr(p)).i("x", x).done());
    } else if (c == "q") { // q H O
      int h;
      long o;
      in >> h >> o;
      void* p;
      if (!ptr(h, o, p) || (h >= 0 && !L[h].tracked))
        return;
      int hs = api ? umpire_resourcemanager_has_allocator(&crm, p) : rm.hasAllocator(p);
      std::size_t sz = 0, fsz = 0;
      int aid = -1;
      void* fb = nullptr;
      std::string fname;
      int x = guard([&] { sz = api ? umpire_resourcemanager_get_size(&crm, p) : rm.getSize(p); });
      int xa = guard([&] {
        if (api) {
          umpire_allocator r;
          umpire_resourcemanager_get_allocator_for_ptr(&crm, p, &r);
          aid = uncap(r).getId();
        } else
          aid = rm.getAllocator(p).getId();
      });
      int xf = guard([&] {
        auto r = rm.findAllocationRecord(p);
        fb = r->ptr;
        fsz = r->size;
        fname = r->name;
      });
      if (!xa && api) { // the allocator's own getSize
        auto a = rm.getAllocator(p);
        auto pc = cap(a);
        if (umpire_allocator_get_size(&pc, p) != sz)
          fsz = ~std::size_t{0};
      }
      emit(j.i("h", h).i("o", o).i("p", addr(p)).i("has", hs).i("x", x).i("xa", xa).i("xf", xf).i("sz", lim(sz)).i("a", aid).i("fb", addr(fb)).i("fs", lim(fsz)).str("fn", fname).done());
    } else if (c == "v") { // contents of everything live
      std::string s = "[";
      for (auto& x : L)
        if (x.second.alive && !x.second.ext) {
          J e;
          e.i("h", x.first).vec("c", bytes(x.second.p, x.second.n));
          s += (s.size() > 1 ? "," : "") + e.done();
        }
      emit(j.raw("v", s + "]").done());
    } else if (c == "st") {
      int k;
      in >> k;
      if (!has(k))
        return;
      Allocator& a = A.at(k);
      if (api) {
        auto pc = cap(a);
        j.i("cu", lim(umpire_allocator_get_current_size(&pc)))
            .i("hw", lim(umpire_allocator_get_high_watermark(&pc)))
            .i("ct", lim(umpire_allocator_get_allocation_count(&pc)));
        j.i("ac", lim(umpire_allocator_get_actual_size(&pc)) == lim(a.getActualSize()));
        std::string rn;
        if (alt & 1)
          rn = umpire_allocator_get_name(&pc);
        else {
          umpire_SHROUD_array d{};
          umpire_allocator_get_name_bufferify(&pc, &d);
          if (d.elem_len)
            rn.assign(d.addr.ccharp, d.elem_len);
          umpire_SHROUD_memory_destructor(&d.cxx);
          if (d.cxx.addr)
            rn += " (not released)";
        }
        j.str("rn", rn).i("rid", static_cast<long>(umpire_allocator_get_id(&pc)));
      } else {
        stats(j, a);
        j.i("ac", 1).str("rn", a.getName()).i("rid", a.getId());
      }
      emit(j.i("id", a.getId()).done());
    } else if (c == "rec") {
      int k;
      in >> k;
      if (!has(k))
        return;
      std::vector<long> v;
      auto rs = (alt & 1) ? umpire::get_allocator_records(A.at(k)) : umpire::get_leaked_allocations(A.at(k));
      for (auto& r : rs) {
        v.push_back(addr(r.ptr));
        v.push_back(lim(r.size));
      }
      std::stringstream ss;
      umpire::print_allocator_records(A.at(k), ss);
      long lines = 0;
      std::string ln;
      while (std::getline(ss, ln))
        if (ln.find("range:") != std::string::npos)
          ++lines;
      emit(j.i("id", A.at(k).getId()).vec("r", v).i("pl", lines).done());
    } else if (c == "ext") { // ext H OFF n A : register part of a static buffer
      int h, k;
      long o, n;
      in >> h >> o >> n >> k;
      if (!has(k) || o + n > static_cast<long>(sizeof g_ext))
        return;
      for (auto& x : L)
        if (x.second.alive && x.second.p == g_ext + o)
          return;
      void* p = g_ext + o;
      int x = guard([&] {
        if (api)
          umpire_resourcemanager_register_allocation(&crm, p, static_cast<std::size_t>(n), cap(A.at(k)));
        else
          umpire::register_external_allocation(p, util::AllocationRecord{p, static_cast<std::size_t>(n), A.at(k).getAllocationStrategy()});
      });
      if (!x)
        L[h] = {g_ext + o, static_cast<std::size_t>(n), k, true, true, true};
      emit(j.i("h", h).i("p", addr(p)).i("n", n).i("a", A.at(k).getId()).i("x", x).done());
    } else if (c == "une") {
      int h;
      in >> h;
      void* p;
      if (h >= 0 ? !(ok(h) && L[h].ext) : h == -1)
        return;
      if (!ptr(h, 0, p))
        return;
      long rn = -1;
      int x = guard([&] {
        if (api)
          umpire_resourcemanager_deregister_allocation(&crm, p);
        else
          rn = static_cast<long>(umpire::deregister_external_allocation(p).size);
      });
      if (!x && h >= 0)
        L[h].alive = false;
      emit(j.i("h", h).i("p", addr(p)).i("rn", rn).i("x", x).done());
    } else if (c == "ov") {
      int a, b;
      long u = 0, v = 0; // addresses inside the ranges
      in >> a >> b;
      if (!(in >> u >> v) || a < 0 || b < 0)
        u = v = 0;
      if ((a >= 0 && ok(a) && u && u >= static_cast<long>(L[a].n)) || (b >= 0 && ok(b) && v && v >= static_cast<long>(L[b].n)))
        return;
      void *p, *q;
      if (!ptr(a, u, p) || !ptr(b, v, q) || (a >= 0 && !L[a].tracked) || (b >= 0 && !L[b].tracked))
        return;
      int o = -1, k = -1;
      int xo = guard([&] { o = api ? umpire_pointer_overlaps(p, q) : umpire::pointer_overlaps(p, q); });
      int xk = guard([&] { k = api ? umpire_pointer_contains(p, q) : umpire::pointer_contains(p, q); });
      emit(j.i("l", a).i("r", b).i("u", u).i("v", v).i("o", o).i("k", k).i("xo", xo).i("xk", xk).done());
    } else if (c == "inf") {
      int k;
      in >> k;
      if (!has(k))
        return;
      Allocator a = A.at(k);
      std::stringstream os;
      os << a;
      bool tc = umpire::try_coalesce(a);
      int xc = guard([&] { umpire::coalesce(a); });
      strategy::QuickPool* u = nullptr;
      int xu = guard([&] { u = util::unwrap_allocator<strategy::QuickPool>(a); });
      int xf = guard([&] { umpire::find_pointer_from_name(a, "x"); });
      umpire_SHROUD_array d{};
      umpire_get_backtrace_bufferify(&d, &d);
      bool bt = std::string(d.addr.ccharp ? d.addr.ccharp : "", d.elem_len) == umpire::get_backtrace(&d);
      umpire_SHROUD_memory_destructor(&d.cxx);
      bool ver = umpire_get_major_version() == umpire::get_major_version() && umpire_get_minor_version() == umpire::get_minor_version() &&
                 umpire_get_patch_version() == umpire::get_patch_version() && umpire::get_major_version() == UMPIRE_VERSION_MAJOR &&
                 umpire::get_minor_version() == UMPIRE_VERSION_MINOR && umpire::get_patch_version() == UMPIRE_VERSION_PATCH;
      bool use = umpire_get_process_memory_usage() > 0 && umpire_get_process_memory_usage_hwm() > 0 && umpire::get_process_memory_usage() > 0 &&
                 umpire::get_process_memory_usage_hwm() > 0 && umpire_get_device_memory_usage(0) == umpire::get_device_memory_usage(0);
      emit(j.i("id", a.getId()).str("sn", a.getStrategyName()).str("os", os.str()).str("ts", umpire::to_string(a)).i("tc", tc).i("xc", xc).i("xu", xu)
               .i("us", u == a.getAllocationStrategy()).i("xf", xf).i("bt", bt).i("ver", ver).i("use", use).i("acc", umpire::is_accessible(Platform::host, a)).done());
    } else if (c == "rls") {
      int k;
      in >> k;
      if (!has(k))
        return;
      if (api) {
        auto pc = cap(A.at(k));
        umpire_allocator_release(&pc);
      } else
        A.at(k).release();
      emit(j.i("id", A.at(k).getId()).done());
    } else {
      fprintf(stderr, "bad line %s\n", l.c_str());
      _exit(98);
    }
  }
};

int main(int argc, char** argv)
{
  mallopt(M_MMAP_MAX, 0);
  setenv("UMPIRE_MEMORY_FILE_DIR", "./", 0);
  return vf::run_episodes(argc, argv, [](const std::vector<std::string>& ep) {
    Run r;
    for (std::size_t i = 1; i < ep.size(); ++i)
      r.line(ep[i]);
    // give back what is left so that the end of the process is orderly
    for (auto& x : r.L)
      if (x.second.alive && x.second.ext)
        r.rm.deregisterAllocation(x.second.p);
  });
}
