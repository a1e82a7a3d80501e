// Runs a program on Umpire with event recording switched on, reads the event
// log it leaves, replays it with the replay tool, and logs all three.  Also
// drives the event store directly.  Every value is logged as a string: the
// specification only compares them.
#include <dirent.h>
#include <sys/stat.h>

#include <algorithm>
#include <fstream>
#include <set>

#include "common.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/event/event.hpp"
#include "umpire/event/json_file_store.hpp"
#include "umpire/json/json.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/MixedPool.hpp"
#include "umpire/strategy/MonotonicAllocationStrategy.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/SlotPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"

using namespace umpire;
using vf::emit;
using vf::J;

static std::string self;

static std::string hex(const void* p)
{
  char b[32];
  if (!p)
    return "0";
  snprintf(b, sizeof b, "%p", p);
  return b;
}

static std::string dec(std::size_t v)
{
  return std::to_string(v);
}

static std::string q(const std::string& s) // every value in the log is printable
{
  std::string r;
  for (unsigned char c : s)
    if (isalnum(c) || (c && strchr("_.:/-", c)))
      r += static_cast<char>(c);
    else {
      char b[8];
      snprintf(b, sizeof b, "%%%02x", c);
      r += b;
    }
  return r;
}

static std::string unesc(const std::string& s) // _ space, %XX byte
{
  std::string r;
  for (std::size_t i = 0; i < s.size(); ++i)
    if (s[i] == '%' && i + 2 < s.size() + 0 && i + 2 <= s.size() - 1) {
      r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16));
      i += 2;
    } else
      r += s[i];
  return r;
}

// ------------------------------------------------------------- the program
struct Prog {
  ResourceManager& rm{ResourceManager::getInstance()};
  std::map<std::string, Allocator> A;
  std::vector<std::string> order;
  struct H {
    void* p;
    std::size_t n;
    std::string a;
    bool live;
  };
  std::map<int, H> L;
  char ext[256];
  camp::resources::Resource host{camp::resources::Host{}};
  bool go_on{false}, stop{false};

  template <typename F>
  int guard(F&& f)
  {
    try {
      f();
      return 0;
    } catch (std::exception&) {
      return 1;
    }
  }

  void finish(J& j)
  {
    J st;
    for (auto& n : order) {
      auto& a = A.at(n);
      std::string s = "[\"" + hex(a.getAllocationStrategy()) + "\",\"" + dec(a.getCurrentSize()) + "\",\"" + dec(a.getActualSize()) +
                      "\",\"" + dec(a.getHighWatermark()) + "\"";
      if (auto q = dynamic_cast<strategy::QuickPool*>(a.getAllocationStrategy()))
        s += ",\"" + dec(q->getTotalBlocks()) + "\",\"" + dec(q->getReleasableBlocks()) + "\"";
      else if (auto d = dynamic_cast<strategy::DynamicPoolList*>(a.getAllocationStrategy()))
        s += ",\"" + dec(d->getTotalBlocks()) + "\",\"" + dec(d->getReleasableBlocks()) + "\"";
      st.raw(q(n).c_str(), s + "]");
    }
    emit(j.raw("st", st.done()).done());
  }

  template <typename S, bool T>
  Allocator mk(const std::string& nm, Allocator b, const std::vector<std::size_t>& v)
  {
    return mkn(static_cast<S*>(nullptr), std::integral_constant<bool, T>{}, nm, b, v);
  }
  template <bool T>
  Allocator mkn(strategy::QuickPool*, std::integral_constant<bool, T>, const std::string& nm, Allocator b, const std::vector<std::size_t>& v)
  {
    using S = strategy::QuickPool;
    switch (v.size()) {
      case 0: return rm.makeAllocator<S, T>(nm, b);
      case 1: return rm.makeAllocator<S, T>(nm, b, v[0]);
      case 2: return rm.makeAllocator<S, T>(nm, b, v[0], v[1]);
      case 3: return rm.makeAllocator<S, T>(nm, b, v[0], v[1], v[2]);
      default: return rm.makeAllocator<S, T>(nm, b, v[0], v[1], v[2], S::percent_releasable(100));
    }
  }
  template <bool T>
  Allocator mkn(strategy::DynamicPoolList*, std::integral_constant<bool, T>, const std::string& nm, Allocator b, const std::vector<std::size_t>& v)
  {
    using S = strategy::DynamicPoolList;
    switch (v.size()) {
      case 0: return rm.makeAllocator<S, T>(nm, b);
      case 1: return rm.makeAllocator<S, T>(nm, b, v[0]);
      case 2: return rm.makeAllocator<S, T>(nm, b, v[0], v[1]);
      case 3: return rm.makeAllocator<S, T>(nm, b, v[0], v[1], v[2]);
      default: return rm.makeAllocator<S, T>(nm, b, v[0], v[1], v[2], S::percent_releasable(100));
    }
  }
  template <bool T>
  Allocator mkn(strategy::FixedPool*, std::integral_constant<bool, T>, const std::string& nm, Allocator b, const std::vector<std::size_t>& v)
  {
    using S = strategy::FixedPool;
    return v.size() == 1 ? rm.makeAllocator<S, T>(nm, b, v[0]) : rm.makeAllocator<S, T>(nm, b, v[0], v[1]);
  }
  template <bool T>
  Allocator mkn(strategy::MixedPool*, std::integral_constant<bool, T>, const std::string& nm, Allocator b, const std::vector<std::size_t>& v)
  {
    using S = strategy::MixedPool;
    switch (v.size()) {
      case 0: return rm.makeAllocator<S, T>(nm, b);
      case 1: return rm.makeAllocator<S, T>(nm, b, v[0]);
      case 2: return rm.makeAllocator<S, T>(nm, b, v[0], v[1]);
      case 3: return rm.makeAllocator<S, T>(nm, b, v[0], v[1], v[2]);
      case 4: return rm.makeAllocator<S, T>(nm, b, v[0], v[1], v[2], v[3]);
      case 5: return rm.makeAllocator<S, T>(nm, b, v[0], v[1], v[2], v[3], v[4]);
      case 6: return rm.makeAllocator<S, T>(nm, b, v[0], v[1], v[2], v[3], v[4], v[5]);
      default: return rm.makeAllocator<S, T>(nm, b, v[0], v[1], v[2], v[3], v[4], v[5], v[6]);
    }
  }
  template <typename S, bool T>
  Allocator mkn(S*, std::integral_constant<bool, T>, const std::string& nm, Allocator b, const std::vector<std::size_t>& v)
  {
    return mk1(static_cast<S*>(nullptr), std::integral_constant<bool, T>{}, nm, b, v,
               std::integral_constant<bool, std::is_same<S, strategy::ThreadSafeAllocator>::value ||
                                                std::is_same<S, strategy::NamedAllocationStrategy>::value>{});
  }
  template <typename S, bool T>
  Allocator mk1(S*, std::integral_constant<bool, T>, const std::string& nm, Allocator b, const std::vector<std::size_t>&, std::true_type)
  {
    return rm.makeAllocator<S, T>(nm, b);
  }
  template <typename S, bool T>
  Allocator mk1(S*, std::integral_constant<bool, T>, const std::string& nm, Allocator b, const std::vector<std::size_t>& v, std::false_type)
  {
    return rm.makeAllocator<S, T>(nm, b, v[0]);
  }

  template <bool T>
  Allocator kind(const std::string& k, const std::string& nm, Allocator b, const std::vector<std::size_t>& v)
  {
    if (k == "QP") return mk<strategy::QuickPool, T>(nm, b, v);
    if (k == "DL") return mk<strategy::DynamicPoolList, T>(nm, b, v);
    if (k == "FP") return mk<strategy::FixedPool, T>(nm, b, v);
    if (k == "MP") return mk<strategy::MixedPool, T>(nm, b, v);
    if (k == "SL") return mk<strategy::SlotPool, T>(nm, b, v);
    if (k == "MO") return mk<strategy::MonotonicAllocationStrategy, T>(nm, b, v);
    if (k == "LI") return mk<strategy::SizeLimiter, T>(nm, b, v);
    if (k == "TS") return mk<strategy::ThreadSafeAllocator, T>(nm, b, v);
    return mk<strategy::NamedAllocationStrategy, T>(nm, b, v);
  }

  void line(const std::string& l)
  {
    std::istringstream in(l);
    std::string c;
    in >> c;
    J j;
    j.str("t", "P").str("op", c);
    auto ref = [&](const std::string& a) { return hex(A.at(a).getAllocationStrategy()); };
    if (c == "res") { // res NAME
      std::string n;
      in >> n;
      int x = guard([&] { A.emplace(n, rm.getAllocator(n)); });
      if (!x && std::find(order.begin(), order.end(), n) == order.end())
        order.push_back(n);
      j.str("nm", n).i("x", x).str("ref", x ? "0" : ref(n));
    } else if (c == "mk") { // mk NAME KIND TRACKED PARENT args...
      std::string n, k, p;
      int tr;
      in >> n >> k >> tr >> p;
      n = unesc(n), p = unesc(p);
      std::vector<std::size_t> v;
      for (std::size_t q; in >> q;)
        v.push_back(q);
      if (!A.count(p))
        return;
      std::string r = "0";
      int x = guard([&] {
        Allocator a = tr ? kind<true>(k, n, A.at(p), v) : kind<false>(k, n, A.at(p), v);
        r = hex(a.getAllocationStrategy());
        A.emplace(n, a);
        order.push_back(n);
      });
      J a;
      a.str("arg0", q(p)).str("introspection", tr ? "1" : "0").str("allocator_ref", r);
      for (std::size_t i = 0; i < v.size() && i < (k == "MP" ? 7u : 3u); ++i)
        a.str(("arg" + dec(i + 1)).c_str(), dec(v[i]));
      j.str("nm", q(n)).str("k", k).i("x", x).str("ref", r).raw("a", a.done());
    } else if (c == "al" || c == "nal") { // al H ALLOC n [name]
      int h;
      std::string a, nm;
      std::size_t n;
      in >> h >> a >> n;
      a = unesc(a);
      if (c == "nal")
        in >> nm;
      nm = unesc(nm);
      if (!A.count(a))
        return;
      void* p = nullptr;
      int x = guard([&] { p = c == "al" ? A.at(a).allocate(n) : A.at(a).allocate(nm, n); });
      if (!x)
        L[h] = H{p, n, a, true};
      j.str("ref", ref(a)).str("n", dec(n)).str("p", hex(p)).i("x", x).str("nm", q(nm));
    } else if (c == "fr") { // fr H via(0 own 1 rm 2 twice)
      int h, via;
      in >> h >> via;
      if (!L.count(h) || !L[h].live)
        return;
      auto& x = L[h];
      if (!A.at(x.a).getAllocationStrategy()->isTracked())
        via = 0;
      int e = guard([&] { via == 1 ? rm.deallocate(x.p) : A.at(x.a).deallocate(x.p); });
      x.live = false;
      j.str("ref", ref(x.a)).str("p", hex(x.p)).i("x", e);
    } else if (c == "frx") { // a refused deallocation: frx H ALLOC off
      int h, off;
      std::string a;
      in >> h >> a >> off;
      a = unesc(a);
      if (!L.count(h) || !A.count(a) || !A.at(a).getAllocationStrategy()->isTracked())
        return;
      auto& q = L[h];
      if (q.live && q.a == a && off == 0)
        return;
      char* p = h < 0 ? nullptr : static_cast<char*>(q.p) + off;
      int live = 0;
      for (auto& y : L)
        if (y.second.live && y.second.p == p && y.second.a == a)
          live = 1;
      if (live)
        return;
      int e = guard([&] { A.at(a).deallocate(p); });
      j.str("ref", ref(a)).str("p", hex(p)).i("x", e);
    } else if (c == "frn") {
      std::string a;
      in >> a;
      a = unesc(a);
      if (!A.count(a))
        return;
      int e = guard([&] { A.at(a).deallocate(nullptr); });
      j.str("ref", ref(a)).i("x", e);
    } else if (c == "re" || c == "rea") { // re H n ; rea H n ALLOC (H may be new: null pointer)
      int h, as = 0;
      std::size_t n;
      std::string a;
      in >> h >> n;
      if (c == "rea")
        in >> a;
      in >> as;
      a = unesc(a);
      bool nul = !L.count(h);
      if (!nul && !L[h].live)
        return;
      if (c == "re" && nul) {
        a = rm.getDefaultAllocator().getName();
        if (!A.count(a))
          return;
      } else if (c == "re")
        a = L[h].a;
      if (!A.count(a) || (!nul && L[h].a != a) || !A.at(a).getAllocationStrategy()->isTracked())
        return;
      void* old = nul ? nullptr : L[h].p;
      void* p = nullptr;
      int x = guard([&] {
        if (as)
          p = c == "re" ? rm.reallocate(old, n, host) : rm.reallocate(old, n, A.at(a), host);
        else
          p = c == "re" ? rm.reallocate(old, n) : rm.reallocate(old, n, A.at(a));
      });
      if (!x)
        L[h] = H{p, n, a, true};
      j.str("ref", ref(a)).str("old", hex(old)).str("n", dec(n)).str("p", hex(p)).i("x", x);
      if (x && !go_on)
        stop = true;
    } else if (c == "go_on") {
      go_on = true; // what follows a reallocation that failed is not replayed: a known finding
      return;
    } else if (c == "mv") { // mv H ALLOC
      int h;
      std::string a;
      in >> h >> a;
      a = unesc(a);
      if (!L.count(h) || !L[h].live || !A.count(a) || !A.at(L[h].a).getAllocationStrategy()->isTracked() ||
          !A.at(a).getAllocationStrategy()->isTracked())
        return;
      auto q = L[h];
      void* p = nullptr;
      int x = guard([&] { p = rm.move(q.p, A.at(a)); });
      if (!x)
        L[h] = H{p, q.n, a, true};
      j.str("from", ref(q.a)).str("ref", ref(a)).str("old", hex(q.p)).str("n", dec(q.n)).str("p", hex(p)).i("x", x);
    } else if (c == "cp") { // cp DST SRC n dst_off src_off async
      int h, g, as = 0;
      std::size_t n, ho = 0, go = 0;
      in >> h >> g >> n >> ho >> go >> as;
      if (!L.count(h) || !L.count(g) || !L[h].live || !L[g].live || h == g || !A.at(L[h].a).getAllocationStrategy()->isTracked() ||
          !A.at(L[g].a).getAllocationStrategy()->isTracked() || L[h].n == 0 || L[g].n == 0)
        return;
      ho %= L[h].n, go %= L[g].n;
      if (n > L[g].n - go)
        return;
      auto d = static_cast<char*>(L[h].p) + ho, f = static_cast<char*>(L[g].p) + go;
      int x = guard([&] {
        if (as)
          rm.copy(d, f, host, n);
        else
          rm.copy(d, f, n);
      });
      j.str("dst", hex(d)).str("src", hex(f)).str("dref", ref(L[h].a)).str("sref", ref(L[g].a)).str("n", dec(n ? n : L[g].n - go)).i("x", x);
      j.str("so", dec(go)).str("do", dec(ho)).str("dnm", q(L[h].a)).str("snm", q(L[g].a)).i("as", as);
    } else if (c == "ms") { // ms H n off value async
      int h, v = 17, as = 0;
      std::size_t n, o = 0;
      in >> h >> n >> o >> v >> as;
      if (!L.count(h) || !L[h].live || L[h].n == 0 || !A.at(L[h].a).getAllocationStrategy()->isTracked())
        return;
      o %= L[h].n;
      auto p = static_cast<char*>(L[h].p) + o;
      int x = guard([&] {
        if (as)
          rm.memset(p, v, host, n);
        else
          rm.memset(p, v, n);
      });
      j.str("p", hex(p)).str("ref", ref(L[h].a)).str("n", dec(n ? n : L[h].n - o)).str("v", dec(static_cast<std::size_t>(v))).str("nm", q(L[h].a)).i("as", as).i("x", x);
    } else if (c == "def") {
      std::string a;
      in >> a;
      a = unesc(a);
      if (!A.count(a))
        return;
      int x = guard([&] { rm.setDefaultAllocator(A.at(a)); });
      j.str("nm", q(a)).str("ref", ref(a)).i("x", x);
    } else if (c == "co") {
      std::string a;
      in >> a;
      a = unesc(a);
      if (!A.count(a))
        return;
      bool did = umpire::try_coalesce(A.at(a));
      j.str("nm", q(a)).i("x", did ? 0 : 1);
    } else if (c == "rl") {
      std::string a;
      in >> a;
      a = unesc(a);
      if (!A.count(a))
        return;
      int x = guard([&] { A.at(a).release(); });
      j.str("nm", q(a)).str("ref", ref(a)).i("x", x);
    } else if (c == "reg") { // reg ALLOC n
      std::string a;
      std::size_t n;
      in >> a >> n;
      a = unesc(a);
      if (!A.count(a))
        return;
      umpire::register_external_allocation(ext, util::AllocationRecord{ext, n, A.at(a).getAllocationStrategy()});
      j.str("ref", ref(a)).str("p", hex(ext)).str("n", dec(n)).i("x", 0);
    } else if (c == "unreg") {
      int x = guard([&] { umpire::deregister_external_allocation(ext); });
      j.i("x", x);
    } else if (c == "mark") {
      std::string n;
      in >> n;
      n = unesc(n);
      umpire::mark_event(n);
      j.str("nm", q(n)).i("x", 0);
    } else
      _exit(98);
    finish(j);
  }
};

static int program(const char* script)
{
  std::ifstream f(script);
  Prog p;
  for (std::string l; !p.stop && std::getline(f, l);)
    p.line(l);
  fflush(nullptr);
  _exit(0);
}

// ------------------------------------------------------------- helpers
static std::vector<std::string> ls(const std::string& d)
{
  std::vector<std::string> r;
  if (DIR* h = opendir(d.c_str())) {
    while (dirent* e = readdir(h))
      if (e->d_name[0] != '.')
        r.push_back(e->d_name);
    closedir(h);
  }
  std::sort(r.begin(), r.end());
  return r;
}

static int spawn(const std::vector<std::string>& cmd, const std::string& dir, const std::string& out, bool events, const std::string& env)
{
  pid_t pid = fork();
  if (!pid) {
    if (events) {
      setenv(env.c_str(), "On", 1);
      setenv("UMPIRE_OUTPUT_DIR", dir.c_str(), 1);
    }
    if (!out.empty()) {
      if (chdir(dir.c_str()))
        _exit(97);
      int fd = ::open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(fd, 1);
      dup2(fd, 2);
    }
    std::vector<char*> av;
    for (auto& s : cmd)
      av.push_back(const_cast<char*>(s.c_str()));
    av.push_back(nullptr);
    alarm(20);
    execv(av[0], av.data());
    _exit(97);
  }
  int st;
  waitpid(pid, &st, 0);
  return WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st);
}

static std::string plain(const nlohmann::json& v)
{
  return v.is_string() ? v.get<std::string>() : v.dump();
}

static void members(J& j, const char* k, const std::vector<const nlohmann::json*>& objs)
{
  J a;
  for (auto o : objs)
    for (auto it = o->begin(); it != o->end(); ++it)
      a.str(q(it.key()).c_str(), q(plain(it.value())));
  j.raw(k, a.done());
}

// ------------------------------------------------------------- episodes
static void log_lines(const std::string& file)
{
  std::ifstream f(file);
  for (std::string l; std::getline(f, l);) {
    J j;
    j.str("t", "L");
    try {
      auto e = nlohmann::json::parse(l);
      static const nlohmann::json none = nlohmann::json::object();
      auto& sa = e.contains("string_args") && !e["string_args"].is_null() ? e["string_args"] : const_cast<nlohmann::json&>(none);
      auto& na = e.contains("numeric_args") && !e["numeric_args"].is_null() ? e["numeric_args"] : const_cast<nlohmann::json&>(none);
      auto& tg = e.contains("tags") && !e["tags"].is_null() ? e["tags"] : const_cast<nlohmann::json&>(none);
      J k;
      k.str("t", "L").i("ok", 1).str("n", q(e.at("name").get<std::string>())).str("c", plain(e.at("category"))).i("ts", e.at("timestamp").is_number() ? 1 : 0);
      members(k, "a", {&sa, &na});
      members(k, "g", {&tg});
      emit(k.done());
    } catch (std::exception&) {
      emit(j.i("ok", 0).str("n", "").done());
    }
  }
  emit("{\"t\":\"LE\"}");
}

static void series(const std::string& dir)
{
  // NAME STAT -> list of (op, value)
  std::map<long, std::map<std::string, std::map<std::string, std::string>>> by;
  for (auto& n : ls(dir)) {
    if (n.size() < 4 || n.substr(n.size() - 4) != ".ult")
      continue;
    std::ifstream f(dir + "/" + n);
    std::string nm, st;
    for (std::string l; std::getline(f, l);) {
      if (l[0] == '#') {
        auto at = l.find(' ', 2);
        nm = l.substr(2, at - 2);
        st = l.substr(at + 1);
      } else {
        std::istringstream in(l);
        long k;
        std::string v;
        in >> k >> v;
        by[k][nm][st] = v;
      }
    }
    unlink((dir + "/" + n).c_str());
  }
  for (auto& k : by) {
    J st;
    for (auto& a : k.second) {
      auto& m = a.second;
      std::string s = "[\"" + m["current_size"] + "\",\"" + m["actual_size"] + "\",\"" + m["hwm"] + "\"";
      if (m.count("total blocks"))
        s += ",\"" + m["total blocks"] + "\",\"" + m["releasable blocks"] + "\"";
      st.raw(a.first.c_str(), s + "]");
    }
    emit(J{}.str("t", "R").i("k", k.first).raw("st", st.done()).done());
  }
}

static void table(const std::string& out, int rc, const char* t, const std::vector<std::string>& names)
{
  std::ifstream f(out);
  J st;
  bool in_table = false;
  for (std::string l; std::getline(f, l);) {
    for (auto& n : names) // a long name is glued to the number behind it
      if (n.size() >= 40 && l.size() > 40 + n.size() && l.compare(40, n.size(), n) == 0 && isdigit(l[40 + n.size()])) {
        l.insert(40 + n.size(), " ");
        break;
      }
    std::istringstream in(l);
    std::string a, b, c, d, e, x;
    in >> a;
    if (a == "Filename") {
      in_table = true;
      continue;
    }
    if (in_table && a == "log.json" && (in >> b >> c >> d >> e) && !(in >> x))
      st.raw(b.c_str(), "[\"" + c + "\",\"" + d + "\",\"" + e + "\"]");
  }
  emit(J{}.str("t", t).i("rc", rc).raw("st", st.done()).done());
}

static void store_episode(const std::vector<std::string>& ep, const std::string& dir)
{
  // direct use of the store: what is inserted can be read back
  std::string file = dir + "/store.json";
  auto st = new event::json_file_store{file, false};
  std::string damage;
  for (std::size_t i = 2; i < ep.size(); ++i) {
    std::istringstream in(ep[i]);
    std::string c;
    in >> c;
    J j;
    j.str("t", "W").str("op", c);
    J a, g;
    if (c == "bad") { // a line that is none, at the end
      in >> damage;
      continue;
    }
    if (c == "ev") { // ev NAME CAT s:k=v n:k=v t:k=v
      std::string n, w;
      int cat;
      in >> n >> cat;
      event::event e, made;
      struct Keep {
        event::event* to;
        void record(const event::event& x)
        {
          *to = x;
        }
      };
      event::builder<> b;
      e.name = unesc(n);
      e.cat = static_cast<event::category>(cat);
      b.name(e.name).category(e.cat);
      while (in >> w) {
        auto q = w.find('=');
        std::string k = unesc(w.substr(2, q - 2)), v = unesc(w.substr(q + 1));
        if (w[0] == 's') {
          e.string_args[k] = v;
          b.arg(k, v);
        } else if (w[0] == 'n') {
          e.numeric_args[k] = std::stoull(v);
          b.arg(k, std::stoull(v));
        } else {
          e.tags[k] = v;
          b.tag(k, v);
        }
      }
      if (i % 2) { // the same event, made by the builder
        b.record(Keep{&made});
        made.timestamp = std::chrono::system_clock::time_point{std::chrono::nanoseconds{1000000007LL * static_cast<long>(i)}};
        st->insert(made);
      }
      for (auto& x : e.string_args)
        a.str(("s" + q(x.first)).c_str(), q(x.second));
      for (auto& x : e.numeric_args)
        a.str(("n" + q(x.first)).c_str(), std::to_string(x.second));
      for (auto& x : e.tags)
        g.str(q(x.first).c_str(), q(x.second));
      e.timestamp = std::chrono::system_clock::time_point{std::chrono::nanoseconds{1000000007LL * static_cast<long>(i)}};
      if (i % 2 == 0)
        st->insert(e);
      j.str("n", q(e.name)).i("c", cat).i("ts", static_cast<long>(i));
    } else {
      std::size_t n;
      std::string p, r, nm;
      in >> p >> r;
      auto pp = reinterpret_cast<void*>(std::stoull(p, nullptr, 16));
      auto rr = reinterpret_cast<void*>(std::stoull(r, nullptr, 16));
      auto ts = std::chrono::system_clock::time_point{std::chrono::nanoseconds{1000000007LL * static_cast<long>(i)}};
      a.str("sallocator_ref", hex(rr)).str("spointer", hex(pp));
      if (c == "al") {
        in >> n;
        event::allocate e;
        e.size = n, e.ref = rr, e.ptr = pp, e.timestamp = ts;
        a.str("nsize", dec(n));
        st->insert(e);
        j.str("n", "allocate");
      } else if (c == "nal") {
        in >> n >> nm;
        event::named_allocate e;
        e.size = n, e.ref = rr, e.ptr = pp, e.name = unesc(nm), e.timestamp = ts;
        a.str("nsize", dec(n)).str("sallocation_name", q(e.name));
        st->insert(e);
        j.str("n", "named_allocate");
      } else {
        event::deallocate e;
        e.ref = rr, e.ptr = pp, e.timestamp = ts;
        st->insert(e);
        j.str("n", "deallocate");
      }
      g.str("replay", "true");
      j.i("c", 0).i("ts", static_cast<long>(i));
    }
    emit(j.raw("a", a.done()).raw("g", g.done()).done());
  }
  fflush(nullptr);
  if (!damage.empty()) {
    std::ofstream f(file, std::ios::app);
    f << unesc(damage) << "\n";
    emit(J{}.str("t", "WD").done());
  }
  event::json_file_store rd{file, true};
  int x = 0;
  std::vector<event::event> es;
  try {
    es = rd.get_events();
  } catch (std::exception&) {
    x = 1;
  }
  for (auto& e : es) {
    J a, g;
    for (auto& v : e.string_args)
      a.str(("s" + q(v.first)).c_str(), q(v.second));
    for (auto& v : e.numeric_args)
      a.str(("n" + q(v.first)).c_str(), std::to_string(v.second));
    for (auto& v : e.tags)
      g.str(q(v.first).c_str(), q(v.second));
    auto ns = std::chrono::duration_cast<std::chrono::nanoseconds>(e.timestamp.time_since_epoch()).count();
    emit(J{}
             .str("t", "Q")
             .str("n", q(e.name))
             .i("c", static_cast<int>(e.cat))
             .i("ts", ns % 1000000007LL ? -1 : static_cast<long>(ns / 1000000007LL))
             .raw("a", a.done())
             .raw("g", g.done())
             .done());
  }
  emit(J{}.str("t", "QE").i("x", x).done());
}

// Writes a copy of a log.  Returns 1: it describes the same operations, 0: it does not, -1: no such edit is possible.
static int edit(const std::string& from, const std::string& to, const std::string& how, unsigned r)
{
  std::vector<nlohmann::json> ls;
  std::ifstream f(from);
  for (std::string l; std::getline(f, l);)
    ls.push_back(nlohmann::json::parse(l));
  auto nm = [&](std::size_t i) { return ls[i].at("name").get<std::string>(); };
  // what lies between the two lines of a reallocation is not an operation of its own
  std::vector<bool> own(ls.size(), true);
  bool in = false;
  for (std::size_t i = 0; i < ls.size(); ++i)
    if (nm(i) == "reallocate") {
      in = !ls[i]["string_args"].contains("new_ptr");
    } else
      own[i] = !in;
  std::vector<std::string> refs, names;
  for (auto& l : ls)
    if (l["name"] == "make_allocator" || l["name"] == "make_memory_resource") {
      refs.push_back(l["string_args"]["allocator_ref"]);
      names.push_back(l["tags"]["allocator_name"]);
    }
  auto pick = [&](auto ok) {
    std::vector<std::size_t> v;
    for (std::size_t i = 0; i < ls.size(); ++i)
      if (own[i] && ls[i]["category"] == "operation" && ok(i))
        v.push_back(i);
    return v.empty() ? -1L : static_cast<long>(v[r % v.size()]);
  };
  auto is = [&](const char* n) { return pick([&](std::size_t i) { return nm(i) == n; }); };
  auto bump = [&](nlohmann::json& v) { v = v.get<std::size_t>() + 1; };
  auto other = [&](const std::vector<std::string>& all, nlohmann::json& v) {
    for (std::size_t k = 0; k < all.size(); ++k) {
      auto& c = all[(r + k) % all.size()];
      if (v != c) {
        v = c;
        return true;
      }
    }
    return false;
  };
  int same = 0;
  long i;
  if (how == "same")
    same = 1;
  else if (how == "relabel") { // the same program at other addresses, at another time
    same = 1;
    for (auto& l : ls) {
      l["timestamp"] = l["timestamp"].get<long>() + 12345;
      for (auto it = l["string_args"].begin(); it != l["string_args"].end(); ++it) {
        auto v = it.value().get<std::string>();
        if (v.rfind("0x", 0) == 0 && it.key().rfind("arg", 0) != 0 && std::stoull(v, nullptr, 16)) {
          char b[32];
          snprintf(b, sizeof b, "0x%llx", std::stoull(v, nullptr, 16) + 0x1000000000ull);
          it.value() = b;
        }
      }
    }
  } else if (how == "meta") { // only what is no operation is missing
    same = 1;
    for (std::size_t k = ls.size(); k-- > 0;)
      if (ls[k]["category"] != "operation" && nm(k) != "version")
        ls.erase(ls.begin() + static_cast<long>(k));
  } else if (how == "drop") {
    if ((i = is("allocate")) < 0)
      return -1;
    ls.erase(ls.begin() + i);
  } else if (how == "size" || how == "alref") {
    if ((i = is("allocate")) < 0)
      return -1;
    if (how == "size")
      bump(ls[static_cast<std::size_t>(i)]["numeric_args"]["size"]);
    else if (!other(refs, ls[static_cast<std::size_t>(i)]["string_args"]["allocator_ref"]))
      return -1;
  } else if (how == "resize") {
    long ended = -1; // a reallocation that failed has no second line
    for (std::size_t k = 0; k < ls.size(); ++k)
      if (nm(k) == "reallocate" && ls[k]["string_args"].contains("new_ptr"))
        ended = static_cast<long>(k);
    if ((i = pick([&](std::size_t k) { return nm(k) == "reallocate" && !ls[k]["string_args"].contains("new_ptr") && static_cast<long>(k) < ended; })) < 0)
      return -1;
    bump(ls[static_cast<std::size_t>(i)]["numeric_args"]["size"]);
  } else if (how == "intro" || how == "base" || how == "name" || how == "arg") {
    if ((i = is("make_allocator")) < 0)
      return -1;
    auto& l = ls[static_cast<std::size_t>(i)];
    if (how == "intro")
      l["numeric_args"]["introspection"] = 1 - l["numeric_args"]["introspection"].get<int>();
    else if (how == "base") {
      if (!other(names, l["string_args"]["arg0"]))
        return -1;
    } else if (how == "name") {
      auto n = l["tags"]["allocator_name"].get<std::string>();
      n.back() = n.back() == 'z' ? 'y' : 'z';
      l["tags"]["allocator_name"] = n;
    } else {
      std::vector<std::string> as;
      for (auto it = l["numeric_args"].begin(); it != l["numeric_args"].end(); ++it)
        if (it.key().rfind("arg", 0) == 0)
          as.push_back(it.key());
      if (as.empty())
        return -1;
      bump(l["numeric_args"][as[r % as.size()]]);
    }
  } else if (how == "swap") { // two frees in the other order
    if ((i = pick([&](std::size_t k) { return k + 1 < ls.size() && nm(k) == "deallocate" && nm(k + 1) == "deallocate"; })) < 0)
      return -1;
    auto k = static_cast<std::size_t>(i);
    for (std::size_t x = k; x < k + 2; ++x) { // both must free something: the last to name the address before is an allocation
      bool lives = false;
      for (std::size_t y = 0; y < x; ++y) {
        auto& a = ls[y]["string_args"];
        auto& b = ls[x]["string_args"];
        if (!a.contains("allocator_ref") || a["allocator_ref"] != b["allocator_ref"])
          continue;
        if (a.contains("pointer") && a["pointer"] == b["pointer"])
          lives = nm(y) != "deallocate" && nm(y).find("allocate") != std::string::npos && own[y];
        else if ((a.contains("new_ptr") && a["new_ptr"] == b["pointer"]) || (a.contains("current_ptr") && a["current_ptr"] == b["pointer"]))
          lives = false;
      }
      if (!lives)
        return -1;
    }
    if (ls[k]["string_args"] == ls[k + 1]["string_args"])
      return -1;
    std::swap(ls[k], ls[k + 1]);
  } else if (how == "free") { // the last deallocation is of something else
    std::map<std::string, std::set<std::string>> live;
    long last = -1;
    for (std::size_t k = 0; k < ls.size(); ++k) {
      auto& a = ls[k]["string_args"];
      auto n = nm(k);
      if (n == "reallocate" || n == "move")
        live.clear(), last = -1;
      else if (!own[k] || !a.contains("pointer") || !a.contains("allocator_ref"))
        continue;
      else if (n == "allocate" || n == "named_allocate") {
        live[a["allocator_ref"]].insert(a["pointer"].get<std::string>());
        last = -1;
      } else {
        auto& v = live[a["allocator_ref"]];
        last = n == "deallocate" && v.erase(a["pointer"].get<std::string>()) && !v.empty() ? static_cast<long>(k) : -1;
      }
    }
    if (last < 0)
      return -1;
    auto& a = ls[static_cast<std::size_t>(last)]["string_args"];
    auto& v = live[a["allocator_ref"]];
    auto it = v.begin();
    std::advance(it, static_cast<long>(r % v.size()));
    a["pointer"] = *it;
  } else if (how == "ref") { // release or set_default_allocator of another allocator
    if ((i = pick([&](std::size_t k) { return nm(k) == "release" || nm(k) == "set_default_allocator"; })) < 0 ||
        !other(refs, ls[static_cast<std::size_t>(i)]["string_args"]["allocator_ref"]))
      return -1;
  } else if (how == "coal") {
    if ((i = is("coalesce")) < 0 || !other(names, ls[static_cast<std::size_t>(i)]["tags"]["allocator_name"]))
      return -1;
  } else if (how == "kind") { // one operation instead of another
    if ((i = is("release")) < 0)
      return -1;
    ls[static_cast<std::size_t>(i)]["name"] = "set_default_allocator";
  } else if (how == "tail") { // only the very last operation is missing
    while (!ls.empty() && ls.back()["category"] != "operation")
      ls.pop_back();
    if (ls.empty() || (ls.back()["name"] != "release" && ls.back()["name"] != "allocate" && ls.back()["name"] != "set_default_allocator"))
      return -1;
    ls.pop_back();
  } else
    _exit(98);
  std::ofstream o(to);
  for (auto& l : ls)
    o << l.dump() << "\n";
  return same;
}

static void episode(const std::vector<std::string>& ep)
{
  std::string dir = "ev." + std::to_string(getpid());
  if (mkdir(dir.c_str(), 0755))
    _exit(98);
  std::istringstream in(ep[1]);
  std::string mode, how;
  unsigned r = 0;
  in >> mode >> how >> r;
  if (mode == "store") {
    store_episode(ep, dir);
  } else {
    {
      std::ofstream f(dir + "/script");
      for (std::size_t i = 2; i < ep.size(); ++i)
        f << ep[i] << "\n";
    }
    emit(J{}.str("t", "B").str("mode", mode).done());
    char* cwd = getcwd(nullptr, 0);
    std::string full = std::string(cwd) + "/" + dir;
    std::string bin = self.substr(0, self.rfind('/') + 1);
    std::string pdir = full + "/out";
    mkdir(pdir.c_str(), 0755);
    int rc = spawn({self, "--prog", full + "/script", std::to_string(vf::log_fd())}, pdir, "", mode != "off",
                   mode == "events" ? "UMPIRE_EVENTS" : "UMPIRE_REPLAY");
    auto files = ls(pdir);
    emit(J{}.str("t", "PE").i("rc", rc).i("files", static_cast<long>(files.size())).done());
    if (rc == 0 && files.size() == 1 && mode != "off") {
      log_lines(pdir + "/" + files[0]);
      std::string log = full + "/log.json";
      rename((pdir + "/" + files[0]).c_str(), log.c_str());
      if (mode == "replay") {
        std::vector<std::string> names;
        for (auto& l : ep)
          if (l.rfind("mk ", 0) == 0)
            names.push_back(unesc(l.substr(3, l.find(' ', 3) - 3)));
        std::sort(names.begin(), names.end(), [](auto& x, auto& y) { return x.size() > y.size(); });
        int a;
        if (r % 3 == 0) { // an attempt that broke off before, at a line that was not yet written completely
          std::vector<std::string> ls;
          std::ifstream f(log);
          for (std::string l; std::getline(f, l);)
            ls.push_back(l);
          f.close();
          std::string keep = full + "/keep.json";
          rename(log.c_str(), keep.c_str());
          std::size_t k = r / 3 % ls.size();
          std::ofstream o(log);
          for (std::size_t i = 0; i < k; ++i)
            o << ls[i] << "\n";
          o << ls[k].substr(0, ls[k].size() / 2) << "\n";
          o.close();
          for (int i = 0; i < 2; ++i) {
            a = spawn({bin + "replay", "-i", "log.json", "-q"}, full, full + "/o0", false, "");
            emit(J{}.str("t", "RX").i("rc", a).done());
          }
          rename(keep.c_str(), log.c_str());
        }
        a = spawn({bin + "replay", "-i", "log.json", "-d", "-s"}, full, full + "/o1", false, "");
        series(full);
        table(full + "/o1", a, "RT", names);
        a = spawn({bin + "replay", "-i", "log.json", "-q", "-s"}, full, full + "/o2", false, ""); // from the compiled form
        table(full + "/o2", a, "RT", names);
        if (r % 5 == 0) {
          a = spawn({bin + "replay", "-i", "log.json", "-q", "-s", "-r"}, full, full + "/o2", false, "");
          table(full + "/o2", a, "RT", names);
          a = spawn({bin + "replay", "-i", "log.json", "-q", "-s"}, full, full + "/o2", false, "");
          table(full + "/o2", a, "RT", names);
        }
        if (r % 7 == 0) { // also right after the first replay of it, and without
          if (r % 2)
            unlink((log + ".bin").c_str());
          a = spawn({bin + "replaydiff", "-q", "log.json", "log.json"}, full, full + "/o3", false, "");
          emit(J{}.str("t", "RD").str("how", "self").i("same", 1).i("rc", a).done());
          a = spawn({bin + "replay", "-i", "log.json", "-q", "-s"}, full, full + "/o2", false, "");
          table(full + "/o2", a, "RT", names);
        }
        unlink((log + ".bin").c_str());
        std::string other = full + "/other.json";
        int same = edit(log, other, how, r / 2);
        if (same >= 0) {
          a = r % 2 ? spawn({bin + "replaydiff", "-q", "other.json", "log.json"}, full, full + "/o3", false, "")
                    : spawn({bin + "replaydiff", "-q", "log.json", "other.json"}, full, full + "/o3", false, "");
          emit(J{}.str("t", "RD").str("how", how).i("same", same).i("rc", a).done());
        }
      }
    }
    ::free(cwd);
  }
  std::string rm = "rm -rf '" + dir + "'";
  if (dir.substr(0, 3) == "ev." && system(rm.c_str()))
    _exit(98);
}

int main(int argc, char** argv)
{
  self = argv[0];
  if (argc == 4 && !strcmp(argv[1], "--prog")) {
    vf::log_fd() = atoi(argv[3]);
    alarm(20);
    return program(argv[2]);
  }
  return vf::run_episodes(argc, argv, episode);
}
