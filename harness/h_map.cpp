// Drives umpire::util::MemoryMap, AllocationMap, FixedMallocPool and
// relative_fragmentation through a script and logs every call with its result.
//
// Keys and addresses are logged as positions in the episode's table of
// addresses (line "T"), which is sorted: the specification sees the order of
// 64 bit addresses, not their values.
#include <malloc.h>

#include <algorithm>
#include <list>
#include <memory>
#include <utility>

#include "common.hpp"
#include "umpire/strategy/FixedSizePool.hpp"
#include "umpire/util/AllocationMap.hpp"
#include "umpire/util/AllocationRecord.hpp"
#include "umpire/util/FixedMallocPool.hpp"
#include "umpire/util/MemoryMap.hpp"
#include "umpire/util/allocation_statistics.hpp"

using namespace umpire::util;
using vf::emit;
using vf::J;

namespace {
std::vector<std::uintptr_t> table;   // sorted, 1-based positions

void* at(long k)
{
  return reinterpret_cast<void*>(table.at(static_cast<std::size_t>(k - 1)));
}
long pos(const void* p)
{
  if (!p)
    return 0;
  auto it = std::lower_bound(table.begin(), table.end(), reinterpret_cast<std::uintptr_t>(p));
  if (it == table.end() || *it != reinterpret_cast<std::uintptr_t>(p))
    return -1;
  return it - table.begin() + 1;
}

long live_values = 0;
long bad_values = 0;
template <int Pad>
struct Val {
  long v;
  const Val* self;
  char pad[Pad];
  Val(long x) : v{x}, self{this}
  {
    ++live_values;
    memset(pad, static_cast<int>(x & 0x7f), Pad);
  }
  Val(const Val& o) : v{o.v}, self{this}
  {
    ++live_values;
    memcpy(pad, o.pad, Pad);
  }
  long get() const
  {
    if (self != this)
      return -3;
    for (char c : pad)
      if (c != static_cast<char>(v & 0x7f))
        return -4;
    return v;
  }
  ~Val()
  {
    if (get() < 0)
      ++bad_values;
    self = nullptr;
    --live_values;
  }
};

// an ascending sequence as maximal runs: first, step, count, first, step, count, ...
std::vector<long> runs(const std::vector<long>& v)
{
  std::vector<long> r;
  for (std::size_t i = 0; i < v.size();) {
    std::size_t n = 1;
    const long step = i + 1 < v.size() ? v[i + 1] - v[i] : 1;
    while (i + n < v.size() && v[i + n] - v[i + n - 1] == step)
      ++n;
    r.insert(r.end(), {v[i], step, static_cast<long>(n)});
    i += n;
  }
  return r;
}

struct MapDriver {
  virtual ~MapDriver() = default;
  virtual void op(char c, std::istringstream& in) = 0;
};

long value_of(const int& v)
{
  return v;
}
template <int P>
long value_of(const Val<P>& v)
{
  return v.get();
}

template <typename V>
struct MM : MapDriver {
  using Map = MemoryMap<V>;
  std::unique_ptr<Map> m{new Map};
  std::map<int, typename Map::Iterator> cur;
  std::map<int, typename Map::ConstIterator> ccur;

  template <typename It>
  void res(J& j, It it)
  {
    j.i("rk", it->second ? pos(it->first) : 0);
    j.i("rv", it->second ? value_of(*it->second) : -1);
  }
  template <typename It, typename M>
  void ends(J& j, It it, M& map)
  {
    // asking for end() must not disturb anything; begin() is not called here
    j.i("e", it == map.end() ? 1 : 0);
  }
  template <typename It>
  void walk(It b, It e, std::vector<long>& ks, std::vector<long>& vs)
  {
    std::size_t guard = 0;
    for (It it = b; it != e && guard < table.size() + 5; ++it, ++guard) {
      ks.push_back(pos(it->first));
      vs.push_back(it->second ? value_of(*it->second) : -1);
    }
  }
  void op(char c, std::istringstream& in) override
  {
    long k = 0, v = 0;
    int var = 0;
    switch (c) {
      case 'I': {
        in >> k >> v >> var;
        auto r = [&]() -> std::pair<typename Map::Iterator, bool> {
          if (var == 0) {
            const V val(static_cast<decltype(value_of(*static_cast<V*>(nullptr)))>(v));
            return m->insert(at(k), val);
          }
          if (var == 1) {
            const V val(v);
            return m->insert(std::make_pair(at(k), val));
          }
          return m->insert(at(k), static_cast<int>(v));
        }();
        J j;
        j.str("t", "I").i("k", k).i("v", v).i("b", r.second).i("n", static_cast<long>(m->size()));
        res(j, r.first);
        emit(j.done());
        break;
      }
      case 'F':
      case 'B': {
        in >> k >> var;
        J j;
        j.str("t", std::string(1, c)).i("k", k);
        if (var) {
          const Map& cm = *m;
          auto it = c == 'F' ? cm.find(at(k)) : cm.findOrBefore(at(k));
          res(j, it);
          ends(j, it, cm);
        } else {
          auto it = c == 'F' ? m->find(at(k)) : m->findOrBefore(at(k));
          res(j, it);
          ends(j, it, *m);
        }
        emit(j.done());
        break;
      }
      case 'D': {
        in >> k >> var;
        int x = 0;
        try {
          if (var == 0)
            m->erase(at(k));
          else {
            auto it = m->find(at(k));
            if (it == m->end())
              m->erase(at(k));
            else
              m->erase(it);
          }
        } catch (...) {
          x = 1;
        }
        emit(J().str("t", "D").i("k", k).i("x", x).i("n", static_cast<long>(m->size())).done());
        break;
      }
      case 'L': {   // find, then removeLast
        in >> k >> var;
        auto it = var ? m->findOrBefore(at(k)) : m->find(at(k));
        J j;
        j.str("t", "L").i("k", k).i("w", var);
        res(j, it);
        if (it->second)
          m->removeLast();
        emit(j.i("n", static_cast<long>(m->size())).done());
        break;
      }
      case 'C':
        m->clear();
        emit(J().str("t", "C").i("n", static_cast<long>(m->size())).i("lv", live_values).done());
        break;
      case 'S':
        emit(J().str("t", "S").i("n", static_cast<long>(m->size())).i("lv", live_values).i("bad", bad_values).done());
        break;
      case 'T': {
        in >> var;
        std::vector<long> ks, vs;
        const Map& cm = *m;
        if (var == 0)
          walk(m->begin(), m->end(), ks, vs);
        else if (var == 1)
          walk(cm.begin(), cm.end(), ks, vs);
        else
          for (auto p : *m) {
            ks.push_back(pos(p.first));
            vs.push_back(p.second ? value_of(*p.second) : -1);
            if (ks.size() > table.size() + 5)
              break;
          }
        emit(J().str("t", "T").vec("ks", ks).vec("vs", vs).done());
        break;
      }
      case 'c': {   // cursor := begin
        int i;
        in >> i;
        cur.erase(i);
        cur.emplace(i, m->begin());
        J j;
        j.str("t", "c").i("i", i);
        res(j, cur.at(i));
        emit(j.i("e", cur.at(i) == m->end()).done());
        break;
      }
      case 'f': {   // cursor := find(k)
        int i;
        in >> i >> k;
        cur.erase(i);
        cur.emplace(i, m->find(at(k)));
        J j;
        j.str("t", "f").i("i", i).i("k", k);
        res(j, cur.at(i));
        emit(j.i("e", cur.at(i) == m->end()).done());
        break;
      }
      case 'a': {   // cursor := other cursor
        int i, o;
        in >> i >> o;
        if (cur.count(i))
          cur.at(i) = cur.at(o);
        else
          cur.emplace(i, cur.at(o));
        emit(J().str("t", "a").i("i", i).i("o", o).done());
        break;
      }
      case 'n': {   // ++cursor / cursor++
        int i;
        in >> i >> var;
        J j;
        j.str("t", "n").i("i", i);
        if (var) {
          auto old = cur.at(i)++;
          j.i("ok", pos(old->first));
        } else {
          ++cur.at(i);
          j.i("ok", -5);
        }
        bool e = cur.at(i) == m->end();
        j.i("rk", e ? 0 : pos(cur.at(i)->first)).i("rv", e ? -1 : value_of(*cur.at(i)->second)).i("e", e);
        emit(j.done());
        break;
      }
      case 'r': {   // insert the positions a, a + st, ... up to z, each with its position as value
        long a, z, st, fresh = 0, bad = 0;
        in >> a >> z >> st;
        for (long i = st > 0 ? a : z; st > 0 ? i <= z : i >= a; i += st) {
          auto r = m->insert(at(i), static_cast<int>(i));
          fresh += r.second;
          bad += r.first->first != at(i) || !r.first->second;
        }
        emit(J().str("t", "r").i("a", a).i("z", z).i("st", st).i("b", fresh).i("bad", bad).i("n", static_cast<long>(m->size())).done());
        break;
      }
      case 'x': {   // erase them
        long a, z, st, x = 0;
        in >> a >> z >> st;
        for (long i = st > 0 ? a : z; st > 0 ? i <= z : i >= a; i += st)
          try {
            m->erase(at(i));
          } catch (...) {
            ++x;
          }
        emit(J().str("t", "x").i("a", a).i("z", z).i("st", st).i("x", x).i("bad", 0).i("n", static_cast<long>(m->size())).done());
        break;
      }
      case 'w': {
        std::vector<long> ks, vs;
        walk(m->begin(), m->end(), ks, vs);
        emit(J().str("t", "w").vec("ks", runs(ks)).vec("vs", runs(vs)).done());
        break;
      }
      case 'X':
        cur.clear();
        m.reset();
        emit(J().str("t", "X0").i("lv", live_values).i("bad", bad_values).done());
        m.reset(new Map);
        break;
    }
  }
};

struct AM : MapDriver {
  std::unique_ptr<AllocationMap> m{new AllocationMap};
  std::map<long, const AllocationRecord*> held;   // id -> address of its record
  static long id_of(const AllocationRecord& r)
  {
    // the id travels in the name and in the strategy field
    if (r.name.empty())
      return -1;
    long id = atol(r.name.c_str() + 1);
    if (reinterpret_cast<std::uintptr_t>(r.strategy) != static_cast<std::uintptr_t>(id * 16))
      return -3;
    return id;
  }
  void rec(J& j, const AllocationRecord* r)
  {
    if (!r) {
      j.i("id", 0).i("rb", 0).i("re", 0).i("same", 1);
      return;
    }
    long id = id_of(*r);
    bool same = held.count(id) && held[id] == r;
    j.i("id", id).i("rb", pos(r->ptr)).i("re", pos(static_cast<char*>(r->ptr) + r->size)).i("same", same);
  }
  void op(char c, std::istringstream& in) override
  {
    long k = 0, e = 0, id = 0;
    int var = 0;
    switch (c) {
      case 'I': {
        in >> k >> e >> id;
        std::size_t size = reinterpret_cast<std::uintptr_t>(at(e)) - reinterpret_cast<std::uintptr_t>(at(k));
        m->insert(at(k), AllocationRecord{at(k), size, reinterpret_cast<umpire::strategy::AllocationStrategy*>(id * 16),
                                          "n" + std::to_string(id) + "-a name long enough not to fit inside the string object"});
        auto r = m->findRecord(at(k));
        held[id] = r;
        J j;
        j.str("t", "I").i("k", k).i("e", e);
        rec(j, r);
        j.i("new", id);
        emit(j.i("n", static_cast<long>(m->size())).done());
        break;
      }
      case 'F': {
        in >> k >> var;
        J j;
        j.str("t", "F").i("k", k);
        const AllocationRecord* r = nullptr;
        int x = 0;
        const AllocationMap& cm = *m;
        try {
          r = var == 0 ? m->find(at(k)) : var == 1 ? cm.find(at(k)) : var == 2 ? m->findRecord(at(k)) : cm.findRecord(at(k));
        } catch (umpire::unknown_pointer_error&) {
          x = 1;
        } catch (...) {
          x = 2;
        }
        if (var >= 2)
          x = r ? 0 : 1;
        rec(j, r);
        emit(j.i("x", x).i("has", m->contains(at(k))).done());
        break;
      }
      case 'D': {
        in >> k;
        int x = 0;
        AllocationRecord r;
        try {
          r = m->remove(at(k));
        } catch (...) {
          x = 1;
        }
        J j;
        j.str("t", "D").i("k", k).i("x", x);
        if (!x) {
          held.erase(id_of(r));
          j.i("id", id_of(r)).i("rb", pos(r.ptr)).i("re", pos(static_cast<char*>(r.ptr) + r.size));
        } else
          j.i("id", 0).i("rb", 0).i("re", 0);
        emit(j.i("n", static_cast<long>(m->size())).done());
        break;
      }
      case 'C':
        m->clear();
        held.clear();
        emit(J().str("t", "C").i("n", static_cast<long>(m->size())).done());
        break;
      case 'T': {
        std::vector<long> ids;
        in >> var;
        auto e2 = m->end();
        if (var) {
          for (auto it = m->begin(); it != e2 && ids.size() < 5000;) {
            auto old = it++;
            ids.push_back(id_of(*old));
          }
        } else
          for (auto it = m->begin(); it != e2 && ids.size() < 5000; ++it)
            ids.push_back(id_of(*it));
        emit(J().str("t", "T").vec("ids", ids).i("n", static_cast<long>(m->size())).done());
        break;
      }
      case 'P': {   // print the records with an even/odd id, or all
        in >> var;
        std::ostringstream os;
        if (var == 2)
          m->printAll(os);
        else
          m->print([&](const AllocationRecord& r) { return id_of(r) % 2 == var; }, os);
        std::vector<long> ids;
        std::string s = os.str();
        for (std::size_t p = s.find("name: n"); p != std::string::npos; p = s.find("name: n", p + 1))
          ids.push_back(atol(s.c_str() + p + 7));
        emit(J().str("t", "P").i("w", var).vec("ids", ids).done());
        break;
      }
      case 'H': {   // records do not move
        long bad = 0;
        for (auto& h : held)
          if (!h.second || id_of(*h.second) != h.first)
            ++bad;
        emit(J().str("t", "H").i("bad", bad).i("n", static_cast<long>(held.size())).done());
        break;
      }
      case 'r': {   // register [i, i + 1) for the positions a, a + st, ... up to z
        long a, z, st, fresh = 0, bad = 0;
        in >> a >> z >> st;
        for (long i = st > 0 ? a : z; st > 0 ? i <= z : i >= a; i += st) {
          id = 1000000 + i;
          fresh += !m->findRecord(at(i));
          std::size_t size = reinterpret_cast<std::uintptr_t>(at(i + 1)) - reinterpret_cast<std::uintptr_t>(at(i));
          m->insert(at(i), AllocationRecord{at(i), size, reinterpret_cast<umpire::strategy::AllocationStrategy*>(id * 16),
                                            "n" + std::to_string(id)});
          auto r = m->findRecord(at(i));
          bad += !r || id_of(*r) != id;
          held[id] = r;
        }
        emit(J().str("t", "r").i("a", a).i("z", z).i("st", st).i("b", fresh).i("bad", bad).i("n", static_cast<long>(m->size())).done());
        break;
      }
      case 'x': {   // remove them
        long a, z, st, x = 0, bad = 0;
        in >> a >> z >> st;
        for (long i = st > 0 ? a : z; st > 0 ? i <= z : i >= a; i += st)
          try {
            AllocationRecord r = m->remove(at(i));
            bad += r.ptr != at(i);
            held.erase(id_of(r));
          } catch (...) {
            ++x;
          }
        emit(J().str("t", "x").i("a", a).i("z", z).i("st", st).i("x", x).i("bad", bad).i("n", static_cast<long>(m->size())).done());
        break;
      }
      case 'w': {
        std::vector<long> ids, bs;
        auto e2 = m->end();
        for (auto it = m->begin(); it != e2 && ids.size() < table.size() + 5; ++it) {
          ids.push_back(id_of(*it));
          bs.push_back(pos(it->ptr));
        }
        emit(J().str("t", "w").vec("ks", runs(bs)).vec("vs", runs(ids)).i("n", static_cast<long>(m->size())).done());
        break;
      }
      case 'X':
        m.reset(new AllocationMap);
        held.clear();
        emit(J().str("t", "C").i("n", 0).done());
        break;
    }
  }
};

struct Slots {
  virtual ~Slots() = default;
  virtual char* get() = 0;
  virtual void put(char* p) = 0;
  virtual long pools() = 0;
  virtual long current() { return -1; } // bytes in live slots, where the pool reports it
};
struct MallocSlots : Slots {
  FixedMallocPool p;
  std::size_t ob;
  MallocSlots(std::size_t o, std::size_t per) : p{o, per}, ob{o} {}
  char* get() override { return static_cast<char*>(p.allocate(ob)); }
  void put(char* q) override { p.deallocate(q); }
  long pools() override { return static_cast<long>(p.numPools()); }
};
template <int N>
struct Obj {
  char c[N];
};
struct Heap {
  static void* allocate(std::size_t n) { return std::malloc(n); }
  static void deallocate(void* p) { std::free(p); }
};
template <int N, int NP>
struct TypedSlots : Slots { // the pool of block headers inside DynamicSizePool
  FixedSizePool<Obj<N>, Heap, Heap, NP> p;
  char* get() override { return reinterpret_cast<char*>(p.allocate()); }
  void put(char* q) override { p.deallocate(reinterpret_cast<Obj<N>*>(q)); }
  long pools() override { return static_cast<long>(p.numPools()); }
  long current() override { return static_cast<long>(p.getCurrentSize()); }
};
template <int N>
Slots* typed(std::size_t words)
{
  switch (words) {
    case 1: return new TypedSlots<N, 1>;
    case 2: return new TypedSlots<N, 2>;
    case 5: return new TypedSlots<N, 5>;
    default: return new TypedSlots<N, 64>;
  }
}

struct FP : MapDriver {
  std::unique_ptr<Slots> p;
  std::size_t ob;
  char* base;
  std::map<long, char*> live;
  FP(const std::string& kind, std::size_t o, std::size_t per) : ob{o}
  {
    mallopt(M_MMAP_THRESHOLD, 1 << 30);
    mallopt(M_TRIM_THRESHOLD, 1 << 30);
    base = static_cast<char*>(sbrk(0)) - (1 << 28);
    if (kind == "fp" || kind == "fpm")
      p.reset(new MallocSlots(o, per));
    else
      p.reset(o == 1 ? typed<1>(per / 32) : o == 3 ? typed<3>(per / 32) : o == 8 ? typed<8>(per / 32) : o == 24 ? typed<24>(per / 32) : typed<40>(per / 32));
  }
  char tag(long id, std::size_t i) const { return static_cast<char>(id * 7 + (id >> 6) + static_cast<long>(i)); }
  bool intact(long id)
  {
    char* c = live.at(id);
    for (std::size_t i = 0; i < ob; ++i)
      if (c[i] != tag(id, i))
        return false;
    return true;
  }
  bool all()
  {
    for (auto& l : live)
      if (!intact(l.first))
        return false;
    return true;
  }
  std::vector<long> places()
  {
    std::vector<long> v;
    for (auto& q : live)
      v.push_back(q.second - base);
    std::sort(v.begin(), v.end());
    return v;
  }
  long take(long id)
  {
    char* r = p->get();
    live[id] = r;
    for (std::size_t i = 0; i < ob; ++i)
      r[i] = tag(id, i);
    return (r - base > 0 && r - base < (1 << 30)) ? r - base : -2;
  }
  int give(long id)
  {
    char* r = live[id];
    live.erase(id);
    try {
      p->put(r);
    } catch (...) {
      return 1;
    }
    return 0;
  }
  void op(char c, std::istringstream& in) override
  {
    long id = 0;
    switch (c) {
      case 'A': {
        in >> id;
        long a = take(id);
        emit(J().str("t", "A").i("id", id).i("p", a).i("np", p->pools()).i("cs", p->current()).done());
        break;
      }
      case 'B': { // B first n: n allocations
        long n = 0;
        in >> id >> n;
        std::vector<long> a;
        for (long k = 0; k < n; ++k)
          a.push_back(take(id + k));
        emit(J().str("t", "B").i("id", id).vec("p", a).i("np", p->pools()).i("cs", p->current()).done());
        break;
      }
      case 'D': {
        in >> id;
        bool ok = intact(id);
        int x = give(id);
        emit(J().str("t", "D").i("id", id).i("c", ok && all()).i("x", x).i("np", p->pools()).i("cs", p->current()).done());
        break;
      }
      case 'Q': { // Q id...: deallocate all of these
        std::vector<long> ids;
        bool ok = true;
        int x = 0;
        while (in >> id) {
          ids.push_back(id);
          ok = ok && intact(id);
          x |= give(id);
        }
        emit(J().str("t", "DB").vec("ids", ids).i("c", ok && all()).i("x", x).i("np", p->pools()).i("cs", p->current()).done());
        break;
      }
      case 'M': { // M first n: so many allocations; the log has the addresses of all live slots
        long n = 0;
        in >> id >> n;
        for (long k = 0; k < n; ++k)
          take(id + k);
        emit(J().str("t", "M").i("n", n).vec("a", runs(places())).i("c", all()).i("x", 0).i("np", p->pools()).i("cs", p->current()).done());
        break;
      }
      case 'N': { // N lo hi mod rem down: deallocate the live ids in lo..hi that are rem modulo mod
        long lo, hi, mod, rem, down, n = 0;
        in >> lo >> hi >> mod >> rem >> down;
        std::vector<long> ids;
        for (auto& q : live)
          if (q.first >= lo && q.first <= hi && q.first % mod == rem)
            ids.push_back(q.first);
        if (down)
          std::reverse(ids.begin(), ids.end());
        int x = 0;
        for (auto q : ids) {
          x |= give(q);
          ++n;
        }
        emit(J().str("t", "N").i("n", n).vec("a", runs(places())).i("c", all()).i("x", x).i("np", p->pools()).i("cs", p->current()).done());
        break;
      }
      case 'W': { // a pointer no pool ever handed out
        int x = 0;
        static char other[64];
        try {
          p->put(other);
        } catch (...) {
          x = 1;
        }
        emit(J().str("t", "W").i("x", x).i("c", all()).done());
        break;
      }
      case 'S':
        emit(J().str("t", "S").i("c", all()).i("np", p->pools()).i("cs", p->current()).done());
        break;
      case 'X':
        p.reset();
        emit(J().str("t", "X0").done());
        break;
    }
  }
};

void frag(std::istringstream& in)
{
  // G n b1 e1 b2 e2 ... : records in address order, small numbers
  std::size_t n;
  in >> n;
  std::vector<AllocationRecord> r;
  std::vector<long> g;
  for (std::size_t i = 0; i < n; ++i) {
    long b, e;
    in >> b >> e;
    g.push_back(b);
    g.push_back(e);
    r.emplace_back(reinterpret_cast<void*>(static_cast<std::uintptr_t>(0x10000 + b)), static_cast<std::size_t>(e - b), nullptr);
  }
  float f = relative_fragmentation(r);
  emit(J().str("t", "G").vec("r", g).i("f", static_cast<long>(f * 100000.0f + 0.5f)).done());
}

void body(const std::vector<std::string>& ep)
{
  std::unique_ptr<MapDriver> d;
  for (std::size_t n = 1; n < ep.size(); ++n) {
    std::istringstream in(ep[n]);
    char c;
    in >> c;
    if (c == 'K') {   // K kind [args]
      std::string k;
      in >> k;
      std::vector<long> a(2, 0);
      in >> a[0] >> a[1];
      emit(J().str("t", "K").str("kind", k).vec("a", a).done());
      if (k == "int")
        d.reset(new MM<int>);
      else if (k == "val8")
        d.reset(new MM<Val<8>>);
      else if (k == "val1")
        d.reset(new MM<Val<1>>);
      else if (k == "val200")
        d.reset(new MM<Val<200>>);
      else if (k == "am")
        d.reset(new AM);
      else if (k == "fp" || k == "fpm" || k == "fs" || k == "fsm")
        d.reset(new FP(k, static_cast<std::size_t>(a[0]), static_cast<std::size_t>(a[1])));
    } else if (c == 'T' && !d) {   // table of addresses (hex)
      table.clear();
      std::string h;
      while (in >> h)
        if (h[0] == 'p') {   // p stride count start: an arithmetic progression
          std::uintptr_t stride, count, start;
          in >> std::hex >> stride >> std::dec >> count >> std::hex >> start;
          for (std::uintptr_t i = 0; i < count; ++i)
            table.push_back(start + i * stride);
        } else
          table.push_back(std::stoull(h, nullptr, 16));
      std::sort(table.begin(), table.end());
    } else if (c == 'G')
      frag(in);
    else
      d->op(c, in);
  }
  d.reset();
}
} // namespace

int main(int argc, char** argv)
{
  return vf::run_episodes(argc, argv, body);
}
