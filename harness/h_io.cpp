// Drives the resources that live outside the heap: FILE (one mapped file per
// allocation) and SHARED (a segment used by several processes at once).
#include <dirent.h>
#include <dlfcn.h>
#include <poll.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <ucontext.h>

#include <algorithm>
#include <bitset>
#include <deque>
#include <set>

#include "common.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/resource/MemoryResourceRegistry.hpp"
#include "umpire/util/MemoryResourceTraits.hpp"

using vf::emit;
using vf::J;
using vf::lim;

static std::size_t num(const std::string& s)
{
  if (s[0] == 'p')
    return (std::size_t(1) << std::stoul(s.substr(1))) + (s.find('+') != std::string::npos ? std::stoul(s.substr(s.find('+') + 1)) : 0);
  if (s[0] == 'm')
    return ~std::size_t(0) - std::stoul(s.substr(4));
  return std::stoull(s);
}

static int code(const std::function<void()>& f)
{
  try {
    f();
    return 0;
  } catch (umpire::out_of_memory_error&) {
    return 2;
  } catch (std::exception&) {
    return 1;
  }
}

static unsigned char pat(long seed, std::size_t i)
{
  std::uint32_t x = static_cast<std::uint32_t>(seed) * 2654435761u + static_cast<std::uint32_t>(i) * 40503u;
  return static_cast<unsigned char>((x >> 13) ^ x);
}

static std::vector<std::string> ls(const std::string& d)
{
  std::vector<std::string> r;
  if (DIR* h = opendir(d.c_str())) {
    while (dirent* e = readdir(h))
      if (e->d_name[0] != '.')
        r.push_back(e->d_name);
    closedir(h);
  }
  std::sort(r.begin(), r.end());
  return r;
}

// ---------------------------------------------------------------- FILE
namespace file_part {

static std::string root;
struct Blk {
  char* p;
  std::size_t n;
  long seed;
  std::string file;
  bool live;
};
static std::map<int, Blk> blk;

static std::string dirn(int k)
{
  return root + "/d" + std::to_string(k);
}

static std::string tok(const std::vector<std::string>& v)
{
  std::string s = "[";
  for (auto& x : v)
    s += (s.size() > 1 ? "," : "") + ("\"" + x + "\"");
  return s + "]";
}

static void world(J& j)
{
  // files in every directory, with their sizes; files mapped; descriptors open
  std::vector<std::string> names;
  std::vector<long> sizes;
  for (int k = 0; k < 3; ++k)
    for (auto& f : ls(dirn(k))) {
      struct stat st;
      if (::stat((dirn(k) + "/" + f).c_str(), &st) == 0) {
        names.push_back("d" + std::to_string(k) + "/" + f);
        sizes.push_back(lim(static_cast<std::size_t>(st.st_size)));
      }
    }
  j.raw("fn", tok(names)).vec("fs", sizes);
  std::set<std::string> mapped;
  if (FILE* f = fopen("/proc/self/maps", "r")) {
    char* line = nullptr;
    std::size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
      std::string l{line};
      auto at = l.find(root + "/");
      if (at != std::string::npos) {
        l = l.substr(at + root.size() + 1);
        while (!l.empty() && (l.back() == '\n' || l.back() == ' '))
          l.pop_back();
        auto del = l.find(" (deleted)");
        if (del != std::string::npos)
          l = l.substr(0, del) + "!";
        mapped.insert(l);
      }
    }
    free(line);
    fclose(f);
  }
  j.raw("mp", tok(std::vector<std::string>(mapped.begin(), mapped.end())));
  j.i("fd", static_cast<long>(ls("/proc/self/fd").size()));
}

static std::vector<std::string> all_files()
{
  std::vector<std::string> r;
  for (int k = 0; k < 3; ++k)
    for (auto& f : ls(dirn(k)))
      r.push_back("d" + std::to_string(k) + "/" + f);
  return r;
}

static void setlim(int what, std::size_t v)
{
  struct rlimit r;
  getrlimit(what, &r);
  r.rlim_cur = v == 0 ? r.rlim_max : v;
  setrlimit(what, &r);
}

static void stats(J& j, umpire::Allocator& a)
{
  j.i("cu", lim(a.getCurrentSize())).i("hw", lim(a.getHighWatermark())).i("ct", lim(a.getAllocationCount()));
}

static void script(const std::vector<std::string>& ep)
{
  signal(SIGXFSZ, SIG_IGN);
  auto& rm = umpire::ResourceManager::getInstance();
  setenv("UMPIRE_MEMORY_FILE_DIR", (dirn(0) + "/").c_str(), 1);
  auto a = rm.getAllocator("FILE");
  {
    J j;
    j.str("t", "F0").i("pg", sysconf(_SC_PAGE_SIZE));
    world(j);
    stats(j, a);
    emit(j.done());
  }
  for (std::size_t li = 1; li < ep.size(); ++li) {
    std::istringstream is{ep[li]};
    std::string op;
    is >> op;
    if (op == "file")
      continue;
    J j;
    j.str("t", "f" + op);
    if (op == "dir") {
      int k;
      is >> k;
      if (k < 0)
        setenv("UMPIRE_MEMORY_FILE_DIR", (root + "/nowhere/").c_str(), 1);
      else
        setenv("UMPIRE_MEMORY_FILE_DIR", (dirn(k) + "/").c_str(), 1);
      j.str("d", k < 0 ? "" : "d" + std::to_string(k));
    } else if (op == "al") {
      // fal h n fault   fault: 0 none, 1 file size limit, 2 address space limit
      int h, fault;
      std::string n;
      is >> h >> n >> fault;
      auto before = all_files();
      void* p = nullptr;
      std::size_t vm = 0;
      if (fault == 2) {
        if (FILE* f = fopen("/proc/self/statm", "r")) {
          if (fscanf(f, "%zu", &vm) != 1)
            _exit(98);
          fclose(f);
        }
        setlim(RLIMIT_AS, vm * static_cast<std::size_t>(sysconf(_SC_PAGE_SIZE)) + 65536);
      }
      if (fault == 1)
        setlim(RLIMIT_FSIZE, 16 * 1024);
      int x = code([&] { p = a.allocate(num(n)); });
      if (fault == 1)
        setlim(RLIMIT_FSIZE, 0);
      if (fault == 2)
        setlim(RLIMIT_AS, 0);
      std::string file;
      for (auto& f : all_files())
        if (std::find(before.begin(), before.end(), f) == before.end())
          file = f;
      if (!x)
        blk[h] = Blk{static_cast<char*>(p), num(n), 0, file, true};
      std::size_t sz = 0;
      int xs = x ? 1 : code([&] { sz = rm.getSize(p); });
      j.i("h", h).i("n", lim(num(n))).i("fault", fault).i("x", x).i("nul", p == nullptr).str("file", file);
      j.i("sz", xs ? -1 : lim(sz)).i("al", static_cast<long>(reinterpret_cast<std::uintptr_t>(p) % 4096));
      // address overlap with any other live block, checked here as a relation over handles
      std::vector<long> ov;
      if (!x)
        for (auto& b : blk)
          if (b.first != h && b.second.live && b.second.n && num(n) && b.second.p < static_cast<char*>(p) + num(n) &&
              static_cast<char*>(p) < b.second.p + b.second.n)
            ov.push_back(b.first);
      j.vec("ov", ov);
      world(j);
      stats(j, a);
    } else if (op == "fr") {
      int h;
      is >> h;
      if (!blk.count(h) || !blk[h].live)
        continue;
      int x = code([&] { a.deallocate(blk[h].p); });
      if (!x)
        blk[h].live = false;
      j.i("h", h).i("x", x);
      world(j);
      stats(j, a);
    } else if (op == "rf") { // refused: not an allocation of this allocator
      int h;
      is >> h;
      if (!blk.count(h) || !blk[h].live || blk[h].n < 2)
        continue;
      int x = code([&] { a.deallocate(blk[h].p + 1); });
      j.i("h", h).i("x", x);
      world(j);
      stats(j, a);
    } else if (op == "w") {
      int h;
      long seed;
      is >> h >> seed;
      if (!blk.count(h) || !blk[h].live)
        continue;
      auto& b = blk[h];
      for (std::size_t i = 0; i < b.n; ++i)
        b.p[i] = static_cast<char>(pat(seed, i));
      b.seed = seed;
      j.i("h", h).i("s", seed);
    } else if (op == "v") {
      // what memory and file hold: the seed whose pattern they follow, -1 for none
      int h;
      is >> h;
      if (!blk.count(h) || !blk[h].live)
        continue;
      auto& b = blk[h];
      auto same = [&](const char* q, std::size_t n) {
        for (std::size_t i = 0; i < n; ++i)
          if (static_cast<unsigned char>(q[i]) != (b.seed ? pat(b.seed, i) : 0))
            return -1L;
        return b.seed;
      };
      j.i("h", h).i("m", same(b.p, b.n));
      long fs = -1;
      if (!b.file.empty()) {
        int fd = ::open((root + "/" + b.file).c_str(), O_RDONLY);
        if (fd >= 0) {
          std::vector<char> buf(b.n);
          if (::pread(fd, buf.data(), b.n, 0) == static_cast<ssize_t>(b.n))
            fs = same(buf.data(), b.n);
          ::close(fd);
        }
      }
      j.i("f", fs);
    } else
      continue;
    emit(j.done());
  }
}

static void wipe()
{
  for (int k = 0; k < 3; ++k) {
    for (auto& f : ls(dirn(k)))
      ::unlink((dirn(k) + "/" + f).c_str());
    ::rmdir(dirn(k).c_str());
  }
  for (auto& f : ls(root))
    ::unlink((root + "/" + f).c_str());
  ::rmdir(root.c_str());
}

static void run(const std::vector<std::string>& ep)
{
  char cwd[4096];
  if (!getcwd(cwd, sizeof cwd))
    _exit(98);
  root = std::string(cwd) + "/filemem." + std::to_string(getpid());
  mkdir(root.c_str(), 0700);
  for (int k = 0; k < 3; ++k)
    mkdir(dirn(k).c_str(), 0700);
  pid_t pid = fork();
  if (pid == 0) {
    alarm(10);
    script(ep);
    exit(0); // live allocations are left to the end of the program
  }
  int st = 0;
  waitpid(pid, &st, 0);
  J j;
  j.str("t", "fend").i("st", WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st)).raw("fn", tok(all_files())).raw("rt", tok(ls(root)));
  emit(j.done());
  wipe();
  if (!WIFSIGNALED(st) && (WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 99))
    _exit(98);
}
} // namespace file_part

// ---------------------------------------------------------------- SHARED
namespace shm_part {

static std::string seg;
static const int NW = 4;
struct Wk {
  pid_t pid{-1};
  int to{-1}, from{-1}, go{-1};
};
static Wk wk[NW];

static char* base_of(std::size_t& len)
{
  char* r = nullptr;
  len = 0;
  if (FILE* f = fopen("/proc/self/maps", "r")) {
    char* line = nullptr;
    std::size_t cap = 0;
    while (getline(&line, &cap, f) > 0)
      if (strstr(line, seg.c_str())) {
        unsigned long b, e;
        if (sscanf(line, "%lx-%lx", &b, &e) == 2) {
          r = reinterpret_cast<char*>(b);
          len = e - b;
        }
      }
    free(line);
    fclose(f);
  }
  return r;
}

struct Mine {
  char* p;
  std::size_t n;
};

// ---- parking: a worker stops at its k-th touch of the shared state.  Every
// access to the mapped segment (made visible by taking its access rights away)
// and every call that makes, sizes or removes the segment is such a touch.
static long points = 0, park_at = 0;
static bool armed = false;
static char* guard_p = nullptr;
static std::size_t guard_n = 0;
static int go_fd = -1, say_fd = -1;

static void guard(int prot)
{
  if (guard_p)
    ::mprotect(guard_p, guard_n, prot);
}

// returns true when the worker was parked here (it is not armed any more then)
static bool point()
{
  if (!armed || ++points != park_at)
    return false;
  armed = false;
  guard(PROT_READ | PROT_WRITE);
  char c;
  if (::write(say_fd, "P\n", 2) != 2 || ::read(go_fd, &c, 1) != 1)
    _exit(98);
  return true;
}

static void on_segv(int, siginfo_t* si, void* uc)
{
  auto* a = static_cast<char*>(si->si_addr);
  if (!armed || !guard_p || a < guard_p || a >= guard_p + guard_n) {
    signal(SIGSEGV, SIG_DFL);
    return;
  }
  if (point())
    return;
  guard(PROT_READ | PROT_WRITE);
  static_cast<ucontext_t*>(uc)->uc_mcontext.gregs[REG_EFL] |= 0x100; // one instruction, then on_trap
}

static void on_trap(int, siginfo_t*, void* uc)
{
  static_cast<ucontext_t*>(uc)->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
  if (armed)
    guard(PROT_NONE);
}

static void arm(long k)
{
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_flags = SA_SIGINFO;
  sa.sa_sigaction = on_segv;
  sigaction(SIGSEGV, &sa, nullptr);
  sa.sa_sigaction = on_trap;
  sigaction(SIGTRAP, &sa, nullptr);
  points = 0;
  park_at = k;
  armed = true;
  guard(PROT_NONE);
}

static void disarm()
{
  armed = false;
  guard(PROT_READ | PROT_WRITE);
}

// a worker: reads one command per line, answers with one line of JSON fields
[[noreturn]] static void worker(int in, int out, int go)
{
  go_fd = go;
  say_fd = out;
  FILE* f = fdopen(in, "r");
  std::map<int, Mine> mine;
  char* base = nullptr;
  std::size_t len = 0;
  umpire::Allocator* a = nullptr;
  char* line = nullptr;
  std::size_t cap = 0;
  auto off = [&](void* p) -> long {
    if (!p)
      return -1;
    auto* q = static_cast<char*>(p);
    return (q >= base && q < base + len) ? static_cast<long>(q - base) : -3;
  };
  auto stats = [&](J& j) {
    if (a)
      j.i("cu", lim(a->getCurrentSize())).i("hw", lim(a->getHighWatermark())).i("ct", lim(a->getAllocationCount()));
    else
      j.i("cu", 0).i("hw", 0).i("ct", 0);
  };
  while (getline(&line, &cap, f) > 0) {
    std::istringstream is{line};
    std::string op;
    is >> op;
    J j;
    if (op == "quit")
      exit(0);
    if (op == "park") {
      long k;
      is >> k >> op;
      if (base) {
        guard_p = base;
        guard_n = len;
      }
      arm(k);
    }
    auto& rm = umpire::ResourceManager::getInstance();
    if (op == "open") {
      std::string size;
      is >> size;
      int x = code([&] {
        auto t = umpire::get_default_resource_traits("SHARED");
        t.size = num(size);
        t.scope = umpire::MemoryResourceTraits::shared_scope::node;
        a = new umpire::Allocator(rm.makeResource(seg, t));
      });
      disarm();
      base = base_of(len);
      j.i("x", x).i("len", static_cast<long>(len)).i("fd", static_cast<long>(ls("/proc/self/fd").size()));
      stats(j);
    } else if (op == "al") {
      int h;
      std::string nm, n;
      is >> h >> nm >> n;
      void* p = nullptr;
      int x = code([&] { p = a->allocate(nm, num(n)); });
      if (!x)
        mine[h] = Mine{static_cast<char*>(p), num(n)};
      std::size_t sz = 0;
      int xs = x ? 1 : code([&] { sz = rm.getSize(p); });
      j.i("x", x).i("o", off(p)).i("sz", xs ? -1 : lim(sz));
      stats(j);
    } else if (op == "ala") { // without a name: not supported
      std::string n;
      is >> n;
      void* p = nullptr;
      int x = code([&] { p = a->allocate(num(n)); });
      j.i("x", x);
      stats(j);
    } else if (op == "fr") {
      int h;
      is >> h;
      int x = 3;
      if (mine.count(h)) {
        x = code([&] { a->deallocate(mine[h].p); });
        if (!x)
          mine.erase(h);
      }
      j.i("x", x);
      stats(j);
    } else if (op == "fnd") {
      std::string nm;
      is >> nm;
      void* p = nullptr;
      int x = code([&] { p = umpire::find_pointer_from_name(*a, nm); });
      j.i("x", x).i("o", x ? -2 : off(p));
    } else if (op == "w") {
      int h, c;
      is >> h >> c;
      if (mine.count(h))
        memset(mine[h].p, c, mine[h].n);
      j.i("x", mine.count(h) ? 0 : 3).i("n", mine.count(h) ? static_cast<long>(mine[h].n) : 0);
    } else if (op == "v") {
      // the byte the whole range [0, n) of the handle holds; -1: not uniform
      int h;
      is >> h;
      std::vector<long> runs;
      if (mine.count(h)) {
        auto& m = mine[h];
        std::size_t i = 0;
        while (i < m.n && runs.size() < 16) { // run-length: byte, length
          std::size_t k = i;
          while (k < m.n && m.p[k] == m.p[i])
            ++k;
          runs.push_back(static_cast<unsigned char>(m.p[i]));
          runs.push_back(static_cast<long>(k - i));
          i = k;
        }
      }
      j.i("x", mine.count(h) ? 0 : 3).vec("r", runs);
    } else if (op == "as") {
      j.i("as", lim(a->getActualSize()));
    }
    disarm();
    std::string s = j.done() + "\n";
    if (::write(out, s.data(), s.size()) != static_cast<ssize_t>(s.size()))
      _exit(98);
  }
  exit(0);
}

static bool tell(int w, const std::string& cmd)
{
  std::string c = cmd + "\n";
  return ::write(wk[w].to, c.data(), c.size()) == static_cast<ssize_t>(c.size());
}

// one line from a worker: 1 got it, 0 nothing within ms, -1 it is dead
static int hear(int w, std::string& ans, int ms)
{
  ans.clear();
  struct pollfd pf;
  pf.fd = wk[w].from;
  pf.events = POLLIN;
  int r = ::poll(&pf, 1, ms);
  if (r == 0)
    return 0;
  char ch;
  while (true) {
    ssize_t n = ::read(wk[w].from, &ch, 1);
    if (n <= 0)
      return -1;
    if (ch == '\n')
      return 1;
    ans += ch;
  }
}

static void start(int w)
{
  int a[2], b[2], g[2];
  if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC) || pipe2(g, O_CLOEXEC))
    _exit(98);
  pid_t p = fork();
  if (p == 0) {
    alarm(8);
    for (auto& k : wk)
      if (k.to >= 0) {
        ::close(k.to);
        ::close(k.from);
        ::close(k.go);
      }
    ::close(a[1]);
    ::close(b[0]);
    ::close(g[1]);
    worker(a[0], b[1], g[0]);
  }
  ::close(a[0]);
  ::close(b[1]);
  ::close(g[0]);
  wk[w].go = g[1];
  wk[w].pid = p;
  wk[w].to = a[1];
  wk[w].from = b[0];
}

static int stop(int w, bool kill_it)
{
  if (wk[w].pid < 0)
    return 0;
  if (kill_it)
    ::kill(wk[w].pid, SIGKILL);
  ::close(wk[w].to);
  int st = 0;
  waitpid(wk[w].pid, &st, 0);
  ::close(wk[w].from);
  ::close(wk[w].go);
  wk[w] = Wk{};
  return WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st);
}

static bool left()
{
  struct stat st;
  return ::stat(("/dev/shm/" + seg).c_str(), &st) == 0;
}

// the fields of the event that say what was asked
static std::string asked(const std::string& op, int w, const std::string& rest)
{
  J j;
  j.str("t", "s" + op).i("w", w);
  std::istringstream r{rest};
  std::string x, y, z;
  r >> x >> y >> z;
  if (op == "open")
    j.i("n", lim(num(x)));
  else if (op == "al")
    j.i("h", std::stol(x)).str("nm", y).i("len", static_cast<long>(y.size())).i("n", lim(num(z)));
  else if (op == "fr" || op == "v")
    j.i("h", std::stol(x));
  else if (op == "w")
    j.i("h", std::stol(x)).i("c", std::stol(y));
  else if (op == "fnd")
    j.str("nm", x);
  return j.s;
}

// While a worker is parked the calls of the others overlap its call: they are
// logged as call and return, in the order in which they were seen.
struct Line {
  bool call;
  int w;
  std::string ev;
};
static std::vector<Line> group;
static std::size_t called[NW];
static bool busy[NW];
static int parked = -1;

static bool answer(int w, int ms) // false: dead
{
  std::string ans;
  int r = hear(w, ans, ms);
  if (r == 0)
    return true;
  if (r < 0)
    return false;
  group[called[w]].ev += ",\"a\":" + ans + ",\"left\":" + (left() ? "1" : "0") + "}";
  busy[w] = false;
  group.push_back(Line{false, w, ""});
  return true;
}

static void flush()
{
  for (auto& l : group) {
    J j;
    j.str("t", l.call ? "sci" : "scr").i("w", l.w);
    if (l.call) {
      if (busy[l.w] && &l == &group[called[l.w]])
        l.ev += ",\"a\":{\"x\":-1},\"left\":0}";
      j.raw("e", l.ev);
    }
    emit(j.done());
  }
  group.clear();
}

static bool go_on() // the parked worker and all that waited for it come to their end
{
  bool ok = true;
  if (parked >= 0) {
    ok = ::write(wk[parked].go, "g", 1) == 1;
    parked = -1;
  }
  for (int round = 0; ok && round < 4000; ++round) {
    bool any = false;
    for (int w = 0; w < NW && ok; ++w)
      if (busy[w]) {
        any = true;
        ok = answer(w, 1);
      }
    if (!any)
      break;
  }
  for (int w = 0; w < NW; ++w)
    ok = ok && !busy[w];
  flush();
  for (int w = 0; w < NW; ++w)
    busy[w] = false;
  return ok;
}

static void run(const std::vector<std::string>& ep)
{
  signal(SIGPIPE, SIG_IGN);
  seg = "SHARED::vf_" + std::to_string(getpid()) + "_" + std::to_string(static_cast<long>(time(nullptr)) % 100000);
  bool dead = false;
  std::deque<std::string> todo{ep.begin() + 1, ep.end()};
  std::bitset<NW> behind;
  std::vector<std::string> later; // what workers that wait were to do next
  while (!todo.empty() && !dead) {
    const std::string now = todo.front();
    todo.pop_front();
    std::istringstream is{now};
    std::string op, rest;
    int w;
    is >> op;
    if (op == "shm")
      continue;
    if (op == "go") {
      dead = !go_on();
      todo.insert(todo.begin(), later.begin(), later.end());
      later.clear();
      behind.reset();
      continue;
    }
    long k = 0;
    if (op == "park") {
      is >> k >> op;
      if (parked >= 0)
        dead = !go_on();
      if (dead)
        break;
    }
    is >> w;
    std::getline(is, rest);
    if (op == "kil" || op == "cls") {
      if (parked >= 0)
        dead = !go_on();
      if (wk[w].pid < 0 || dead)
        continue;
      int st = stop(w, op == "kil");
      J j;
      j.str("t", "s" + op).i("w", w).i("st", st).i("left", left());
      emit(j.done());
      continue;
    }
    if (op == "open" && wk[w].pid < 0)
      start(w);
    if (wk[w].pid < 0)
      continue;
    if (busy[w] || behind[w]) {
      behind[w] = true;
      later.push_back(now);
      continue;
    }
    std::string ev = asked(op, w, rest), ans;
    if (parked >= 0) { // overlaps the parked call
      if (!tell(w, op + rest))
        dead = true;
      busy[w] = true;
      called[w] = group.size();
      group.push_back(Line{true, w, ev});
      dead = dead || !answer(w, 12);
      for (int v = 0; v < NW && !dead; ++v)
        if (busy[v] && v != w && v != parked)
          dead = !answer(v, 0);
      continue;
    }
    int r = tell(w, (k ? "park " + std::to_string(k) + " " : "") + op + rest) ? hear(w, ans, 6000) : -1;
    if (r == 1 && k && ans == "P") {
      parked = w;
      busy[w] = true;
      called[w] = group.size();
      group.push_back(Line{true, w, ev});
      continue;
    }
    if (r != 1) {
      emit(ev + ",\"a\":{\"x\":-1},\"left\":0}"); // the worker died or hung
      dead = true;
      break;
    }
    emit(ev + ",\"a\":" + ans + ",\"left\":" + (left() ? "1" : "0") + "}");
  }
  if (parked >= 0 || !group.empty())
    dead = !go_on() || dead;
  if (dead)
    emit("{\"t\":\"sdead\"}");
  bool clean = !dead;
  for (int w = 0; w < NW; ++w)
    if (wk[w].pid >= 0) {
      int st = stop(w, dead);
      J j;
      j.str("t", "scls").i("w", w).i("st", st).i("left", left());
      if (clean)
        emit(j.done());
    }
  {
    J j;
    j.str("t", "send").i("left", left());
    emit(j.done());
  }
  ::unlink(("/dev/shm/" + seg).c_str());
}
} // namespace shm_part

// the calls that make, size, map and remove a segment are points where a worker can park
extern "C" {
int shm_open(const char* name, int flags, mode_t mode)
{
  static auto real = reinterpret_cast<int (*)(const char*, int, mode_t)>(dlsym(RTLD_NEXT, "shm_open"));
  shm_part::point();
  int r = real(name, flags, mode);
  int e = errno;
  shm_part::point();
  errno = e;
  return r;
}
int shm_unlink(const char* name)
{
  static auto real = reinterpret_cast<int (*)(const char*)>(dlsym(RTLD_NEXT, "shm_unlink"));
  shm_part::point();
  return real(name);
}
int ftruncate(int fd, off_t n)
{
  static auto real = reinterpret_cast<int (*)(int, off_t)>(dlsym(RTLD_NEXT, "ftruncate"));
  shm_part::point();
  int r = real(fd, n);
  int e = errno;
  shm_part::point();
  errno = e;
  return r;
}
void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t o)
{
  long r = syscall(SYS_mmap, a, n, prot, flags, fd, o);
  if (r != -1 && fd >= 0 && (flags & MAP_SHARED) && shm_part::armed) {
    shm_part::guard_p = reinterpret_cast<char*>(r);
    shm_part::guard_n = n;
    shm_part::guard(PROT_NONE);
  }
  return reinterpret_cast<void*>(r);
}
}

int main(int argc, char** argv)
{
  return vf::run_episodes(argc, argv, [](const std::vector<std::string>& ep) {
    if (ep.size() > 1 && ep[1].rfind("file", 0) == 0)
      file_part::run(ep);
    else
      shm_part::run(ep);
  });
}
