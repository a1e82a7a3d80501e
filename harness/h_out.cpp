// What the library says: the output buffer behind its streams, the log file
// and its levels, the errors it raises and the report it leaves at exit.
#include <dirent.h>
#include <sys/stat.h>

#include <algorithm>
#include <fstream>
#include <memory>

#include "common.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/Logger.hpp"
#include "umpire/util/MPI.hpp"
#include "umpire/util/OutputBuffer.hpp"
#include "umpire/util/error.hpp"
#include "umpire/util/io.hpp"

using namespace umpire;
using vf::emit;
using vf::J;

static std::string q(const std::string& s)
{
  std::string r;
  for (unsigned char c : s)
    if (isalnum(c) || strchr("_.:/-", c) && c)
      r += static_cast<char>(c);
    else {
      char b[8];
      snprintf(b, sizeof b, "%%%02x", c);
      r += b;
    }
  return r;
}

static std::string uq(const std::string& s)
{
  std::string r;
  for (std::size_t i = 0; i < s.size(); ++i)
    if (s[i] == '%' && i + 2 < s.size()) {
      r += static_cast<char>(strtol(s.substr(i + 1, 2).c_str(), nullptr, 16));
      i += 2;
    } else
      r += s[i];
  return r;
}

static std::vector<std::string> words(const std::string& l)
{
  std::istringstream is(l);
  std::vector<std::string> w;
  std::string x;
  while (is >> x)
    w.push_back(x);
  return w;
}

static std::string slurp(const std::string& p)
{
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}

static std::string list(const std::vector<std::string>& v)
{
  std::string s = "[";
  for (std::size_t i = 0; i < v.size(); ++i)
    s += (i ? ",\"" : "\"") + v[i] + "\"";
  return s + "]";
}

static std::vector<std::string> ls(const std::string& d)
{
  std::vector<std::string> r;
  if (DIR* h = opendir(d.c_str())) {
    while (auto* e = readdir(h))
      if (e->d_name[0] != '.')
        r.push_back(e->d_name);
    closedir(h);
  }
  std::sort(r.begin(), r.end());
  return r;
}

static std::vector<std::string> lines(const std::string& s)
{
  std::vector<std::string> r;
  std::istringstream is(s);
  std::string x;
  while (std::getline(is, x))
    if (!x.empty())
      r.push_back(x);
  return r;
}

// --------------------------------------------------------------------------
struct Sink : std::streambuf {
  std::vector<long> got;
  long cap{-1}, syncs{0};
  int syncrc{0};
  int overflow(int c) override
  {
    if (c == EOF)
      return 0;
    if (cap >= 0 && static_cast<long>(got.size()) >= cap)
      return EOF;
    got.push_back(c & 0xff);
    return c;
  }
  int sync() override
  {
    ++syncs;
    return syncrc;
  }
};

static void buf(const std::vector<std::string>& ep)
{
  Sink s[4];
  std::vector<std::unique_ptr<std::ostream>> st;
  for (auto& x : s)
    st.emplace_back(new std::ostream(&x));
  std::unique_ptr<util::OutputBuffer> b(new util::OutputBuffer());
  b->setConsoleStream(nullptr);
  b->setFileStream(nullptr);
  std::ostream o(b.get());
  std::size_t seen[4] = {0, 0, 0, 0};
  long sy[4] = {0, 0, 0, 0};
  auto rest = [&](J& j) {
    for (int k = 0; k < 4; ++k) {
      j.vec(("s" + std::to_string(k)).c_str(), std::vector<long>(s[k].got.begin() + static_cast<long>(seen[k]), s[k].got.end()));
      seen[k] = s[k].got.size();
      j.i(("y" + std::to_string(k)).c_str(), s[k].syncs - sy[k]);
      sy[k] = s[k].syncs;
    }
    j.i("bad", b && o.bad());
    emit(j.done());
  };
  for (std::size_t i = 2; i < ep.size(); ++i) {
    auto w = words(ep[i]);
    J j;
    j.str("t", w[0]);
    if (w[0] == "cap") {
      s[atoi(w[1].c_str())].cap = atol(w[2].c_str());
      s[atoi(w[1].c_str())].syncrc = atoi(w[3].c_str());
      j.i("k", atol(w[1].c_str())).i("n", atol(w[2].c_str())).i("rc", atol(w[3].c_str()));
      emit(j.done());
    } else if (w[0] == "att") {
      int k = atoi(w[2].c_str());
      std::ostream* p = k < 0 ? nullptr : st[static_cast<std::size_t>(k)].get();
      if (w[1] == "con")
        b->setConsoleStream(p);
      else
        b->setFileStream(p);
      j.str("w", w[1]).i("k", k);
      rest(j);
    } else if (w[0] == "w") {
      std::vector<long> v;
      std::string x;
      for (std::size_t k = 2; k < w.size(); ++k) {
        v.push_back(atol(w[k].c_str()));
        x += static_cast<char>(v.back());
      }
      if (w[1] == "c")
        for (char c : x)
          o.put(c);
      else if (w[1] == "s")
        o << x;
      else
        o.write(x.data(), static_cast<std::streamsize>(x.size()));
      j.vec("b", v);
      rest(j);
    } else if (w[0] == "fl") {
      o.flush();
      rest(j);
    } else if (w[0] == "clr") {
      o.clear();
      rest(j);
    } else if (w[0] == "del") {
      o.rdbuf(nullptr);
      b.reset();
      rest(j);
      return;
    }
  }
}

// --------------------------------------------------------------------------
static std::string here;
static std::string outdir; // where the log has to be

static void dump(pid_t pid, const char* t)
{
  std::string P = "." + std::to_string(pid) + ".";
  std::vector<std::string> names;
  std::string log;
  long old = 1;
  for (auto f : ls(outdir)) {
    std::string c = slurp(outdir + "/" + f);
    std::string g = f;
    auto at = g.find(P);
    if (at != std::string::npos)
      g.replace(at, P.size(), ".P.");
    names.push_back(q(g));
    std::string mark = here + "/pre/" + f;
    struct stat sb;
    if (!stat(mark.c_str(), &sb)) {
      if (c != "old")
        old = 0;
    } else
      log += c;
  }
  J j;
  j.str("t", t).str("log", q(log)).str("out", q(slurp(here + "/stdout"))).str("err", q(slurp(here + "/stderr")));
  j.raw("files", list(names)).i("old", old);
  emit(j.done());
}

// kinds of error a program can run into
static void err(const std::string& k, std::size_t n)
{
  auto& rm = ResourceManager::getInstance();
  J j;
  j.str("t", "er").str("k", k);
  long rs = -1, id = -1, ptr = -1;
  std::string ty = "none", what;
  char local[8];
  try {
    if (k == "oom")
      rm.getAllocator("lim").allocate(n);
    else if (k == "oomn")
      rm.getAllocator("lim").allocate("nm", n);
    else if (k == "oomp")
      rm.getAllocator("plim").allocate(n);
    else if (k == "oomt")
      rm.getAllocator("tlim").allocate(n);
    else if (k == "oomh")
      rm.getAllocator("HOST").allocate(n);
    else if (k == "oomq")
      rm.getAllocator("p").allocate(n);
    else if (k == "unk")
      rm.getSize(local + n % 8);
    else if (k == "unkc")
      rm.copy(local, local + n % 8, 1);
    else if (k == "unko")
      rm.getAllocator(static_cast<void*>(local + n % 8));
    else if (k == "name")
      rm.getAllocator("nosuch");
    else if (k == "id")
      rm.getAllocator(1000 + static_cast<int>(n));
    else if (k == "dup")
      rm.makeAllocator<strategy::QuickPool>("p", rm.getAllocator("HOST"));
    else if (k == "fr")
      rm.getAllocator("p").deallocate(local);
  } catch (out_of_memory_error& e) {
    ty = "oom";
    what = e.what();
    rs = vf::lim(e.requested_size());
    id = e.get_allocator_id() == rm.getAllocator(k == "oomp" ? "plim" : k == "oomt" ? "tlim" : k == "oomh" ? "HOST" : k == "oomq" ? "p" : "lim").getId();
  } catch (unknown_pointer_error& e) {
    ty = "unk";
    what = e.what();
    ptr = e.get_pointer() == local + n % 8;
  } catch (umpire::runtime_error& e) {
    ty = "rt";
    what = e.what();
  } catch (...) {
    ty = "other";
  }
  std::vector<std::string> ws;
  for (auto& l : lines(what))
    ws.push_back(q(l));
  j.str("ty", ty).i("n", vf::lim(n)).i("rs", rs).i("id", id).i("ptr", ptr).raw("w", list(ws));
  emit(j.done());
}

static void program(const std::vector<std::string>& ep, bool rmode)
{
  std::map<long, std::pair<std::string, void*>> live;
  std::map<long, long> sizes;
  if (rmode) {
    auto& rm = ResourceManager::getInstance();
    auto host = rm.getAllocator("HOST");
    rm.makeAllocator<strategy::QuickPool>("p", host, 1024, 512);
    rm.makeAllocator<strategy::SizeLimiter>("lim", rm.getAllocator("p"), 4096);
    rm.makeAllocator<strategy::SizeLimiter>("hlim", host, 8192);
    rm.makeAllocator<strategy::QuickPool>("plim", rm.getAllocator("hlim"), 1024, 512);
    rm.makeAllocator<strategy::ThreadSafeAllocator>("tlim", rm.getAllocator("lim"));
  }
  for (std::size_t i = 2; i < ep.size(); ++i) {
    auto w = words(ep[i]);
    J j;
    j.str("t", w[0]);
    auto* lg = util::Logger::getActiveLogger();
    if (w[0] == "mpi") {
      try {
        util::MPI::initialize();
      } catch (...) {
      }
      emit(j.done());
    } else if (w[0] == "ini") {
      int en = atoi(w[1].c_str()), x = 0;
      try {
        util::initialize_io(en);
      } catch (umpire::runtime_error&) {
        x = 1;
      }
      emit(j.i("en", en).i("x", x).done());
    } else if (w[0] == "fin") {
      util::finalize_io();
      emit(j.done());
    } else if (w[0] == "lg") {
      int L = atoi(w[1].c_str());
      std::string m = uq(w[2]), f = uq(w[3]);
      int ln = atoi(w[4].c_str());
      lg->logMessage(static_cast<util::message::Level>(L), m, f, ln);
      emit(j.i("L", L).str("m", q(m)).str("f", q(f)).str("n", q(std::to_string(ln))).done());
    } else if (w[0] == "mac") { // the macro the library itself uses
      int L = atoi(w[1].c_str());
      std::string m = uq(w[2]);
      long n = 0; // the message is built only if it is wanted
      auto say = [&] {
        ++n;
        return m;
      };
      if (L == 0)
        UMPIRE_LOG(Error, say() << ";" << 7)
      else if (L == 1)
        UMPIRE_LOG(Warning, say() << ";" << 7)
      else if (L == 2)
        UMPIRE_LOG(Info, say() << ";" << 7)
      else
        UMPIRE_LOG(Debug, say() << ";" << 7)
      emit(j.i("L", L).str("m", q(m + ";7")).i("n", n).done());
    } else if (w[0] == "set") {
      int L = atoi(w[1].c_str());
      lg->setLoggingMsgLevel(static_cast<util::message::Level>(L));
      emit(j.i("L", L).done());
    } else if (w[0] == "en") {
      int L = atoi(w[1].c_str());
      emit(j.i("L", L).i("r", lg->logLevelEnabled(static_cast<util::message::Level>(L))).done());
    } else if (w[0] == "wl" || w[0] == "we") {
      std::string m = uq(w[1]);
      (w[0] == "wl" ? umpire::log() : umpire::error()) << m;
      emit(j.str("m", q(m)).done());
    } else if (w[0] == "fl") {
      util::flush_files();
      fflush(stdout);
      dump(getpid(), "dump");
    } else if (w[0] == "er")
      err(w[1], strtoull(w[2].c_str(), nullptr, 10));
    else if (w[0] == "al") {
      long h = atol(w[1].c_str());
      try {
        void* p = ResourceManager::getInstance().getAllocator(w[2]).allocate(strtoull(w[3].c_str(), nullptr, 10));
        live[h] = {w[2], p};
        sizes[h] = atol(w[3].c_str());
      } catch (umpire::runtime_error&) {
      }
    } else if (w[0] == "fr") {
      long h = atol(w[1].c_str());
      if (live.count(h)) {
        ResourceManager::getInstance().getAllocator(live[h].first).deallocate(live[h].second);
        live.erase(h);
      }
    }
  }
  if (rmode) {
    auto& rm = ResourceManager::getInstance();
    std::string s = "{";
    for (auto& n : rm.getAllocatorNames()) {
      auto a = rm.getAllocator(n);
      long c = 0, b = 0;
      for (auto& h : live)
        if (h.second.first == n) {
          ++c;
          b += sizes[h.first];
        }
      s += (s.size() > 1 ? ",\"" : "\"") + q(n) + "\":[" + std::to_string(vf::lim(a.getCurrentSize())) + "," + std::to_string(c) + "," +
           std::to_string(b) + "]";
    }
    emit(J().str("t", "left").raw("a", s + "}").done());
  }
}

static void prog(const std::vector<std::string>& ep)
{
  auto w = words(ep[1]); // mode level base dir pre...
  char cwd[4096];
  if (!getcwd(cwd, sizeof cwd))
    _exit(98);
  std::string tmpl = std::string(cwd) + "/vfout.XXXXXX";
  if (!mkdtemp(&tmpl[0]))
    _exit(98);
  here = tmpl;
  mkdir((here + "/pre").c_str(), 0755);
  mkdir((here + "/cwd").c_str(), 0755);
  int dm = atoi(w[3].c_str());
  outdir = here + (dm ? "/logs" : "/cwd");
  if (dm == 1)
    mkdir(outdir.c_str(), 0755);
  if (dm == 4)
    std::ofstream(outdir) << "a file";
  std::string base = w[2] == "-" ? "umpire" : uq(w[2]);
  bool rmode = w[0] == "rm";
  std::vector<std::string> pre;
  int pp[2];
  if (pipe(pp))
    _exit(98);
  pid_t pid = fork();
  if (!pid) {
    char c;
    if (chdir((here + "/cwd").c_str()) || read(pp[0], &c, 1) != 1)
      _exit(98);
    if (w[1] != "-")
      setenv("UMPIRE_LOG_LEVEL", uq(w[1]).c_str(), 1);
    else
      unsetenv("UMPIRE_LOG_LEVEL");
    if (w[2] != "-")
      setenv("UMPIRE_OUTPUT_BASENAME", base.c_str(), 1);
    else
      unsetenv("UMPIRE_OUTPUT_BASENAME");
    if (dm)
      setenv("UMPIRE_OUTPUT_DIR", outdir.c_str(), 1);
    else
      unsetenv("UMPIRE_OUTPUT_DIR");
    int o = ::open((here + "/stdout").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    int e = ::open((here + "/stderr").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    dup2(o, 1);
    dup2(e, 2);
    program(ep, rmode);
    exit(0);
  }
  for (std::size_t k = 4; k < w.size(); ++k) {
    std::string f = base + "." + std::to_string(pid) + "." + w[k] + ".log";
    std::ofstream(here + "/pre/" + f);
    std::ofstream(outdir + "/" + f) << "old";
    pre.push_back(q(base) + ".P." + w[k] + ".log");
  }
  emit(J().str("t", "env").str("mode", w[0]).str("lv", w[1] == "-" ? "" : q(uq(w[1]))).i("set", w[1] != "-").str("base", q(base)).i("dm", dm)
           .raw("pre", list(pre)).done());
  if (write(pp[1], "x", 1) != 1)
    _exit(98);
  int st = 0;
  waitpid(pid, &st, 0);
  if (!rmode)
    dump(pid, "end");
  else {
    std::string log;
    long n = 0;
    for (auto& f : ls(outdir)) {
      std::string c = slurp(outdir + "/" + f);
      log += c;
      ++n;
    }
    emit(J().str("t", "logs").i("n", n).str("out", q(slurp(here + "/stdout"))).str("err", q(slurp(here + "/stderr"))).done());
    static const char* LV[] = {"[ERROR]", "[WARNING]", "[INFO]", "[DEBUG]"};
    bool leak = false;
    for (auto& l : lines(log)) {
      long lv = -1;
      for (int k = 0; k < 4; ++k)
        if (!l.compare(0, strlen(LV[k]), LV[k]))
          lv = k;
      J j;
      j.str("t", "ln").i("lv", lv);
      const char* mark = " Allocator still has ";
      auto at = l.find(mark);
      std::string who;
      long much = -1;
      if (lv == 0 && at != std::string::npos) {
        auto from = l.rfind(' ', at - 1);
        who = l.substr(from + 1, at - from - 1);
        much = atol(l.c_str() + at + strlen(mark));
        leak = true;
      } else if (lv >= 0)
        leak = false;
      j.str("who", q(who)).i("much", much).i("rec", leak && lv < 0 && l.find("range: ") != std::string::npos);
      // a line only this program can have caused
      j.i("own", l.find("[f.cpp:") != std::string::npos || (lv >= 0 && l.size() > 2 && !l.compare(l.size() - 2, 2, ";7")));
      emit(j.str("x", q(l)).done());
    }
    emit(J().str("t", "lnend").done());
  }
  emit(J().str("t", "st").i("rc", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)).done());
  for (auto d : {"/pre", "/cwd", "/logs"}) {
    for (auto& f : ls(here + d))
      unlink((here + d + "/" + f).c_str());
    rmdir((here + d).c_str());
  }
  unlink((here + "/logs").c_str());
  unlink((here + "/stdout").c_str());
  unlink((here + "/stderr").c_str());
  rmdir(here.c_str());
}

static void body(const std::vector<std::string>& ep)
{
  if (ep[1] == "buf")
    buf(ep);
  else
    prog(ep);
}

int main(int argc, char** argv)
{
  return vf::run_episodes(argc, argv, body);
}
