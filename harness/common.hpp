// Shared helpers of the conformance harnesses: event log, arena-backed parent
// resource, taps that record the calls one layer makes on the next.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace vf {

inline int& log_fd()
{
  static int fd = 1;
  return fd;
}

inline void emit(const std::string& line)
{
  std::string l = line + "\n";
  const char* p = l.data();
  std::size_t n = l.size();
  while (n) {
    ssize_t w = ::write(log_fd(), p, n);
    if (w <= 0)
      _exit(99);
    p += w;
    n -= static_cast<std::size_t>(w);
  }
}

// TLC integers are 32 bit: anything that does not fit is logged as -2 ("wide").
inline long lim(std::size_t v)
{
  return v > 0x3fffffffu ? -2 : static_cast<long>(v);
}

struct J {
  std::string s{"{"};
  bool first{true};
  J& key(const char* k)
  {
    if (!first)
      s += ",";
    first = false;
    s += "\"";
    s += k;
    s += "\":";
    return *this;
  }
  J& i(const char* k, long v)
  {
    key(k);
    s += std::to_string(v);
    return *this;
  }
  J& str(const char* k, const std::string& v)
  {
    key(k);
    s += "\"";
    for (char c : v) {
      if (c == '"' || c == '\\') {
        s += '\\';
        s += c;
      } else if (static_cast<unsigned char>(c) < 0x20) {
        char b[8];
        snprintf(b, sizeof b, "\\u%04x", c);
        s += b;
      } else
        s += c;
    }
    s += "\"";
    return *this;
  }
  J& raw(const char* k, const std::string& v)
  {
    key(k);
    s += v;
    return *this;
  }
  J& vec(const char* k, const std::vector<long>& v)
  {
    key(k);
    s += "[";
    for (std::size_t j = 0; j < v.size(); ++j)
      s += (j ? "," : "") + std::to_string(v[j]);
    s += "]";
    return *this;
  }
  std::string done()
  {
    return s + "}";
  }
};

// Runs each episode (a block of script lines) in a forked child, so that every
// history starts from a fresh ResourceManager and its end (static destruction)
// is part of the history.  A crash or hang becomes an "X" event.
inline int run_episodes(int argc, char** argv, std::function<void(const std::vector<std::string>&)> body)
{
  if (argc < 3) {
    fprintf(stderr, "usage: %s SCRIPT OUT [timeout_s]\n", argv[0]);
    return 2;
  }
  FILE* f = fopen(argv[1], "r");
  if (!f) {
    perror("script");
    return 2;
  }
  int out = ::open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (out < 0) {
    perror("out");
    return 2;
  }
  int to = argc > 3 ? atoi(argv[3]) : 20;
  log_fd() = out;
  std::vector<std::vector<std::string>> eps;
  char* line = nullptr;
  std::size_t cap = 0;
  ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) {
    while (n && (line[n - 1] == '\n' || line[n - 1] == '\r'))
      line[--n] = 0;
    if (!n || line[0] == '#')
      continue;
    if (!strncmp(line, "E ", 2))
      eps.push_back({std::string(line)});
    else if (!eps.empty())
      eps.back().push_back(line);
  }
  fclose(f);
  int hangs = 0;
  for (auto& ep : eps) {
    if (hangs >= 2)
      break; // the rest would only repeat it
    emit("{\"t\":\"E\",\"id\":\"" + ep[0].substr(2) + "\"}");
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0); // whatever the episode starts ends with it
      int dn = ::open("/dev/null", O_RDWR);
      dup2(dn, 0);
      if (!getenv("VF_VERBOSE")) {
        dup2(dn, 1);
        dup2(dn, 2);
      }
      alarm(static_cast<unsigned>(to));
      body(ep);
      exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    ::kill(-pid, SIGKILL);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
      ++hangs;
    if (WIFSIGNALED(st))
      emit("{\"t\":\"X\",\"why\":\"" + std::string(WTERMSIG(st) == SIGALRM ? "hang" : "crash") +
           "\",\"sig\":" + std::to_string(WTERMSIG(st)) + "}");
    else if (WEXITSTATUS(st) == 99 || WEXITSTATUS(st) == 98) {
      fprintf(stderr, "harness failure in episode %s\n", ep[0].c_str());
      return 2;
    } else if (WEXITSTATUS(st) != 0)
      emit("{\"t\":\"X\",\"why\":\"exit\",\"sig\":" + std::to_string(WEXITSTATUS(st)) + "}");
    else
      emit("{\"t\":\"EE\"}");
  }
  return 0;
}

} // namespace vf
#endif
