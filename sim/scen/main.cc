#include "scen.hh"
#include "../core/alloc.hh"
#include "../core/internal.hh"
#include "raft/RaftTimeouts.hh"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <poll.h>
#include <signal.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" char __libc_single_threaded;
using namespace scen;
namespace scen {
std::vector<Scenario>& scenarios() { static auto* v = new std::vector<Scenario>; return *v; }
static std::string escTok(const std::string& s) {
  if (s.empty()) return "\\e";
  std::string o;
  for (unsigned char c : s) {
    if (c == '\\') o += "\\\\";
    else if (c > 32 && c < 127) o += (char)c;
    else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
  }
  return o;
}
static std::string unescTok(const std::string& s) {
  if (s == "\\e") return "";
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\\') { o += s[i]; continue; }
    if (i + 1 < s.size() && s[i + 1] == 'x') { o += (char)strtol(s.substr(i + 2, 2).c_str(), nullptr, 16); i += 3; }
    else { o += '\\'; i++; }
  }
  return o;
}
std::string Plan::text() const {
  std::string o = "scenario " + scenario + "\nseed " + std::to_string(seed) + "\n";
  for (auto& k : knobs) o += "knob " + k.first + " " + k.second + "\n";
  o += "explicit\n";
  for (auto& l : lines) { o += "ev " + l.kind; for (auto& a : l.a) o += " " + escTok(a); o += "\n"; }
  return o;
}
}  // namespace scen
static bool parsePlan(const std::string& text, Plan& p, bool& expl, std::string& err) {
  expl = false;
  size_t i = 0;
  while (i < text.size()) {
    size_t j = text.find('\n', i);
    if (j == std::string::npos) j = text.size();
    std::string l = text.substr(i, j - i);
    i = j + 1;
    if (l.empty() || l[0] == '#') continue;
    std::vector<std::string> t;
    size_t a = 0;
    while (a < l.size()) { size_t b = l.find(' ', a); if (b == std::string::npos) b = l.size(); if (b > a) t.push_back(l.substr(a, b - a)); a = b + 1; }
    if (t.empty()) continue;
    if (t[0] == "scenario") p.scenario = t.at(1);
    else if (t[0] == "seed") p.seed = strtoull(t.at(1).c_str(), nullptr, 10);
    else if (t[0] == "knob") p.knobs[t.at(1)] = t.size() > 2 ? t[2] : "";
    else if (t[0] == "explicit") expl = true;
    else if (t[0] == "ev") { Line x; x.kind = t.at(1); for (size_t k = 2; k < t.size(); k++) x.a.push_back(unescTok(t[k])); p.lines.push_back(std::move(x)); }
    else if (t[0] == "trace" || t[0] == "class" || t[0] == "msg" || t[0] == "hash" || t[0] == "property") continue;
    else { err = "bad plan line: " + l; return false; }
  }
  return true;
}
static const Scenario* find(const std::string& n) { for (auto& s : scenarios()) if (n == s.name) return &s; return nullptr; }
static void generate(const Scenario* s, Plan& p) {
  Rng r; r.seed(sim::mixSeed(p.seed, "plan"));
  s->gen(p, r);
}
struct LogBuf : std::streambuf {
  int overflow(int c) override { if (c != EOF) { char ch = (char)c; sim::appendLog(&ch, 1); } return c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { sim::appendLog(s, (size_t)n); return n; }
};
static int g_hashlog = -1;
[[noreturn]] static void runPlan(Plan* p, int fd, bool traceAll) {
  sim::g_resultFd = fd;
  const Scenario* s = find(p->scenario);
  if (!s) { dprintf(fd, "outcome error\nclass harness\nmsg unknown scenario\nEND\n"); sim::realExit(0); }
  for (auto& k : p->knobs) sim::setKnob(k.first, k.second);
  if (traceAll) sim::setTraceAll(true);
  if (g_hashlog >= 0) sim::setHashLog(g_hashlog);
  sim::allocReset();
  for (uint64_t i = 0, n = p->seed % 61; i < n; i++) quarkdb::defaultTimeouts.getRandom();
  sim::runMain(p->seed, [p, s] { s->run(*p); });
  sim::realExit(0);
}
static std::string readFd(int fd) {
  std::string o; char b[65536];
  for (;;) { ssize_t n = syscall(SYS_read, fd, b, sizeof b); if (n <= 0) break; o.append(b, n); }
  return o;
}
static bool readExact(char* b, size_t n) { size_t o = 0; while (o < n) { ssize_t r = syscall(SYS_read, 0, b + o, n - o); if (r <= 0) return false; o += r; } return true; }
static char g_in[64 << 20];
static char g_outb[32 << 20];
static int serve() {
  // zygote: one forked child per run; no heap use here so that every child starts alike
  for (;;) {
    char hdr[64]; size_t h = 0;
    for (;;) { char c; if (!readExact(&c, 1)) return 0; if (c == '\n') break; if (h < sizeof hdr - 1) hdr[h++] = c; }
    hdr[h] = 0;
    long len = 0, wall = 0;
    if (sscanf(hdr, "RUN %ld %ld", &len, &wall) != 2 || len >= (long)sizeof g_in) return 1;
    if (!readExact(g_in, len)) return 0;
    int pf[2];
    if (pipe(pf)) return 1;
    pid_t pid = fork();
    if (pid == 0) {
      syscall(SYS_close, pf[0]);
      syscall(SYS_close, 0);
      int nul = (int)syscall(SYS_open, "/dev/null", 2);
      syscall(SYS_dup2, nul, 1);
      std::string text(g_in, len);
      Plan* p = new Plan; bool expl; std::string err;
      if (!parsePlan(text, *p, expl, err)) { dprintf(pf[1], "outcome error\nclass harness\nmsg %s\nEND\n", err.c_str()); sim::realExit(0); }
      if (!expl) { const Scenario* s = find(p->scenario); if (s) generate(s, *p); }
      runPlan(p, pf[1], false);
    }
    syscall(SYS_close, pf[1]);
    size_t n = 0;
    struct timespec t0; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
    bool to = false;
    for (;;) {
      struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
      long left = wall - ((t.tv_sec - t0.tv_sec) * 1000 + (t.tv_nsec - t0.tv_nsec) / 1000000);
      if (left <= 0) { to = true; break; }
      struct pollfd pfd = {pf[0], POLLIN, 0};
      int pr = (int)syscall(SYS_poll, &pfd, 1, (int)left);
      if (pr <= 0) continue;
      ssize_t r = syscall(SYS_read, pf[0], g_outb + n, sizeof g_outb - n - 1);
      if (r <= 0) break;
      n += r;
    }
    if (to) syscall(SYS_kill, pid, SIGKILL);
    int st; waitpid(pid, &st, 0);
    syscall(SYS_close, pf[0]);
    if (to) n = sprintf(g_outb, "outcome timeout\nEND\n");
    else if (n < 4 || memcmp(g_outb + n - 4, "END\n", 4)) n += sprintf(g_outb + n, "outcome error\nclass harness\nmsg child died status %d\nEND\n", st);
    char head[64]; int hn = sprintf(head, "RESULT %zu\n", n);
    size_t o = 0;
    while (o < (size_t)hn) { ssize_t w = syscall(SYS_write, 1, head + o, hn - o); if (w <= 0) return 1; o += w; }
    o = 0;
    while (o < n) { ssize_t w = syscall(SYS_write, 1, g_outb + o, n - o); if (w <= 0) return 1; o += w; }
  }
}
int main(int argc, char** argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("QDBSIM_NOREEXEC")) {
    personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
    setenv("QDBSIM_NOREEXEC", "1", 1);
    execv("/proc/self/exe", argv);
  }
  __libc_single_threaded = 0;
  sim::allocInit();
  signal(SIGPIPE, SIG_IGN);
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "list") { for (auto& s : scenarios()) printf("%s\n", s.name); return 0; }
  if (mode == "gen" && argc >= 4) {
    Plan p; p.scenario = argv[2]; p.seed = strtoull(argv[3], nullptr, 10);
    for (int i = 4; i < argc; i++) { std::string k = argv[i]; size_t e = k.find('='); p.knobs[k.substr(0, e)] = k.substr(e + 1); }
    const Scenario* s = find(p.scenario);
    if (!s) return 2;
    generate(s, p);
    std::string t = p.text();
    fwrite(t.data(), 1, t.size(), stdout);
    fflush(stdout);
    return 0;
  }
  sim::net::init();
  rocksdb::simInit();
  static LogBuf lb;
  std::cerr.rdbuf(&lb);
  std::cout.rdbuf(&lb);
  if (mode == "serve") return serve();
  if (mode == "run" && argc >= 3) {
    FILE* f = fopen(argv[2], "r");
    if (!f) return 2;
    std::string text; char b[65536]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) text.append(b, n);
    fclose(f);
    Plan* p = new Plan; bool expl; std::string err;
    if (!parsePlan(text, *p, expl, err)) { fprintf(stderr, "%s\n", err.c_str()); return 2; }
    if (!expl) { const Scenario* s = find(p->scenario); if (!s) return 2; generate(s, *p); }
    if (getenv("QDBSIM_HASHLOG")) g_hashlog = 9;
    runPlan(p, 1, getenv("QDBSIM_TRACE") != nullptr);
  }
  fprintf(stderr, "usage: qdbsim serve | run PLAN | gen SCENARIO SEED [k=v..] | list\n");
  return 2;
}
