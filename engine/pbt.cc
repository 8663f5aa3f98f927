#include "pbt.h"
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <algorithm>
#include <set>
#include <unordered_set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#ifndef VP_CONFIG
#define VP_CONFIG "unknown"
#endif

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=0:"
         "detect_stack_use_after_return=0:symbolize=1:print_summary=1:malloc_context_size=3:quarantine_size_mb=8";
}

namespace pbt {

std::vector<Sub>& subs() { static std::vector<Sub> v; return v; }

// ---------------------------------------------------------------- shared memory
static const size_t kTapeMax = 1 << 16;
struct Shared {
  volatile uint64_t case_idx;
  volatile uint64_t status;  // 0 running, 1 failed (Fail), 2 done
  volatile uint64_t tape_len;
  uint64_t tape[kTapeMax];
  char kind[256];
  char msg[8192];
  char notes[24000];
  volatile uint64_t sub;
};
static Shared* sh;

uint64_t G::draw(uint64_t n) {
  uint64_t v;
  if (n == 0) n = 1;
  if (replay_) {
    v = pos_ < tape_.size() ? tape_[pos_] : 0;
    pos_++;
    v %= n;
  } else {
    v = (uint64_t)(((unsigned __int128)rng_.next() * n) >> 64);
  }
  if (sh && used_.size() < kTapeMax) { sh->tape[used_.size()] = v; sh->tape_len = used_.size() + 1; }
  used_.push_back(v);
  return v;
}
int64_t G::around(int64_t lo, int64_t hi, int64_t origin) {
  if (hi < lo) hi = lo;
  uint64_t n = (uint64_t)(hi - lo) + 1;
  int64_t v = origin + (int64_t)draw(n);
  if (v > hi) v = origin - 1 - (v - hi - 1);
  return v;
}
int64_t G::small(int64_t lo, int64_t hi) {
  if (hi <= lo) { draw(1); draw(1); return lo; }
  int64_t span = hi - lo;
  uint64_t b = draw(8);
  int64_t lim = b < 3 ? std::min<int64_t>(span, 2) : b < 6 ? std::min<int64_t>(span, std::max<int64_t>(2, span / 3)) : span;
  return lo + (int64_t)draw((uint64_t)lim + 1);
}
size_t G::weighted(std::initializer_list<int> w) {
  int t = 0;
  for (int x : w) t += x;
  int64_t r = (int64_t)draw((uint64_t)t);
  size_t i = 0;
  for (int x : w) { if (r < x) return i; r -= x; i++; }
  return w.size() - 1;
}
static std::string vfmt(const char* fmt, va_list ap) {
  char buf[4096];
  vsnprintf(buf, sizeof buf, fmt, ap);
  return buf;
}
void G::note(const char* fmt, ...) {
  if (!verbose_) return;
  va_list ap; va_start(ap, fmt);
  if (notes_.size() < 20000) {
    notes_ += vfmt(fmt, ap); notes_ += "; ";
    if (sh) snprintf(sh->notes, sizeof sh->notes, "%s", notes_.c_str());
  }
  va_end(ap);
}
void G::fail(const char* kind, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  Fail f{kind, vfmt(fmt, ap)};
  va_end(ap);
  throw f;
}

static int total_weight() { int t = 0; for (auto& s : subs()) t += s.weight; return t; }
static size_t choose_sub(G& g) {
  int64_t r = (int64_t)g.draw((uint64_t)total_weight());
  for (size_t i = 0; i < subs().size(); i++) { if (r < subs()[i].weight) return i; r -= subs()[i].weight; }
  return 0;
}

static void arm(int sec) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = sec;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

// runs one case; returns 0 ok, 1 fail, 2 discard
struct CaseResult { int rc; size_t sub; };
static int g_case_cpu = 30;
static CaseResult run_one(G& g) {
  CaseResult r{0, 0};
  arm(g_case_cpu);
  sh->tape_len = 0; sh->notes[0] = 0;
  try {
    r.sub = choose_sub(g);
    sh->sub = r.sub;
    subs()[r.sub].fn(g);
  } catch (Fail& f) {
    snprintf(sh->kind, sizeof sh->kind, "%s/%s", subs()[r.sub].name, f.kind.c_str());
    snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
    r.rc = 1;
  } catch (Discard&) {
    r.rc = 2;
  }
  return r;
}
static uint64_t case_seed(uint64_t seed, uint64_t shard, uint64_t idx) {
  Rng r(seed * 0x9E3779B97F4A7C15ull + shard * 0xD1B54A32D192ED03ull + 12345);
  r.next();
  Rng r2(r.next() ^ (idx * 0x2545F4914F6CDD1Dull + 777));
  r2.next();
  return r2.next();
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}

static std::vector<std::string> g_known;
static bool is_known(const char* kind) {
  for (auto& k : g_known) if (k == kind) return true;
  return false;
}

struct Opt {
  uint64_t seed = 1, shard = 0, cases = 1000;
  double budget = 60;
  std::string out, replay, errfile, only;
};

static void redirect(const std::string& errfile) {
  int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd >= 0) { dup2(fd, 2); close(fd); }
  int dn = open("/dev/null", O_WRONLY);
  if (dn >= 0) { dup2(dn, 1); close(dn); }
}
static std::string slurp(const std::string& f, size_t max = 6000) {
  std::string s; FILE* p = fopen(f.c_str(), "r");
  if (!p) return s;
  char b[4096]; size_t n;
  while (s.size() < max && (n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n);
  fclose(p);
  return s;
}
static std::string crash_kind(int st, const std::string& err) {
  if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    if (sg == SIGVTALRM || sg == SIGPROF || sg == SIGXCPU) return "non-termination";
    if (sg == SIGABRT) return "abort/assertion";
    return std::string("signal ") + strsignal(sg);
  }
  size_t p = err.find("ERROR: AddressSanitizer: ");
  if (p != std::string::npos) {
    p += 25;
    size_t e = err.find_first_of(" \n", p);
    return "asan " + err.substr(p, e - p);
  }
  p = err.find("runtime error: ");
  if (p != std::string::npos) return "ubsan";
  return "exit " + std::to_string(WEXITSTATUS(st));
}

struct Outcome { bool failed = false; std::string kind, msg, notes; std::vector<uint64_t> used; };
// decodes how the child pid ended
static Outcome finish(pid_t pid, const std::string& errfile) {
  int st; while (waitpid(pid, &st, 0) < 0) {}
  Outcome o;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
  o.failed = true;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { o.kind = sh->kind; o.msg = sh->msg; }
  else {
    o.msg = slurp(errfile);
    o.kind = std::string(subs()[sh->sub < subs().size() ? sh->sub : 0].name) + "/" + crash_kind(st, o.msg);
  }
  o.notes = sh->notes;
  o.used.assign(sh->tape, sh->tape + sh->tape_len);
  return o;
}

// one tape in a fresh child
static Outcome exec_tape(const std::vector<uint64_t>& tape, const std::string& errfile, bool verbose) {
  sh->status = 0; sh->tape_len = 0; sh->kind[0] = sh->msg[0] = sh->notes[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    redirect(errfile);
    G g; g.replay_ = true; g.tape_ = tape; g.verbose_ = verbose;
    CaseResult r = run_one(g);
    sh->status = r.rc == 1 ? 1 : 2;
    _exit(r.rc == 1 ? 77 : 0);
  }
  return finish(pid, errfile);
}

static Outcome shrink(Outcome best, const std::string& errfile, double limit_s) {
  double t0 = now();
  int execs = 0;
  auto same = [&](const Outcome& o) { return o.failed && o.kind == best.kind; };
  auto tryit = [&](std::vector<uint64_t> t) {
    if (execs > 3000 || now() - t0 > limit_s) return false;
    execs++;
    Outcome o = exec_tape(t, errfile, false);
    if (!same(o)) return false;
    if (o.used.size() > t.size()) o.used = t;
    best = o;
    return true;
  };
  bool progress = true;
  while (progress && execs <= 3000 && now() - t0 < limit_s) {
    progress = false;
    // truncate
    for (size_t n = best.used.size() / 2; n >= 1; n /= 2) {
      while (best.used.size() > n) {
        auto t = best.used; t.resize(t.size() - n);
        if (!tryit(t)) break;
        progress = true;
      }
    }
    // delete spans
    for (size_t w : {8, 4, 2, 1}) {
      for (size_t i = 0; i + w <= best.used.size();) {
        auto t = best.used; t.erase(t.begin() + i, t.begin() + i + w);
        if (tryit(t)) progress = true; else i++;
        if (execs > 3000 || now() - t0 > limit_s) break;
      }
    }
    // lower values
    for (size_t i = 0; i < best.used.size(); i++) {
      if (best.used[i] == 0) continue;
      auto t = best.used; t[i] = 0;
      if (tryit(t)) { progress = true; continue; }
      uint64_t lo = 0, hi = best.used[i];
      int k = 0;
      while (hi - lo > 1 && k++ < 12) {
        uint64_t mid = lo + (hi - lo) / 2;
        t = best.used; if (i >= t.size()) break; t[i] = mid;
        if (tryit(t)) { hi = mid; progress = true; } else lo = mid;
      }
      if (i < best.used.size() && best.used[i] > 0) {
        t = best.used; t[i]--;
        if (tryit(t)) progress = true;
      }
      if (execs > 3000 || now() - t0 > limit_s) break;
    }
  }
  return best;
}

// history replay: cases a..b of (seed, shard) in one fresh process; fails at b?
static Outcome exec_history(const Opt& o, uint64_t a, uint64_t b) {
  sh->status = 0; sh->kind[0] = sh->msg[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    redirect(o.errfile);
    for (uint64_t i = a; i <= b; i++) {
      G g; g.rng_ = Rng(case_seed(o.seed, o.shard, i)); g.verbose_ = i == b;
      CaseResult r = run_one(g);
      if (r.rc == 1 && !is_known(sh->kind)) _exit(77);
    }
    _exit(0);
  }
  return finish(pid, o.errfile);
}

static void write_replay(const std::string& path, const Opt& o, const Outcome& f, const char* mode, uint64_t a, uint64_t b) {
  FILE* p = fopen(path.c_str(), "w");
  if (!p) return;
  fprintf(p, "pbt-replay 1\nconfig %s\nmode %s\nseed %llu\nshard %llu\nfrom %llu\nto %llu\ntape", VP_CONFIG, mode,
          (unsigned long long)o.seed, (unsigned long long)o.shard, (unsigned long long)a, (unsigned long long)b);
  for (auto v : f.used) fprintf(p, " %llu", (unsigned long long)v);
  fprintf(p, "\nkind %s\n---\n%s\n---\n%s\n", f.kind.c_str(), f.msg.c_str(), f.notes.c_str());
  fclose(p);
}

static int do_replay(Opt o) {
  FILE* p = fopen(o.replay.c_str(), "r");
  if (!p) { fprintf(stderr, "cannot open %s\n", o.replay.c_str()); return 2; }
  std::string all; char b[4096]; size_t n;
  while ((n = fread(b, 1, sizeof b, p)) > 0) all.append(b, n);
  fclose(p);
  auto field = [&](const char* k) { size_t q = all.find(std::string("\n") + k + " "); if (q == std::string::npos) return std::string();
    q += strlen(k) + 2; return all.substr(q, all.find('\n', q) - q); };
  Outcome r;
  if (field("mode") == "history") {
    o.seed = strtoull(field("seed").c_str(), 0, 10); o.shard = strtoull(field("shard").c_str(), 0, 10);
    r = exec_history(o, strtoull(field("from").c_str(), 0, 10), strtoull(field("to").c_str(), 0, 10));
  } else {
    std::vector<uint64_t> t; std::string s = field("tape"); char* c = (char*)s.c_str();
    while (*c) { char* e; uint64_t v = strtoull(c, &e, 10); if (e == c) break; t.push_back(v); c = e; }
    r = exec_tape(t, o.errfile, true);
  }
  if (r.failed) printf("REPRODUCED kind=%s\n%s\n%s\n", r.kind.c_str(), r.msg.c_str(), r.notes.c_str());
  else printf("not reproduced\n");
  return r.failed ? 1 : 0;
}

static int worker(Opt o) {
  double t0 = now();
  uint64_t start = 0;
  std::string statf = o.out + ".stat", hashf = o.out + ".hash";
  uint64_t lost = 0, flaky = 0;
  while (true) {
    sh->case_idx = start; sh->status = 0;
    pid_t pid = fork();
    if (pid == 0) {
      redirect(o.errfile);
      std::vector<uint64_t> ev(subs().size()), nt(subs().size()), dis(subs().size()), inner(subs().size());
      std::vector<std::map<std::string, uint64_t>> lab(subs().size());
      std::vector<std::vector<std::string>> samp(subs().size());
      std::map<std::string, uint64_t> known;
      std::unordered_set<uint64_t> seen;
      seen.reserve(1 << 16);
      uint64_t i = start;
      bool timeout = false;
      for (; i < o.cases; i++) {
        sh->case_idx = i;
        if ((i & 15) == 0 && now() - t0 > o.budget) { timeout = true; break; }
        G g; g.rng_ = Rng(case_seed(o.seed, o.shard, i));
        g.verbose_ = i < 400;
        CaseResult r = run_one(g);
        if (r.rc == 1) {
          if (is_known(sh->kind)) { known[sh->kind]++; continue; }
          sh->status = 1;
          _exit(77);
        }
        if (r.rc == 2) { dis[r.sub]++; continue; }
        ev[r.sub] += 1; inner[r.sub] += g.evals_;
        for (auto& l : g.labels_) lab[r.sub][l.first] += l.second;
        if (g.nontrivial_) {
          uint64_t h = 1469598103934665603ull;
          for (auto v : g.used_) { h ^= v + 0x9E3779B97F4A7C15ull; h *= 0xff51afd7ed558ccdull; h ^= h >> 29; }
          if (seen.size() < 3000000 && seen.insert(h).second) nt[r.sub]++;
          if (g.verbose_ && samp[r.sub].size() < 2 && !g.notes_.empty()) samp[r.sub].push_back(g.notes_.substr(0, 700));
        }
      }
      arm(0);
      FILE* p = fopen(statf.c_str(), "w");
      fprintf(p, "{\"config\":\"%s\",\"shard\":%llu,\"timeout\":%s,\"end\":%llu,\"rule\":\"%s\",\"known\":{", VP_CONFIG, (unsigned long long)o.shard,
              timeout ? "true" : "false", (unsigned long long)i, esc(g_rule).c_str());
      bool first = true;
      for (auto& k : known) { fprintf(p, "%s\"%s\":%llu", first ? "" : ",", esc(k.first).c_str(), (unsigned long long)k.second); first = false; }
      fprintf(p, "},\"subs\":[");
      for (size_t s = 0; s < subs().size(); s++) {
        fprintf(p, "%s{\"name\":\"%s\",\"evaluations\":%llu,\"inner\":%llu,\"nontrivial\":%llu,\"discards\":%llu,\"labels\":{", s ? "," : "", subs()[s].name,
                (unsigned long long)ev[s], (unsigned long long)inner[s], (unsigned long long)nt[s], (unsigned long long)dis[s]);
        first = true;
        for (auto& k : lab[s]) { fprintf(p, "%s\"%s\":%llu", first ? "" : ",", esc(k.first).c_str(), (unsigned long long)k.second); first = false; }
        fprintf(p, "},\"samples\":[");
        for (size_t k = 0; k < samp[s].size(); k++) fprintf(p, "%s\"%s\"", k ? "," : "", esc(samp[s][k]).c_str());
        fprintf(p, "]}");
      }
      fprintf(p, "]}\n");
      fclose(p);
      p = fopen(hashf.c_str(), "wb");
      for (uint64_t h : seen) fwrite(&h, 8, 1, p);
      fclose(p);
      sh->status = 2;
      _exit(0);
    }
    int st; while (waitpid(pid, &st, 0) < 0) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->status == 2) break;
    // a failure in case idx
    uint64_t idx = sh->case_idx;
    Outcome f;
    // reproduce alone
    auto once = [&]() { return exec_history(o, idx, idx); };
    Outcome h = once();
    uint64_t a = idx;
    if (!h.failed) {
      // maybe it depends on earlier calls in the same process
      bool found = false;
      for (uint64_t back = 1;; back *= 4) {
        a = idx >= start + back ? idx - back : start;
        h = exec_history(o, a, idx);
        if (h.failed) { found = true; break; }
        if (a == start) break;
      }
      if (!found) { lost += idx - start; flaky++; start = idx + 1; if (flaky > 20 || start >= o.cases) { FILE* p = fopen(statf.c_str(), "w"); fprintf(p, "{\"config\":\"%s\",\"shard\":%llu,\"flaky\":%llu,\"timeout\":true,\"end\":%llu,\"rule\":\"\",\"known\":{},\"subs\":[]}", VP_CONFIG, (unsigned long long)o.shard, (unsigned long long)flaky, (unsigned long long)start); fclose(p); return 0; } continue; }
      int ok = 0;
      for (int k = 0; k < 3; k++) ok += exec_history(o, a, idx).failed;
      h = exec_history(o, a, idx);
      write_replay(o.out + ".replay", o, h, "history", a, idx);
      printf("FAIL kind=%s confirmed=%d replay=%s.replay\n%s\n", h.kind.c_str(), ok, o.out.c_str(), h.msg.c_str());
      return 1;
    }
    f = h;
    if (!exec_tape(f.used, o.errfile, false).failed) fprintf(stderr, "pbt: tape replay differs\n");
    f = shrink(f, o.errfile, 25);
    int ok = 0;
    for (int k = 0; k < 3; k++) ok += exec_tape(f.used, o.errfile, false).failed;
    Outcome v = exec_tape(f.used, o.errfile, true);
    if (v.failed) { v.used = f.used; f = v; }
    write_replay(o.out + ".replay", o, f, "tape", idx, idx);
    printf("FAIL kind=%s confirmed=%d replay=%s.replay\n%s\n", f.kind.c_str(), ok, o.out.c_str(), f.msg.c_str());
    printf("CASE %s\n", f.notes.c_str());
    return 1;
  }
  return 0;
}

int pbt_main(int argc, char** argv) {
  Opt o;
  o.errfile = "/tmp/pbt_err";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") o.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--shard") o.shard = strtoull(val().c_str(), 0, 10);
    else if (a == "--cases") o.cases = strtoull(val().c_str(), 0, 10);
    else if (a == "--budget") o.budget = atof(val().c_str());
    else if (a == "--out") { o.out = val(); o.errfile = o.out + ".err"; }
    else if (a == "--replay") o.replay = val();
    else if (a == "--known") g_known.push_back(val());
    else if (a == "--only") o.only = val();
  }
  if (!o.only.empty()) for (auto& s : subs()) if (o.only != s.name) s.weight = 0;
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) { perror("mmap"); return 2; }
  if (!o.replay.empty()) return do_replay(o);
  return worker(o);
}
}  // namespace pbt

int main(int argc, char** argv) { return pbt::pbt_main(argc, argv); }
