// main() of every property binary: runs generated cases, single cases, case histories, and shrinks failures.
#ifndef VM_HARNESS_DRIVER_HPP
#define VM_HARNESS_DRIVER_HPP
#include "core.hpp"
#include <algorithm>
#include <csignal>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
#include <typeinfo>

static const size_t CASE_BYTES = 3000;

static inline uint64_t splitmix(uint64_t & x) { uint64_t z = (x += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static void case_bytes(uint64_t seed, uint64_t idx, std::vector<uint8_t> & b)
{
  uint64_t x = seed * 0x2545F4914F6CDD1DULL + fnv(property_rule), y = splitmix(x) ^ (idx * 0xD6E8FEB86659FD93ULL + 0x632BE59BD9B4E019ULL);
  x = splitmix(y); x ^= splitmix(y) << 1;           // a state of its own for every case: no case is a shifted copy of another
  b.resize(CASE_BYTES);
  for (size_t i = 0; i < b.size(); i += 8) { uint64_t z = splitmix(x); memcpy(&b[i], &z, std::min<size_t>(8, b.size() - i)); }
}

// returns true when the property held
static bool one(std::vector<uint8_t> const & b, Case & c, std::string & msg, size_t * used = 0)
{
  Src s(b.data(), b.size());
  bool ok = true;
  try { property(s, c); }
  catch (Discard const &) { c.nontrivial = false; c.label("discarded"); }
  catch (Fail const & f) { msg = f.msg; ok = false; }
  catch (std::exception const & e) { msg = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what(); ok = false; }
  catch (const char * t) { msg = std::string("unexpected exception (text): ") + t; ok = false; }
  catch (...) { msg = "unexpected exception"; ok = false; }
  if (used) *used = s.i;
  return ok;
}

static void on_prof(int) { const char t[] = "HANG: one case used more than its CPU limit\n"; if (write(2, t, sizeof t - 1)) {} _exit(43); }
static void arm(int sec) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &t, 0); }
static int case_cpu_limit = 20;

static std::vector<uint8_t> read_file(const char * f)
{ std::vector<uint8_t> r; FILE * p = fopen(f, "rb"); if (!p) { perror(f); exit(2); } int ch; while ((ch = fgetc(p)) != EOF) r.push_back(uint8_t(ch)); fclose(p); return r; }
static void write_file(const char * f, std::vector<uint8_t> const & b) { FILE * p = fopen(f, "wb"); fwrite(b.data(), 1, b.size(), p); fclose(p); }
static std::string oneline(std::string s) { for (auto & ch : s) if (ch == '\n' || ch == '\r') ch = ' '; if (s.size() > 1500) s = s.substr(0, 1500) + "..."; return s; }

// run one case in a child; 0 = held, 42 = property failure, 43 = hang, 44 = crash
static int in_child(std::vector<uint8_t> const & b, std::string & msg, size_t * used = 0)
{
  int fd[2]; if (pipe(fd)) exit(2);
  fflush(0);
  pid_t p = fork();
  if (p == 0)
  {
    close(fd[0]);
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2);
    signal(SIGPROF, on_prof); arm(case_cpu_limit);
    Case c; std::string m; size_t u = 0;
    bool ok = one(b, c, m, &u);
    m = std::string((char *)&u, sizeof u) + oneline(m);
    if (write(fd[1], m.data(), m.size())) {}
    _exit(ok ? 0 : 42);
  }
  close(fd[1]);
  std::string m; char buf[4096]; ssize_t k;
  while ((k = read(fd[0], buf, sizeof buf)) > 0) m.append(buf, size_t(k));
  close(fd[0]);
  int st = 0; waitpid(p, &st, 0);
  if (m.size() >= sizeof(size_t)) { if (used) memcpy(used, m.data(), sizeof(size_t)); m = m.substr(sizeof(size_t)); }
  msg = m;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 42) return 42;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 43) { msg = "the case does not finish within its CPU limit"; return 43; }
  msg = "crash (memory error, undefined behaviour, failed assertion or abort)"; return 44;
}

static int shrink(std::vector<uint8_t> b, const char * out, int budget, double maxsec)
{
  struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  auto elapsed = [&]() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec - t0.tv_sec) + 1e-9 * double(t.tv_nsec - t0.tv_nsec); };
  std::string msg; size_t used = b.size();
  int kind = in_child(b, msg, &used);
  if (kind == 0) return 3;
  if (kind == 43) case_cpu_limit = 5;
  if (kind == 42 && used < b.size()) b.resize(used);
  int tries = 0;
  auto attempt = [&](std::vector<uint8_t> const & cand) -> bool {
    if (tries >= budget || elapsed() > maxsec) return false;
    ++tries; std::string m; size_t u = cand.size();
    int k = in_child(cand, m, &u);
    if (k == kind) { b = cand; if (k == 42 && u < b.size()) b.resize(u); msg = m; return true; }
    return false;
  };
  bool progress = true;
  while (progress && tries < budget && elapsed() < maxsec)
  {
    progress = false;
    for (size_t keep = b.size() / 2; keep > 0 && keep < b.size(); )      // truncation
    { std::vector<uint8_t> c(b.begin(), b.begin() + long(keep)); if (attempt(c)) { progress = true; keep = b.size() / 2; } else { size_t nk = keep + (b.size() - keep) / 2; if (nk <= keep || b.size() - nk < 2) break; keep = nk; } }
    for (size_t len : { size_t(64), size_t(16), size_t(8), size_t(4), size_t(2), size_t(1) })
      for (size_t i = 0; i + len <= b.size(); )
      {
        std::vector<uint8_t> c(b); c.erase(c.begin() + long(i), c.begin() + long(i + len));
        if (attempt(c)) { progress = true; continue; }
        bool zero = true; for (size_t j = 0; j < len; ++j) zero = zero && b[i + j] == 0;
        if (!zero) { c = b; std::fill(c.begin() + long(i), c.begin() + long(i + len), 0); if (attempt(c)) progress = true; }
        i += len;
        if (tries >= budget) break;
      }
    for (size_t i = 0; i < b.size(); ++i)
      if (b[i] > 1) { std::vector<uint8_t> c(b); c[i] = uint8_t(b[i] / 2); if (attempt(c)) { progress = true; --i; } else { c = b; c[i] = uint8_t(b[i] - 1); if (attempt(c)) { progress = true; --i; } } }
  }
  write_file(out, b);
  printf("KIND %d\nMSG %s\nTRIES %d\n", kind, msg.c_str(), tries);
  return 0;
}

#ifdef VM_LIBFUZZER      // coverage-guided search (thorough tier); a failing input is written by libFuzzer and confirmed by the other builds
extern "C" int LLVMFuzzerTestOneInput(const uint8_t * d, size_t n)
{
  std::vector<uint8_t> b(d, d + n); Case c; std::string m;
  if (!one(b, c, m)) { fprintf(stderr, "FAIL %s\n", oneline(m).c_str()); abort(); }
  return 0;
}
#else
int main(int argc, char ** argv)
{
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "rule") { puts(property_rule); return 0; }
  if (mode == "exec" && argc >= 3)     // exec FILE: one case, verbosely
  {
    signal(SIGPROF, on_prof); arm(case_cpu_limit);
    Case c; std::string m; std::vector<uint8_t> b = read_file(argv[2]);
    bool ok = one(b, c, m);
    printf("CASE %s\n%s\n", oneline(c.desc).c_str(), ok ? "HELD" : ("FAIL " + oneline(m)).c_str());
    return ok ? 0 : 42;
  }
  if (mode == "shrink" && argc >= 6) return shrink(read_file(argv[2]), argv[3], atoi(argv[4]), atof(argv[5]));
  if (mode == "bytes" && argc >= 5) { std::vector<uint8_t> b; case_bytes(strtoull(argv[2], 0, 10), strtoull(argv[3], 0, 10), b); write_file(argv[4], b); return 0; }
  if (mode == "history" && argc >= 6)  // history SEED FIRST STRIDE LAST: the cases FIRST, FIRST+STRIDE, .., LAST in one process
  {
    uint64_t seed = strtoull(argv[2], 0, 10), first = strtoull(argv[3], 0, 10), stride = strtoull(argv[4], 0, 10), last = strtoull(argv[5], 0, 10);
    signal(SIGPROF, on_prof);
    std::vector<uint8_t> b;
    for (uint64_t i = first; i <= last; i += stride)
    {
      arm(case_cpu_limit); case_bytes(seed, i, b);
      Case c; std::string m;
      if (!one(b, c, m)) { printf("CASE %s\nFAIL %s (case %llu)\n", oneline(c.desc).c_str(), oneline(m).c_str(), (unsigned long long)i); return 42; }
    }
    puts("HELD"); return 0;
  }
  if (mode == "run" && argc >= 8)      // run SEED FIRST STRIDE END MAXSEC OUTPREFIX
  {
    uint64_t seed = strtoull(argv[2], 0, 10), first = strtoull(argv[3], 0, 10), stride = strtoull(argv[4], 0, 10), end = strtoull(argv[5], 0, 10);
    double maxsec = atof(argv[6]); std::string out = argv[7];
    int pfd = open((out + ".progress").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    signal(SIGPROF, on_prof);
    std::vector<uint64_t> hashes; std::map<std::string, long> labels; std::vector<std::string> samples;
    uint64_t cases = 0, nontriv = 0, sumlen = 0; struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    std::vector<uint8_t> b; int rc = 0; std::string failmsg, faildesc; uint64_t failidx = 0; bool timed = false;
    for (uint64_t i = first; i < end; i += stride)
    {
      if (pwrite(pfd, &i, sizeof i, 0) != sizeof i) return 2;
      arm(case_cpu_limit); case_bytes(seed, i, b);
      Case c; std::string m; size_t used = 0;
      bool ok = one(b, c, m, &used);
      ++cases; sumlen += used;
      for (auto l : c.labels) ++labels[l];
      if (c.nontrivial) { ++nontriv; if (hashes.size() < 3000000) hashes.push_back(fnv(c.desc)); if (samples.size() < 4 && (cases % 7 == 3 || samples.empty())) samples.push_back(oneline(c.desc)); }
      if (!ok) { rc = 42; failmsg = m; faildesc = c.desc; failidx = i; break; }
      if ((cases & 63) == 0) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); if (double(t.tv_sec - t0.tv_sec) > maxsec) { timed = true; break; } }
    }
    std::sort(hashes.begin(), hashes.end()); hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
    FILE * h = fopen((out + ".hash").c_str(), "wb"); fwrite(hashes.data(), 8, hashes.size(), h); fclose(h);
    FILE * f = fopen((out + ".stat").c_str(), "w");
    fprintf(f, "cases %llu\nnontrivial %llu\nbytes %llu\ntimed %d\n", (unsigned long long)cases, (unsigned long long)nontriv, (unsigned long long)sumlen, int(timed));
    for (auto & l : labels) fprintf(f, "label %ld %s\n", l.second, l.first.c_str());
    for (auto & x : samples) fprintf(f, "sample %s\n", x.c_str());
    if (rc) fprintf(f, "failidx %llu\nfailmsg %s\nfaildesc %s\n", (unsigned long long)failidx, oneline(failmsg).c_str(), oneline(faildesc).c_str());
    fclose(f);
    return rc;
  }
  fprintf(stderr, "usage: run|exec|shrink|history|bytes|rule\n");
  return 2;
}
#endif
#endif
