// Conformance driver: executes recorded calls against the real library and
// records what was observed.  It judges nothing; the specification does.
//
//   driver run IN OUT TIMEOUT_MS           sequential session(s)
//   driver fresh IN OUT                    one process per call
//   driver plan OPS PLAN OUT               histories and schedules, see `plan`
//   driver soak OPS OUT NTHREADS CALLS SEED [WAVES]  long concurrent histories
//   driver early OPS OUT                   calls before main, then in main and in a thread
//   driver scan JOBS OUT NTHREADS          input selection, see scan.inc
//
// IN:  array of Req; OUT: array of Rsp (run) or of Ev.
#include "api.h"
#include "Cl.hpp"
#include "Cl1.hpp"
#include "Cl2.hpp"
#include "Cl3.hpp"
#include "Cl4.hpp"
#include "Cl5.hpp"
#include "Cl6.hpp"
#include "Li.hpp"
#include "Li2.hpp"
#include "Li3.hpp"
#include "Li4.hpp"
#include "Li5.hpp"
#include "Li6.hpp"
#include "Sl.hpp"
#include "eta.hpp"
#include "factorial.hpp"
#include "harmonic.hpp"
#include "zeta.hpp"
#include <atomic>
#include <cfenv>
#include <chrono>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <thread>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <sched.h>
#include <xmmintrin.h>

namespace pl = polylogarithm;

struct Ld { unsigned char b[16]; };
struct Req { uint32_t fn; uint32_t aux; int64_t n; Ld a, b; };
struct Rsp { uint32_t status; uint32_t flags; uint64_t nsec; Ld a, b; };
struct Ev  { uint32_t kind, thread, op, env, flags, pad; Ld a, b; };
struct Step { uint32_t kind, thread, op, env; };
enum { EV_CALL = 0, EV_RETURN = 1, EV_FRESH = 2, EV_SETENV = 3, EV_NEWPROC = 4, EV_ATOMIC = 5, EV_OBSERVED = 6 };

enum { ST_NONE = 0, ST_OK = 1, ST_CRASH = 2, ST_HANG = 3, ST_THROW = 4, ST_BADFN = 5, ST_SLOW = 6 };
enum { FL_ARG = 1, FL_ROUND = 2, FL_CTRL = 4 };

// processor time a call may take
static uint64_t slow_nsec = 1000000000ull;

static long double get(const Ld& l) { long double x; std::memset(&x, 0, sizeof x); std::memcpy(&x, l.b, 10); return x; }
static void put(Ld& l, long double x) { std::memset(l.b, 0, 16); std::memcpy(l.b, &x, 10); }

#define DECL_RD(f) extern "C" void f(double*, double*);
#define DECL_RF(f) extern "C" void f(float*, float*);
#define DECL_RL(f) extern "C" void f(long double*, long double*);
#define DECL_CD DECL_RD
#define DECL_CF DECL_RF
#define DECL_CL DECL_RL
#define DECL_ND(f)
#define DECL_NC(f)
#define DECL_NI(f)

// C++ bindings, same shape as the C ones
#define XR(b, f, T) extern "C" void b(T* x, T* r) { *r = f(*x); }
#define XC(b, f, T) extern "C" void b(T* x, T* r) { const std::complex<T> y = f(std::complex<T>(x[0], x[1])); r[0] = y.real(); r[1] = y.imag(); }
XR(x_li2_f, pl::Li2, float) XR(x_li2_d, pl::Li2, double) XR(x_li2_l, pl::Li2, long double)
XC(x_cli2_f, pl::Li2, float) XC(x_cli2_d, pl::Li2, double) XC(x_cli2_l, pl::Li2, long double)
XR(x_li3_d, pl::Li3, double) XC(x_cli3_d, pl::Li3, double) XC(x_cli3_l, pl::Li3, long double)
XR(x_li4_d, pl::Li4, double) XC(x_cli4_d, pl::Li4, double) XC(x_cli4_l, pl::Li4, long double)
XC(x_cli5_d, pl::Li5, double) XC(x_cli5_l, pl::Li5, long double)
XC(x_cli6_d, pl::Li6, double) XC(x_cli6_l, pl::Li6, long double)
XR(x_cl1_d, pl::Cl1, double)
XR(x_cl2_d, pl::Cl2, double) XR(x_cl2_l, pl::Cl2, long double)
XR(x_cl3_d, pl::Cl3, double) XR(x_cl3_l, pl::Cl3, long double)
XR(x_cl4_d, pl::Cl4, double) XR(x_cl4_l, pl::Cl4, long double)
XR(x_cl5_d, pl::Cl5, double) XR(x_cl5_l, pl::Cl5, long double)
XR(x_cl6_d, pl::Cl6, double) XR(x_cl6_l, pl::Cl6, long double)
static void x_lin_d(int64_t n, double* x, double* r) { const std::complex<double> y = pl::Li(n, std::complex<double>(x[0], x[1])); r[0] = y.real(); r[1] = y.imag(); }
static void x_cln_d(int64_t n, double* x, double* r) { *r = pl::Cl(n, *x); }
static void x_sln_d(int64_t n, double* x, double* r) { *r = pl::Sl(n, *x); }
static void x_zeta(int64_t n, double* r) { *r = pl::zeta(n); }
static void x_neta(int64_t n, double* r) { *r = pl::neg_eta(n); }
static void x_ifac(int64_t n, double* r) { *r = pl::inv_fac(n); }
static void x_harm(int64_t n, double* r) { *r = pl::harmonic(n); }

#define DECL(i, f, k) DECL_##k(f)
API(DECL)

template <class T, class F> static void ld(const Req& q, Rsp& s, int dim, F f)
{
   // the argument lives in caller storage; guard words on both sides
   struct { T g0; T x[2]; T g1; } arg, res;
   std::memset(static_cast<void*>(&arg), 0x5a, sizeof arg);
   std::memset(static_cast<void*>(&res), 0x5a, sizeof res);
   arg.x[0] = static_cast<T>(get(q.a));
   if (dim == 2) { arg.x[1] = static_cast<T>(get(q.b)); }
   auto saved = arg;
   std::memcpy(static_cast<void*>(&saved), static_cast<const void*>(&arg), sizeof arg);
   f(arg.x, res.x);
   // long double has 6 padding bytes: compare the 10 value bytes only
   const size_t w = sizeof(T) > 8 ? 10 : sizeof(T);
   for (int i = 0; i < dim; ++i) {
      if (std::memcmp(&arg.x[i], &saved.x[i], w) != 0) { s.flags |= FL_ARG; }
   }
   // nor may anything next to the argument or the result be written
   for (const T* g : { &arg.g0, &arg.g1, &res.g0, &res.g1, dim == 1 ? &arg.x[1] : &arg.g0, dim == 1 ? &res.x[1] : &arg.g0 }) {
      if (std::memcmp(g, &saved.g0, w) != 0) { s.flags |= FL_ARG; }
   }
   put(s.a, res.x[0]);
   put(s.b, dim == 2 ? res.x[1] : T(0));
}

static void call(const Req& q, Rsp& s)
{
   std::memset(static_cast<void*>(&s), 0, sizeof s);
   const int rm = std::fegetround();
   const unsigned mx = _mm_getcsr() & 0xffc0u;
   unsigned short cw = 0, cw1 = 0;
   __asm__ __volatile__("fnstcw %0" : "=m"(cw));
   uint32_t st = ST_OK;
   timespec t0, t1;
   clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t0);
   try {
      switch (q.fn) {
#define CASE_RD(f) ld<double>(q, s, 1, f); break;
#define CASE_RF(f) ld<float>(q, s, 1, f); break;
#define CASE_RL(f) ld<long double>(q, s, 1, f); break;
#define CASE_CD(f) ld<double>(q, s, 2, f); break;
#define CASE_CF(f) ld<float>(q, s, 2, f); break;
#define CASE_CL(f) ld<long double>(q, s, 2, f); break;
#define CASE_ND(f) ld<double>(q, s, 1, [&](double* x, double* r) { f(q.n, x, r); }); break;
#define CASE_NC(f) ld<double>(q, s, 2, [&](double* x, double* r) { f(q.n, x, r); }); break;
#define CASE_NI(f) ld<double>(q, s, 1, [&](double*, double* r) { f(q.n, r); }); break;
#define CASE(i, f, k) case i: CASE_##k(f)
         API(CASE)
         default: st = ST_BADFN;
      }
   } catch (...) {
      st = ST_THROW;
   }
   clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t1);
   s.nsec = (t1.tv_sec - t0.tv_sec)*1000000000ull + t1.tv_nsec - t0.tv_nsec;
   if (std::fegetround() != rm) { s.flags |= FL_ROUND; std::fesetround(rm); }
   if ((_mm_getcsr() & 0xffc0u) != mx) { s.flags |= FL_CTRL; _mm_setcsr((_mm_getcsr() & ~0xffc0u) | mx); }
   __asm__ __volatile__("fnstcw %0" : "=m"(cw1));
   if (cw1 != cw) { s.flags |= FL_CTRL; __asm__ __volatile__("fldcw %0" : : "m"(cw)); }
   if (st == ST_OK && s.nsec > slow_nsec) { st = ST_SLOW; }
   s.status = st;
}

template <class T> static std::vector<T> slurp(const char* p)
{
   std::vector<T> v;
   FILE* f = std::fopen(p, "rb");
   if (!f) { std::perror(p); std::exit(3); }
   T t;
   while (std::fread(&t, sizeof t, 1, f) == 1) { v.push_back(t); }
   std::fclose(f);
   return v;
}

static void spill(const char* p, const void* d, size_t n)
{
   FILE* f = std::fopen(p, "wb");
   if (!f || std::fwrite(d, 1, n, f) != n || std::fclose(f) != 0) { std::perror(p); std::exit(3); }
}

static int run(const char* in, const char* out, long timeout_ms, long limit_ms)
{
   const auto start = std::chrono::steady_clock::now();
   const auto q = slurp<Req>(in);
   const size_t n = q.size();
   const size_t bytes = n*sizeof(Rsp) + sizeof(std::atomic<uint64_t>) + 64;
   char* shm = static_cast<char*>(mmap(nullptr, bytes, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0));
   if (shm == MAP_FAILED) { std::perror("mmap"); return 3; }
   auto* pos = new (shm) std::atomic<uint64_t>(0);
   auto* rsp = reinterpret_cast<Rsp*>(shm + 64);
   unsigned crashes = 0, hangs = 0;   // calls after the third hang, or after the time limit, stay ST_NONE
   while (*pos < n && hangs < 3) {
      const pid_t pid = fork();
      if (pid < 0) { std::perror("fork"); return 3; }
      if (pid == 0) {
         while (*pos < n) {
            Rsp s;
            call(q[*pos], s);
            rsp[*pos] = s;
            ++*pos;
         }
         _exit(0);
      }
      uint64_t last = *pos;
      long idle = 0;
      for (;;) {
         int ws = 0;
         const pid_t w = waitpid(pid, &ws, WNOHANG);
         if (w == pid) {
            if (*pos < n) {
               // killed by a signal, or ended by a runtime check
               rsp[*pos].status = ST_CRASH;
               rsp[*pos].flags = WIFSIGNALED(ws) ? WTERMSIG(ws) : 0;
               ++*pos;
               if (++crashes > 2000) { hangs = 3; }
            }
            break;
         }
         usleep(2000);
         const uint64_t now = *pos;
         if (now != last) { last = now; idle = 0; } else { idle += 2; }
         const bool late = std::chrono::steady_clock::now() - start > std::chrono::milliseconds(limit_ms);
         if (late && idle <= timeout_ms) {
            kill(pid, SIGKILL);
            waitpid(pid, &ws, 0);
            hangs = 3;
            break;
         }
         if (idle > timeout_ms && now < n) {
            kill(pid, SIGKILL);
            waitpid(pid, &ws, 0);
            if (*pos == now) { rsp[now].status = ST_HANG; ++*pos; ++hangs; }
            break;
         }
      }
   }
   spill(out, rsp, n*sizeof(Rsp));
   return 0;
}

// ---------------------------------------------------------------- sessions (spec/session.qnt)
static void set_mode(uint32_t m)
{
   static const int modes[4] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
   std::fesetround(modes[m % 4]);
}

static Ev event(uint32_t kind, uint32_t thread, uint32_t op, uint32_t env)
{
   Ev e;
   std::memset(static_cast<void*>(&e), 0, sizeof e);
   e.kind = kind; e.thread = thread; e.op = op; e.env = env;
   return e;
}

static void result(Ev& e, const Rsp& s)
{
   e.flags = (s.flags & 7u) | (s.status != ST_OK && s.status != ST_SLOW ? 8u*s.status : 0);
   e.a = s.a; e.b = s.b;
}

// every operation in a process of its own, in the environment given by aux
static int fresh(const char* in, const char* out)
{
   const auto q = slurp<Req>(in);
   const size_t n = q.size();
   char* shm = static_cast<char*>(mmap(nullptr, n*sizeof(Rsp) + 64, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0));
   if (shm == MAP_FAILED) { std::perror("mmap"); return 3; }
   auto* rsp = reinterpret_cast<Rsp*>(shm);
   std::vector<Ev> ev;
   for (size_t i = 0; i < n; ++i) {
      const pid_t pid = fork();
      if (pid < 0) { std::perror("fork"); return 3; }
      if (pid == 0) {
         alarm(20);
         set_mode(q[i].aux);
         Rsp s;
         call(q[i], s);
         rsp[i] = s;
         _exit(0);
      }
      int ws = 0;
      waitpid(pid, &ws, 0);
      if (rsp[i].status == ST_NONE) { rsp[i].status = WIFSIGNALED(ws) && WTERMSIG(ws) == SIGALRM ? ST_HANG : ST_CRASH; }
      Ev e = event(EV_FRESH, 0, i, q[i].aux);
      result(e, rsp[i]);
      ev.push_back(e);
   }
   spill(out, ev.data(), ev.size()*sizeof(Ev));
   return 0;
}

// A worker thread of a plan.  CALL: the operation is repeated until its return is asked for, so that
// it overlaps with everything the plan does in between; all results that differ from the first are reported as well.
struct Worker {
   std::atomic<int> cmd{0};     // 0 idle, 1 one call, 2 repeated call, 3 stop repeating, 4 set mode, 5 end
   uint32_t op = 0, env = 0;
   Rsp rsp;
   std::vector<Rsp> others;
   std::thread th;
};

template <class P> static void spin(P done) { for (unsigned i = 0; !done(); ++i) { if (i > 2000) { sched_yield(); } } }

static void work(Worker& w, const std::vector<Req>& ops)
{
   for (;;) {
      spin([&] { return w.cmd != 0; });
      const int c = w.cmd;
      if (c == 1) { call(ops[w.op], w.rsp); }
      else if (c == 3) { call(ops[w.op], w.rsp); w.others.clear(); }   // asked to stop before it began
      else if (c == 2) {
         call(ops[w.op], w.rsp);
         w.others.clear();
         do {
            Rsp s;
            call(ops[w.op], s);
            if ((s.status != w.rsp.status || s.flags != w.rsp.flags || std::memcmp(&s.a, &w.rsp.a, 2*sizeof s.a) != 0) && w.others.size() < 4) { w.others.push_back(s); }
         } while (w.cmd == 2);
         // now 3
      }
      else if (c == 4) { set_mode(w.env); }
      else if (c == 5) { return; }
      w.cmd = 0;   // the coordinator waits for this after 1, 3, 4, and only 3 follows 2
   }
}

static void segment(const std::vector<Req>& ops, const Step* p, size_t n, std::vector<Ev>& log)
{
   const uint32_t NT = 8;
   std::vector<Worker> w(NT);
   std::vector<char> up(NT, 0);
   auto go = [&](uint32_t t, int c) {
      if (!up[t]) { up[t] = 1; w[t].th = std::thread([&w, t, &ops] { work(w[t], ops); }); }
      w[t].cmd = c;
   };
   auto wait = [&](uint32_t t) { spin([&] { return w[t].cmd == 0; }); };
   for (size_t i = 0; i < n; ++i) {
      const Step& s = p[i];
      const uint32_t t = s.thread % NT;
      Ev e = event(s.kind, t, s.op, s.env);
      switch (s.kind) {
         case EV_CALL: w[t].op = s.op; log.push_back(e); go(t, 2); break;
         case EV_RETURN: {
            w[t].cmd = 3; wait(t);
            result(e, w[t].rsp);
            log.push_back(e);
            for (auto& r : w[t].others) { Ev o = event(EV_OBSERVED, t, s.op, s.env); result(o, r); log.push_back(o); }
            break;
         }
         case EV_ATOMIC: w[t].op = s.op; go(t, 1); wait(t); result(e, w[t].rsp); log.push_back(e); break;
         case EV_SETENV: w[t].env = s.env; go(t, 4); wait(t); log.push_back(e); break;
         default: break;
      }
   }
   for (uint32_t t = 0; t < NT; ++t) { if (up[t]) { w[t].cmd = 5; w[t].th.join(); } }
}

// driver plan OPS PLAN OUT: executes the steps; each NEWPROC step starts a new process
static int plan(const char* opsf, const char* planf, const char* out)
{
   const auto ops = slurp<Req>(opsf);
   const auto st = slurp<Step>(planf);
   const int fd = open(out, O_CREAT|O_TRUNC|O_WRONLY|O_APPEND, 0644);
   if (fd < 0) { std::perror(out); return 3; }
   auto put_log = [&](const std::vector<Ev>& l) {
      const char* p = reinterpret_cast<const char*>(l.data());
      size_t left = l.size()*sizeof(Ev);
      while (left > 0) { const ssize_t k = write(fd, p, left); if (k <= 0) { _exit(3); } p += k; left -= k; }
   };
   for (size_t i = 0; i < st.size();) {
      size_t j = i + 1;
      while (j < st.size() && st[j].kind != EV_NEWPROC) { ++j; }
      const pid_t pid = fork();
      if (pid < 0) { std::perror("fork"); return 3; }
      if (pid == 0) {
         alarm(120);
         std::vector<Ev> log;
         log.push_back(event(EV_NEWPROC, 0, 0, 0));
         segment(ops, &st[i], j - i, log);
         put_log(log);
         _exit(0);
      }
      int ws = 0;
      waitpid(pid, &ws, 0);
      if (!WIFEXITED(ws) || WEXITSTATUS(ws) != 0) {
         // the process did not survive its history
         Ev e = event(EV_OBSERVED, 0, st[i].op, 0);
         e.flags = 8u*(WIFSIGNALED(ws) && WTERMSIG(ws) == SIGALRM ? ST_HANG : ST_CRASH);
         put_log({ event(EV_NEWPROC, 0, 0, 0), e });
      }
      i = j;
   }
   close(fd);
   return 0;
}

// driver soak OPS OUT NTHREADS CALLS SEED WAVES: long random histories of NTHREADS concurrent threads, WAVES times
// one after the other.  Recorded are the distinct (operation, flags, result) of all calls.
static int soak(const char* opsf, const char* out, unsigned nt, uint64_t calls, uint64_t seed, unsigned waves)
{
   const auto ops = slurp<Req>(opsf);
   const size_t n = ops.size();
   struct Seen { std::vector<Rsp> v; };
   std::vector<std::vector<Seen>> seen(nt, std::vector<Seen>(n));
   for (unsigned wave = 0; wave < waves; ++wave) {
   std::vector<std::thread> ts;
   std::atomic<unsigned> ready(0);
   for (unsigned t = 0; t < nt; ++t) {
      ts.emplace_back([&, t] {
         uint64_t x = (seed + 1000003ull*wave)*0x9e3779b97f4a7c15ull + (t + 1)*0xbf58476d1ce4e5b9ull;
         auto rnd = [&x] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x >> 11; };
         for (int i = 0; i < 20; ++i) { rnd(); }
         ++ready;
         spin([&] { return ready >= nt; });
         size_t k = rnd() % n;
         timespec t0, t1;
         clock_gettime(CLOCK_MONOTONIC, &t0);
         for (uint64_t i = 0; i < calls; ++i) {
            if (i % 256 == 0) {
               clock_gettime(CLOCK_MONOTONIC, &t1);
               if (t1.tv_sec - t0.tv_sec > 25) { break; }
            }
            const uint64_t u = rnd();
            switch (u % 8) {
               case 0: k = (u >> 3) % n; break;                        // anywhere
               case 1: break;                                          // again
               default: k = (k + n + (u >> 3) % 13 - 6) % n; break;    // related argument
            }
            Rsp s;
            call(ops[k], s);
            if (s.status == ST_SLOW) { s.status = ST_OK; }
            auto& v = seen[t][k].v;
            bool old = false;
            for (auto& r : v) { old = old || (r.status == s.status && r.flags == s.flags && std::memcmp(&r.a, &s.a, 2*sizeof s.a) == 0); }
            if (!old && v.size() < 8) { v.push_back(s); }
         }
      });
   }
   for (auto& t : ts) { t.join(); }
   }
   std::vector<Ev> log;
   for (size_t k = 0; k < n; ++k) {
      for (unsigned t = 0; t < nt; ++t) {
         for (auto& r : seen[t][k].v) {
            Ev e = event(EV_OBSERVED, t, k, 0);
            result(e, r);
            bool old = false;
            for (auto it = log.rbegin(); it != log.rend() && it->op == k && !old; ++it) { old = it->flags == e.flags && std::memcmp(&it->a, &e.a, 2*sizeof e.a) == 0; }
            if (!old) { log.push_back(e); }
         }
      }
   }
   spill(out, log.data(), log.size()*sizeof(Ev));
   return 0;
}

// driver early OPS OUT: all operations are called by a constructor that runs before the initialisers of the library,
// then again in main and in another thread
static Req* early_ops = nullptr;
static Ev* early_log = nullptr;
static size_t early_n = 0;
__attribute__((constructor(101))) static void before_main(int argc, char** argv, char**)
{
   if (argc != 4 || std::strcmp(argv[1], "early")) { return; }
   alarm(120);
   const int fd = open(argv[2], O_RDONLY);
   struct stat sb;
   if (fd < 0 || fstat(fd, &sb) != 0) { _exit(3); }
   early_n = sb.st_size/sizeof(Req);
   early_ops = static_cast<Req*>(std::malloc(sb.st_size + 1));
   early_log = static_cast<Ev*>(std::calloc(early_n + 1, sizeof(Ev)));
   char* p = reinterpret_cast<char*>(early_ops);
   for (size_t left = early_n*sizeof(Req); left > 0;) { const ssize_t k = read(fd, p, left); if (k <= 0) { _exit(3); } p += k; left -= k; }
   close(fd);
   for (size_t i = 0; i < early_n; ++i) {
      Rsp s;
      call(early_ops[i], s);
      early_log[i] = event(EV_ATOMIC, 0, i, 0);
      result(early_log[i], s);
   }
}

static int early(const char* out)
{
   std::vector<Ev> log;
   log.push_back(event(EV_NEWPROC, 0, 0, 0));
   log.insert(log.end(), early_log, early_log + early_n);
   auto all = [&](uint32_t t) {
      for (size_t i = 0; i < early_n; ++i) {
         Rsp s;
         call(early_ops[i], s);
         Ev e = event(EV_ATOMIC, t, i, 0);
         result(e, s);
         log.push_back(e);
      }
   };
   all(0);
   std::thread th([&] { all(1); });
   th.join();
   spill(out, log.data(), log.size()*sizeof(Ev));
   return 0;
}

#include "scan.inc"

int main(int argc, char** argv)
{
   if (argc == 6 && !std::strcmp(argv[1], "run")) { return run(argv[2], argv[3], std::atol(argv[4]), std::atol(argv[5])); }
   if (argc == 4 && !std::strcmp(argv[1], "fresh")) { return fresh(argv[2], argv[3]); }
   if (argc == 5 && !std::strcmp(argv[1], "plan")) { return plan(argv[2], argv[3], argv[4]); }
   if ((argc == 7 || argc == 8) && !std::strcmp(argv[1], "soak")) {
      return soak(argv[2], argv[3], std::atoi(argv[4]), std::strtoull(argv[5], nullptr, 10), std::strtoull(argv[6], nullptr, 10), argc == 8 ? std::atoi(argv[7]) : 1);
   }
   if (argc == 4 && !std::strcmp(argv[1], "early")) { return early(argv[3]); }
   if (argc == 6 && !std::strcmp(argv[1], "scan")) { return scan(argv[2], argv[3], std::atoi(argv[4]), std::atof(argv[5])); }
   std::fprintf(stderr, "usage: see driver.cpp\n");
   return 3;
}
