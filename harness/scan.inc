// Input selection.  `scan` evaluates millions of arguments and keeps those at
// which the implementation looks least consistent with itself (two bindings or
// precisions differ, or the duplication formula is violated).  It decides
// nothing: the selected arguments are recorded and judged by the specification.

struct Job {                 // 96 bytes
   uint32_t rel, fn, fn2, mode;
   int64_t n;
   uint64_t seed, count;
   uint32_t topk, pad;
   double lo, hi, cx, cy, tlo, thi;
};
struct Hit { // fn: which of the points of the relation this is
   uint32_t fn, job; int64_t n; double metric; Ld a, b; uint64_t pad; };   // 64 bytes

typedef long double R;
typedef std::complex<R> Z;

struct Rng {
   uint64_t s;
   uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30))*0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27))*0x94d049bb133111ebull; return z ^ (z >> 31); }
   double u() { return (next() >> 11)*0x1p-53; }
   R ul() { return next()*0x1p-64L; }
};

static int fmt_of(uint32_t fn)
{
   switch (fn) {
#define FMT_RD 1
#define FMT_CD 1
#define FMT_RF 0
#define FMT_CF 0
#define FMT_RL 2
#define FMT_CL 2
#define FMT_ND 1
#define FMT_NC 1
#define FMT_NI 1
#define FCASE(i, f, k) case i: return FMT_##k;
      API(FCASE)
   }
   return 1;
}
static bool is_cplx(uint32_t fn)
{
   switch (fn) {
#define CX_RD false
#define CX_CD true
#define CX_RF false
#define CX_CF true
#define CX_RL false
#define CX_CL true
#define CX_ND false
#define CX_NC true
#define CX_NI false
#define CXCASE(i, f, k) case i: return CX_##k;
      API(CXCASE)
   }
   return false;
}

template <class T> static Z ev1(uint32_t fn, int64_t n, Z z)
{
   T x[2] = { static_cast<T>(z.real()), static_cast<T>(z.imag()) }, r[2] = { 0, 0 };
   switch (fn) {
#define EV_RD(f) f((double*)x, (double*)r); break;
#define EV_CD EV_RD
#define EV_RF(f) f((float*)x, (float*)r); break;
#define EV_CF EV_RF
#define EV_RL(f) f((long double*)x, (long double*)r); break;
#define EV_CL EV_RL
#define EV_ND(f) f(n, (double*)x, (double*)r); break;
#define EV_NC(f) f(n, (double*)x, (double*)r); break;
#define EV_NI(f) f(n, (double*)r); break;
#define EVCASE(i, f, k) case i: EV_##k(f)
      API(EVCASE)
   }
   return Z(r[0], r[1]);
}
static Z ev(uint32_t fn, int64_t n, Z z)
{
   switch (fmt_of(fn)) { case 0: return ev1<float>(fn, n, z); case 2: return ev1<long double>(fn, n, z); }
   return ev1<double>(fn, n, z);
}
static R rnd(R x, int f) { volatile float a; volatile double b; if (f == 0) { a = x; return a; } if (f == 1) { b = x; return b; } return x; }
static R mag(Z z) { return std::max(std::fabs(z.real()), std::fabs(z.imag())); }
static bool fin(Z z) { return std::isfinite(z.real()) && std::isfinite(z.imag()); }

// round numbers: dyadic and decimal fractions, powers of two and ten, well-known constants, and their neighbours
static R round_number(Rng& g, int f)
{
   static const R C[] = { 3.14159265358979323846264338327950288L, 2.71828182845904523536028747135266250L, 0.707106781186547524400844362104849039L,
      0.866025403784438646763723170752936183L, 0.693147180559945309417232121458176568L, 0.618033988749894848204586834365638118L,
      1.61803398874989484820458683436563812L, 0.367879441171442321595523770161460867L, 1.41421356237309504880168872420969808L,
      1.73205080756887729352744634150587237L, 0.381966011250105151795413165634361882L, 0.541196100146196984399723205366389420L,
      0.915965594177219015054603514932384110L, 1.20205690315959428539973816151144999L, 0.414213562373095048801688724209698079L };
   R x = 0;
   switch (g.next() % 9) {
      case 0: x = static_cast<R>(g.next() % 41); break;
      case 1: x = static_cast<R>(g.next() % 257)/static_cast<R>(1u << g.next() % 9); break;
      case 2: x = static_cast<R>(g.next() % 201)/10; break;
      case 3: x = static_cast<R>(g.next() % 1001)/100; break;
      case 4: x = std::exp2(static_cast<R>(static_cast<int>(g.next() % 81) - 40)); break;
      case 5: x = std::pow(R(10), static_cast<R>(static_cast<int>(g.next() % 41) - 20)); break;
      case 6: x = C[g.next() % (sizeof C/sizeof C[0])]*static_cast<R>(1 + g.next() % 4)/static_cast<R>(1 + g.next() % 4); break;
      case 7: x = C[0]*static_cast<R>(g.next() % 25)/static_cast<R>(1 + g.next() % 12); break;
      default: x = static_cast<R>(1 + g.next() % 40)/static_cast<R>(1 + g.next() % 40);
   }
   x = rnd(x, f);
   if (g.next() % 4 == 0) {
      const R far = g.next() % 2 ? 1e30L : -1e30L;
      for (unsigned k = 1 + g.next() % 3; k; --k) {
         x = f == 0 ? std::nextafter(static_cast<float>(x), static_cast<float>(far)) : f == 1 ? std::nextafter(static_cast<double>(x), static_cast<double>(far)) : std::nextafter(x, far);
      }
   }
   return g.next() % 2 ? x : -x;
}

static Z point(const Job& j, Rng& g, int f, bool cx)
{
   const R PIL = 3.14159265358979323846264338327950288L;
   R x = 0, y = 0;
   switch (j.mode) {
      case 0: x = j.lo + (j.hi - (R)j.lo)*g.ul(); break;                                    // real, uniform
      case 1: x = std::exp2(j.lo + (j.hi - j.lo)*g.ul())*(g.u() < 0.5 ? -1 : 1); break;      // real, log-uniform (log2)
      case 2: {                                                                              // polar
         const R r = std::exp2(j.lo + (j.hi - (R)j.lo)*g.ul()), t = j.tlo + (j.thi - (R)j.tlo)*g.ul();
         x = r*std::cos(t); y = r*std::sin(t); break;
      }
      case 3: {                                                                              // around (cx,cy), distance 2^lo..2^hi
         const R r = std::exp2(j.lo + (j.hi - (R)j.lo)*g.ul()), t = j.tlo + (j.thi - (R)j.tlo)*g.ul();
         x = j.cx + r*std::cos(t); y = j.cy + r*std::sin(t); break;
      }
      case 4: {                                                                              // independent magnitudes (log2)
         x = std::exp2(j.lo + (j.hi - (R)j.lo)*g.ul())*(g.u() < 0.5 ? -1 : 1);
         y = std::exp2(j.tlo + (j.thi - (R)j.tlo)*g.ul())*(g.u() < 0.5 ? -1 : 1); break;
      }
      case 5: {                                                                              // |log z| = about cx, relative distance 2^lo..2^hi
         const R r = j.cx*(1 + std::exp2(j.lo + (j.hi - (R)j.lo)*g.ul())*(g.u() < 0.5 ? -1 : 1)), t = 2*PIL*g.ul();
         const R l = r*std::cos(t), p = r*std::sin(t);
         x = std::exp(l)*std::cos(p); y = std::exp(l)*std::sin(p); break;
      }
      case 6: {                                                                              // |z - cx| near cy: circle seam
         const R r = j.cy*(1 + std::exp2(j.lo + (j.hi - (R)j.lo)*g.ul())*(g.u() < 0.5 ? -1 : 1)), t = 2*PIL*g.ul();
         x = j.cx + r*std::cos(t); y = r*std::sin(t); break;
      }
      case 7: {                                                                              // Re z near cx, Im log-uniform
         x = j.cx + std::exp2(j.lo + (j.hi - (R)j.lo)*g.ul())*(g.u() < 0.5 ? -1 : 1);
         y = std::exp2(j.tlo + (j.thi - (R)j.tlo)*g.ul())*(g.u() < 0.5 ? -1 : 1); break;
      }
      case 8: {
         x = round_number(g, f); y = round_number(g, f);
         switch (g.next() % 8) {
            case 0: y = x; break;
            case 1: y = -x; break;
            case 2: y = g.u() < 0.5 ? 0.0L : -0.0L; break;
            case 3: x = g.u() < 0.5 ? 0.0L : -0.0L; break;
            case 4: y = std::sqrt(std::fabs(1 - x*x)); break;
            default: break;
         }
         break;
      }
   }
   if (!cx) { y = 0; }
   return Z(rnd(x, f), rnd(y, f));
}

// what errors are measured against for Clausen-type functions
static R clscale(int64_t n, R x, R v)
{
   const R PI2L = 6.28318530717958647692528676655900577L;
   R d = std::fabs(std::remainder(x, PI2L));
   if (d == 0) { d = 1e-4900L; }
   const R s = n >= 3 ? 1.7L : n == 2 ? std::fabs(std::log(d)) + 3.2L : 1/d;
   return std::fabs(v) + std::fabs(x)*s;
}

static bool circular(uint32_t fn) { const unsigned b = fn % 40; return (b >= 17 && b <= 27) || b == 29 || b == 30; }

// ln k
static const std::vector<R> LOGS = [] { std::vector<R> v(1600); for (int k = 1; k < 1600; ++k) { v[k] = std::log(static_cast<R>(k)); } return v; }();

// what a thread is doing: the watchdog below reports the argument of a call that does not return
struct Beat { std::atomic<uint64_t> n{0}; std::atomic<bool> done{false}; uint32_t job = 0; Z z; };

static std::atomic<bool> stop_scan(false);

// a thread that crashes is left waiting: the watchdog selects its argument
static void park(int) { for (;;) { pause(); } }

static void scan_job(const Job& j, uint32_t ji, std::vector<Hit>& out, Beat& beat)
{
   Rng g{j.seed};
   const int f = std::min(fmt_of(j.fn), j.rel == 1 ? fmt_of(j.fn2) : 9);
   const R eps = f == 0 ? 0x1p-23L : f == 1 ? 0x1p-52L : 0x1p-63L;
   const R tiny = f == 0 ? 0x1p-149L : f == 1 ? 0x1p-1074L : 0x1p-16445L;
   const bool cx = (is_cplx(j.fn) && j.rel != 5) || (j.rel == 1 && is_cplx(j.fn2));
   const bool bothcx = j.rel == 1 ? (is_cplx(j.fn) && is_cplx(j.fn2)) : cx;
   const bool ci = circular(j.fn);
   const unsigned buckets = std::max(1u, j.topk);
   struct Best { R metric; unsigned ns; Z side[3]; };
   std::vector<Best> best(buckets, Best{-1, 0, {}});
   Z side[3];
   std::vector<R> weight;
   if (j.rel == 6) { for (R l : LOGS) { weight.push_back(std::exp(-static_cast<R>(j.n)*l)); } }
   for (uint64_t i = 0; i < j.count && !stop_scan.load(std::memory_order_relaxed); ++i) {
      Z z = point(j, g, f, cx && bothcx);
      if (z == Z(0, 0)) { continue; }
      beat.job = ji; beat.z = z; beat.n.fetch_add(1);
      R m = 0;
      unsigned ns = 1;
      side[0] = z;
      if (j.rel == 1) {
         const Z u = ev(j.fn, j.n, z), v = ev(j.fn2, j.n, z);
         Z d = u - v;
         R sc = ci ? clscale(j.n, z.real(), u.real()) : std::max(mag(u), mag(v));
         if (!bothcx) { d = Z(d.real(), 0); }
         if (fin(u) != fin(v)) { m = sc < 1e30L || std::isnan(mag(u)) || std::isnan(mag(v)) ? 1e300L : 0; }
         else if (fin(u)) { m = (mag(d) - 8*tiny)/(eps*sc + tiny); }
      } else if (j.rel == 2) {
         // conjugation
         const Z u = ev(j.fn, j.n, z), v = std::conj(ev(j.fn, j.n, std::conj(z)));
         if (z.imag() == 0) { continue; }
         const R sc = std::max(mag(u), mag(v));
         if (fin(u) != fin(v)) { m = sc < 1e30L || std::isnan(mag(u)) || std::isnan(mag(v)) ? 1e300L : 0; }
         else if (fin(u)) { m = (mag(u - v) - 8*tiny)/(eps*sc + tiny); }
      } else if (j.rel == 3) {
         // parity: fn2 != 0 marks odd functions
         const R u = ev(j.fn, j.n, z).real(), v = (j.fn2 ? -1 : 1)*ev(j.fn, j.n, -z).real();
         if (std::isfinite(u) != std::isfinite(v)) { m = 1e300L; }
         else if (std::isfinite(u)) { m = (std::fabs(u - v) - 8*tiny)/(eps*clscale(j.n, z.real(), u) + tiny); }
      } else if (j.rel == 5) {
         // unit circle: z.real() is the angle
         const double x = static_cast<double>(z.real());
         z = Z(x, 0);
         const Z u = ev(j.fn, j.n, Z(std::cos(x), std::sin(x)));
         double xx = x, c = 0, t = 0;
         x_cln_d(j.n, &xx, &c); x_sln_d(j.n, &xx, &t);
         const Z v = j.n % 2 ? Z(c, t) : Z(t, c);
         if (std::isfinite(c) && std::isfinite(t)) {
            m = fin(u) ? mag(u - v)/(eps*(2 + mag(u) + 2*clscale(j.n, x, 0) + clscale(j.n, 1, 0))) : 1e300L;
         }
      } else if (j.rel == 6) {
         // inside the unit disk: the defining series
         const Z u = ev(j.fn, j.n, z);
         const bool ld = f == 2;
         Z p = z, su = z, sd = z;
         const R az = std::abs(z);
         if (!(az < 0.93L)) { continue; }
         for (int k = 2; k < 1500; ++k) {
            p *= z;
            const Z t = p*weight[k];
            su += t; sd += t*static_cast<R>(k);
            if (j.n >= 0 || k > -j.n*16) { if (mag(t)*k < 1e-20L*mag(su)) { break; } }
         }
         const R sc = mag(su) + (j.n < 0 ? mag(sd) : 0);
         if (!fin(su)) { continue; }
         m = fin(u) ? (mag(u - su) - 8*tiny)/((ld ? 4 : 1)*eps*sc + tiny) : (sc < 1e300L ? 1e300L : 0);
      } else if (ci) {
         // f(x) + f(x + pi) = 2^(1-n) f(2x)
         const R x = z.real(), PIL = 3.14159265358979323846264338327950288L;
         const R y = rnd(x + PIL, f), w = rnd(2*x, f);
         const R a = ev(j.fn, j.n, Z(x, 0)).real(), b = ev(j.fn, j.n, Z(y, 0)).real(), c = ev(j.fn, j.n, Z(w, 0)).real();
         side[1] = Z(y, 0); side[2] = Z(w, 0); ns = 3;
         const R k = std::exp2(R(1) - j.n);
         const R sc = clscale(j.n, x, a) + clscale(j.n, y, b) + k*clscale(j.n, w, c);
         m = std::isfinite(a + b + c) ? (std::fabs(a + b - k*c) - 8*tiny)/(eps*sc + tiny) : (j.n == 1 ? 0 : 1e300L);
      } else {
         // Li(z) + Li(-z) = 2^(1-n) Li(z^2), z^2 rounded: needs |Li_(n-1)|
         const Z q = z*z, w(rnd(q.real(), f), rnd(q.imag(), f));
         if (!fin(w) || mag(w) < tiny*1e10L) { continue; }
         const Z a = ev(j.fn, j.n, z), b = ev(j.fn, j.n, -z), c = ev(j.fn, j.n, w);
         side[1] = -z; side[2] = w; ns = 3;
         const R k = std::exp2(R(1) - j.n);
         // crude bound of the effect of rounding z^2
         const R l = std::max(std::abs(std::log(w)), R(1e-30L));
         const R sc = mag(a) + mag(b) + k*mag(c)*(1 + std::min(R(100), (1 + std::fabs((R)j.n))/l));
         m = fin(a) && fin(b) && fin(c) ? (mag(a + b - k*c) - 8*tiny)/(eps*sc + tiny) : (sc < 1e200L ? 1e300L : 0);
      }
      if (m != m) { m = 1e300L; }
      // keep the worst of every bucket; a bucket is a slice of the argument's hash so that the hits spread
      Best& h = best[(i*2654435761u >> 7) % buckets];
      if (m > h.metric) { h.metric = m; h.ns = ns; std::copy(side, side + 3, h.side); }
   }
   for (auto& b : best) {
      for (unsigned k = 0; k < b.ns; ++k) {
         Hit h;
         std::memset(static_cast<void*>(&h), 0, sizeof h);
         h.fn = k; h.job = ji; h.n = j.n; h.metric = static_cast<double>(std::min(b.metric, R(1e300L)));
         put(h.a, b.side[k].real()); put(h.b, b.side[k].imag());
         out.push_back(h);
      }
   }
}

static int scan(const char* in, const char* out, unsigned nt, double limit)
{
   struct sigaction sa;
   std::memset(static_cast<void*>(&sa), 0, sizeof sa);
   sa.sa_handler = park;
   sa.sa_flags = SA_ONSTACK | SA_NODEFER;
   for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) { sigaction(s, &sa, nullptr); }
   const auto jobs = slurp<Job>(in);
   std::atomic<size_t> next(0);
   std::vector<std::vector<Hit>> res(nt);
   std::vector<Beat> beats(nt);
   std::vector<std::thread> ts;
   for (unsigned t = 0; t < nt; ++t) {
      ts.emplace_back([&, t] {
         stack_t st;
         std::memset(static_cast<void*>(&st), 0, sizeof st);
         st.ss_size = 1 << 16;
         st.ss_sp = std::malloc(st.ss_size);
         sigaltstack(&st, nullptr);
         for (size_t k; !stop_scan && (k = next++) < jobs.size();) { scan_job(jobs[k], k, res[t], beats[t]); }
         beats[t].done = true;
      });
   }
   // a thread that makes no progress for 10 s is given up; its argument is selected
   std::vector<uint64_t> last(nt, 0);
   std::vector<double> idle(nt, 0);
   std::vector<bool> stuck(nt, false);
   unsigned nstuck = 0, nrun = nt;
   double age = 0;
   while (nrun > nstuck) {
      usleep(50000);
      age += 0.05;
      if (age > limit) { stop_scan = true; }
      nrun = nt;
      for (unsigned t = 0; t < nt; ++t) {
         if (beats[t].done) { --nrun; continue; }
         const uint64_t b = beats[t].n;
         idle[t] = b == last[t] ? idle[t] + 0.05 : 0;
         last[t] = b;
         if (!stuck[t] && idle[t] > 10) { stuck[t] = true; ++nstuck; }
      }
   }
   std::vector<Hit> all;
   for (auto& r : res) { all.insert(all.end(), r.begin(), r.end()); }
   for (unsigned t = 0; t < nt; ++t) {
      if (!stuck[t]) { ts[t].join(); continue; }
      const Job& j = jobs[beats[t].job];
      const Z z = beats[t].z, pts[3] = { z, -z, z*z };
      for (unsigned k = 0; k < 3; ++k) {
         Hit h;
         std::memset(static_cast<void*>(&h), 0, sizeof h);
         h.fn = j.rel == 4 ? k : 0; h.job = beats[t].job; h.n = j.n; h.metric = 1e300;
         const int f = std::min(fmt_of(j.fn), j.rel == 1 ? fmt_of(j.fn2) : 9);
         put(h.a, rnd(pts[k].real(), f)); put(h.b, rnd(pts[k].imag(), f));
         all.push_back(h);
      }
   }
   spill(out, all.data(), all.size()*sizeof(Hit));
   uint64_t total = 0;
   for (auto& b : beats) { total += b.n; }
   std::printf("%llu%s\n", static_cast<unsigned long long>(total), stop_scan ? " stopped" : "");
   std::fflush(stdout);
   _exit(0);
}
