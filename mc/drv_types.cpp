// ttl algorithms over element types whose ==, < or conversions a shortcut (a comparison of bytes, a block copy, a narrower
// intermediate) would get wrong: all contents over an alphabet of awkward values, std:: and plain loops as the oracle
#include "ttl/utility.hpp"
#include "ttl/functional.hpp"
#include "ttl/algorithm.hpp"
#include "ttl/numeric.hpp"
#include "mc.hpp"
#include <limits>
#include <numeric>
#include <algorithm>
using namespace mc;

#define OPS(X) X(INIT) \
   X(FIND) X(COUNT) X(SEARCH_N) X(ADJACENT) X(PREDS) X(EQUAL) X(MISMATCH) X(SEARCH) X(EQUAL_TO_OTHER) X(FIND_KEY) \
   X(COPY) X(COPY_N) X(COPY_BACKWARD) X(COPY_TO_OTHER) X(FILL) X(FILL_N) X(REPLACE) X(REPLACE_COPY) X(REMOVE) X(REMOVE_COPY) X(COPY_IF) X(SWAP_RANGES) X(ITER_SWAP) X(REVERSE) X(REVERSE_COPY) X(TRANSFORM) X(GENERATE) X(IOTA) X(ACCUMULATE) X(REMOVE_KEY) \
   X(BOUNDS) X(SORTED) X(MERGE) X(MINMAX) X(EXTREMES) X(BOUNDS_KEY)
#define E_(x) x,
enum { OPS(E_) NOPS };
#undef E_
#define N_(x) #x,
static const char *const names[] = { OPS(N_) };
#undef N_

struct Padded { char c; int i; };
inline bool operator==(const Padded &a, const Padded &b) { return a.c == b.c && a.i == b.i; }
inline bool operator<(const Padded &a, const Padded &b) { return a.c < b.c || (a.c == b.c && a.i < b.i); }
// equivalent elements that are not equal, and comparable with keys of another type, which several unequal elements match
struct Ranked { int k, v; };
inline bool operator==(const Ranked &a, const Ranked &b) { return a.k == b.k && a.v == b.v; }
inline bool operator<(const Ranked &a, const Ranked &b) { return a.k < b.k; }
inline bool operator==(const Ranked &a, int k) { return a.k == k; }
inline bool operator<(const Ranked &a, int k) { return a.k < k; }
inline bool operator<(int k, const Ranked &a) { return k < a.k; }
enum Color { GREEN = -5, RED = 1, BLUE = 70000 };
enum class Mode: unsigned char { OFF, ON = 200, HALF = 100 };
static char text1[] = "ab", text2[] = "ab", text3[] = "b";

// awkward values; LINEAR: the first so many are ordered by <
template<class E> struct Al;
template<> struct Al<double> { enum { N = 4, LINEAR = 3, NUM = 1 }; static double at(int i) { const double x[] = { 0.0, -0.0, 1.5, std::numeric_limits<double>::quiet_NaN() }; return x[i]; } };
template<> struct Al<float> { enum { N = 4, LINEAR = 3, NUM = 1 }; static float at(int i) { const float x[] = { -0.0f, 0.0f, -2.5f, std::numeric_limits<float>::quiet_NaN() }; return x[i]; } };
template<> struct Al<long double> { enum { N = 3, LINEAR = 3, NUM = 1 }; static long double at(int i) { const long double x[] = { 0.0L, -0.0L, 1.0L + 1.0842021724855044e-19L }; return x[i]; } };
template<> struct Al<long long> { enum { N = 4, LINEAR = 4, NUM = 2 }; static long long at(int i) { const long long x[] = { 1, 0x100000001LL, -1, 0xffffffffLL }; return x[i]; } };
template<> struct Al<unsigned long long> { enum { N = 3, LINEAR = 3, NUM = 2 }; static unsigned long long at(int i) { const unsigned long long x[] = { 0x8000000000000000ULL, 0, 0x100000000ULL }; return x[i]; } };
template<> struct Al<unsigned> { enum { N = 3, LINEAR = 3, NUM = 2 }; static unsigned at(int i) { const unsigned x[] = { 0x80000000u, 1, 0x100u }; return x[i]; } };
template<> struct Al<short> { enum { N = 4, LINEAR = 4, NUM = 2 }; static short at(int i) { const short x[] = { -1, 255, 256, -32768 }; return x[i]; } };
template<> struct Al<unsigned short> { enum { N = 3, LINEAR = 3, NUM = 2 }; static unsigned short at(int i) { const unsigned short x[] = { 65535, 255, 0 }; return x[i]; } };
template<> struct Al<unsigned char> { enum { N = 4, LINEAR = 4, NUM = 2 }; static unsigned char at(int i) { const unsigned char x[] = { 200, 0, 127, 255 }; return x[i]; } };
template<> struct Al<char> { enum { N = 3, LINEAR = 3, NUM = 2 }; static char at(int i) { const char x[] = { 0, (char)200, 'x' }; return x[i]; } };
template<> struct Al<wchar_t> { enum { N = 3, LINEAR = 3, NUM = 2 }; static wchar_t at(int i) { const wchar_t x[] = { 0, L'a', 0x10061 }; return x[i]; } };
template<> struct Al<bool> { enum { N = 2, LINEAR = 2, NUM = 2 }; static bool at(int i) { return i; } };
template<> struct Al<const char *> { enum { N = 4, LINEAR = 4, NUM = 0 }; static const char *at(int i) { const char *x[] = { 0, text1, text2, text3 }; return x[i]; } };
template<> struct Al<Color> { enum { N = 3, LINEAR = 3, NUM = 0 }; static Color at(int i) { const Color x[] = { BLUE, GREEN, RED }; return x[i]; } };
template<> struct Al<Mode> { enum { N = 3, LINEAR = 3, NUM = 0 }; static Mode at(int i) { const Mode x[] = { Mode::ON, Mode::OFF, Mode::HALF }; return x[i]; } };
template<> struct Al<Padded> { enum { N = 3, LINEAR = 3, NUM = 0 }; static Padded at(int i) { const Padded x[] = { { 1, 256 }, { 0, 256 }, { 1, 0 } }; return x[i]; } };

template<> struct Al<Ranked> { enum { N = 4, LINEAR = 4, NUM = 0 }; static Ranked at(int i) { const Ranked x[] = { { 1, 10 }, { 2, 20 }, { 1, 11 }, { 2, 21 } }; return x[i]; } };

template<class E> struct Vec // elements between guards; padding bytes differ from element to element
{
   enum { PAD = 3, MAX = 40 };
   alignas(16) unsigned char mem[(MAX + 2 * PAD) * sizeof(E)];
   std::vector<E> v;
   int n;
   E *p() { return reinterpret_cast<E *>(mem) + PAD; }
   static void set(E &e, const E &x) { e = x; }
   explicit Vec(const std::vector<E> &x, unsigned char junk = 0): v(x), n(x.size())
   {
      for (size_t i = 0; i < sizeof mem; ++i) mem[i] = i * 37 + junk;
      for (int i = 0; i < n; ++i) put(p()[i], x[i]);
   }
   static void put(Padded &e, const Padded &x) { e.c = x.c; e.i = x.i; }
   template<class T> static void put(T &e, const T &x) { e = x; }
   // the value, bit by bit, without padding
   static bool bits(const Padded &a, const Padded &b) { return a == b; }
   static bool bits(const long double &a, const long double &b) { return !memcmp(&a, &b, 10); }
   template<class T> static bool bits(const T &a, const T &b) { return !memcmp(&a, &b, sizeof(T)); }
   void is(const char *what, const std::vector<E> &x, int upto)
   {
      for (int i = 0; i < upto; ++i)
         if (!bits(p()[i], x[i])) { fail(VALUE, "%s: element %d is wrong", what, i); return; }
      for (size_t i = 0; i < PAD * sizeof(E); ++i)
      {
         const size_t j = (PAD + n) * sizeof(E) + i;
         if (mem[i] != (unsigned char)(i * 37 + junk_) || mem[j] != (unsigned char)(j * 37 + junk_)) { fail(VALUE, "%s: something outside the range was written", what); return; }
      }
   }
   unsigned char junk_ = 0;
};

template<class E> struct TypesSys
{
   typedef std::vector<E> X;
   enum { keyed = std::is_same<E, Ranked>::value };
   const Cfg &cfg;
   int len[2], step;
   std::vector<int> m[2];
   static const char *opname(int c) { return c < NOPS ? names[c] : "?"; }
   TypesSys(const Cfg &c, const Hist *): cfg(c), step(0) { len[0] = cfg.num("len", 3); len[1] = cfg.num("len2", 3); }
   void destroy() {}
   void check() {}
   void canon(Canon &c) { c.value(step > 0); for (int k = 0; k < 2; ++k) { c.value(0xB000 + m[k].size()); for (int x : m[k]) c.value(x); } }
   std::string str(const Op &p) { return strf("%s(%d,%d,%d,%d)", names[p.c], p.a[0], p.a[1], p.a[2], p.a[3]); }
   void ops(std::vector<Op> &r)
   {
      const int N = Al<E>::N;
      if (!step)
      {
         for (int a = 0, pa = 1; a <= len[0]; ++a, pa *= N)
            for (int i = 0; i < pa; ++i)
               for (int b = 0, pb = 1; b <= len[1]; ++b, pb *= N)
                  for (int j = 0; j < pb; ++j) r.push_back(Op(INIT, a, i, b, j));
         return;
      }
      if (step > 1) return; // every content is a start
      const int n = m[0].size(), n2 = m[1].size();
      const bool find = cfg.has("grp", "find"), mod = cfg.has("grp", "mod"), order = cfg.has("grp", "order");
      if (find)
      {
         if (!n2)
         {
            for (int v = 0; v < N; ++v) { r.push_back(Op(FIND, v)); r.push_back(Op(COUNT, v)); for (int c = 0; c <= n + 1; ++c) r.push_back(Op(SEARCH_N, v, c)); r.push_back(Op(PREDS, v)); }
            r.push_back(Op(ADJACENT)); r.push_back(Op(EQUAL_TO_OTHER)); if (keyed) for (int k = 0; k < 4; ++k) r.push_back(Op(FIND_KEY, k));
         }
         for (int f = 0; f < 2; ++f) { if (f || n <= n2) { r.push_back(Op(EQUAL, f)); r.push_back(Op(MISMATCH, f)); } }
         r.push_back(Op(SEARCH));
      }
      if (mod)
      {
         if (!n2)
         {
            for (int i = 0; i < N; ++i)
            {
               r.push_back(Op(FILL, i)); r.push_back(Op(REMOVE, i)); r.push_back(Op(REMOVE_COPY, i)); r.push_back(Op(COPY_IF, i)); r.push_back(Op(TRANSFORM, i)); r.push_back(Op(GENERATE, i)); r.push_back(Op(IOTA, i));
               for (int c = 0; c <= n; ++c) r.push_back(Op(FILL_N, i, c));
               for (int j = 0; j < N; ++j) { r.push_back(Op(REPLACE, i, j)); r.push_back(Op(REPLACE_COPY, i, j)); }
            }
            for (int i = 0; i <= n; ++i) for (int j = i; j <= n; ++j) { r.push_back(Op(REVERSE, i, j)); for (int d = 0; d <= n; ++d) { if ((d <= i || d >= j) && d + j - i <= n) r.push_back(Op(COPY, i, j, d)); if ((d >= j || d <= i) && d >= j - i) r.push_back(Op(COPY_BACKWARD, i, j, d)); } }
            for (int c = 0; c <= n; ++c) r.push_back(Op(COPY_N, c));
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r.push_back(Op(ITER_SWAP, i, j));
            r.push_back(Op(COPY_TO_OTHER)); r.push_back(Op(REVERSE_COPY)); r.push_back(Op(ACCUMULATE)); if (keyed) for (int k = 0; k < 4; ++k) r.push_back(Op(REMOVE_KEY, k));
         }
         if (n <= n2) r.push_back(Op(SWAP_RANGES));
      }
      if (order && linear())
      {
         if (!n2)
         {
            for (int v = 0; v < Al<E>::LINEAR; ++v) { if (sorted(0)) r.push_back(Op(BOUNDS, v)); for (int w = 0; w < Al<E>::LINEAR; ++w) if (!n) r.push_back(Op(MINMAX, v, w)); }
            if (keyed && sorted(0)) for (int k = 0; k < 4; ++k) r.push_back(Op(BOUNDS_KEY, k));
            r.push_back(Op(SORTED)); r.push_back(Op(EXTREMES));
         }
         if (sorted(0) && sorted(1)) r.push_back(Op(MERGE));
      }
   }
   bool linear() const { for (int k = 0; k < 2; ++k) for (int x : m[k]) if (x >= Al<E>::LINEAR) return false; return true; }
   X val(int k) const { X r; for (int x : m[k]) r.push_back(Al<E>::at(x)); return r; }
   bool sorted(int k) const { X x = val(k); return std::is_sorted(x.begin(), x.end(), [](const E &a, const E &b) { return a < b; }); }
   static void unflatten(int code, int n, std::vector<int> &r) { r.clear(); while (n--) { r.push_back(code % Al<E>::N); code /= Al<E>::N; } }
   struct Is { E v; bool operator()(const E &e) const { return e == v; } };
   struct Eq { bool operator()(const E &a, const E &b) const { return a == b; } };
   struct Lt { bool operator()(const E &a, const E &b) const { return a < b; } };
   struct Sub { E v, w; E operator()(const E &e) const { return e == v ? w : e; } };
   struct Gen { int *k; E operator()() const { return Al<E>::at((*k)++ % Al<E>::N); } };
   void pos(const Op &p, const char *what, long got, long want) { if (got != want) fail(VALUE, "%s: %s is %ld, expected %ld", names[p.c], what, got, want); }

   template<class D> void to_other(const Op &p, const X &a)
   {
      Vec<E> A(a);
      const size_t n = a.size() + 2;
      D out[Vec<E>::MAX], ex[Vec<E>::MAX], o2[Vec<E>::MAX];
      memset(out, 0, sizeof out); memset(ex, 0, sizeof ex); memset(o2, 0, sizeof o2);
      for (size_t i = 0; i < n; ++i) out[i] = ex[i] = o2[i] = (D)77;
      for (size_t i = 0; i < a.size(); ++i) ex[i + 1] = static_cast<D>(a[i]);
      D *r = ttl::copy((const E *)A.p(), (const E *)A.p() + A.n, out + 1);
      pos(p, "the end", r - out, A.n + 1);
      if (memcmp(out, ex, sizeof ex)) fail(VALUE, "copy to another element type converts wrongly");
      r = ttl::copy_backward((const E *)A.p(), (const E *)A.p() + A.n, o2 + 1 + a.size());
      pos(p, "the begin", r - o2, 1);
      if (memcmp(o2, ex, sizeof ex)) fail(VALUE, "copy_backward to another element type converts wrongly");
   }
   template<class D> void as_other(const Op &p, const X &a) // comparisons between two element types
   {
      Vec<E> A(a);
      std::vector<D> d(a.begin(), a.end());
      // one element changed: to another value, or to one that only differs beyond the width of the element type
      static const double off[] = { 256., 65536., 4294967296. };
      for (size_t c = 0; c <= 4 * d.size(); ++c)
      {
         std::vector<D> e(d);
         if (c < 4 * d.size()) { D &x = e[c / 4]; x = c % 4 == 3 ? x == (D)1 ? (D)0 : (D)1 : x + (D)off[c % 4]; }
         const bool want = std::equal(a.begin(), a.end(), e.begin());
         if (ttl::equal((const E *)A.p(), (const E *)A.p() + A.n, e.data()) != want || ttl::equal(A.p(), A.p() + A.n, e.data(), e.data() + e.size()) != want || ttl::equal(e.data(), e.data() + e.size(), A.p()) != want) fail(VALUE, "equal between two element types is wrong");
         const long at = std::mismatch(a.begin(), a.end(), e.begin()).first - a.begin();
         pos(p, "mismatch between two element types", ttl::mismatch(A.p(), A.p() + A.n, e.data()).first - A.p(), at);
         for (size_t i = 0; i < e.size(); ++i)
         {
            pos(p, "find of a value of another type", ttl::find(A.p(), A.p() + A.n, e[i]) - A.p(), std::find(a.begin(), a.end(), e[i]) - a.begin());
            pos(p, "count of a value of another type", ttl::count(A.p(), A.p() + A.n, e[i]), std::count(a.begin(), a.end(), e[i]));
         }
         pos(p, "search for a pattern of another type", ttl::search(A.p(), A.p() + A.n, e.data(), e.data() + e.size() / 2) - A.p(), std::search(a.begin(), a.end(), e.begin(), e.begin() + e.size() / 2) - a.begin());
      }
   }
   void key(const Op &p, Vec<Ranked> &A, std::vector<Ranked> &xa, int &upto, Vec<Ranked> &D, std::vector<Ranked> &xd, int &dn) // a value of another type
   {
      const std::vector<Ranked> a = xa;
      Ranked *f = A.p(), *l = f + A.n;
      const int k = p.a[0];
      if (p.c == FIND_KEY)
      {
         pos(p, "find", ttl::find(f, l, k) - f, std::find(a.begin(), a.end(), k) - a.begin()); pos(p, "count", ttl::count(f, l, k), std::count(a.begin(), a.end(), k));
         for (int c = 0; c <= A.n + 1; ++c) pos(p, "search_n", ttl::search_n(f, l, c, k) - f, std::search_n(a.begin(), a.end(), c, k) - a.begin());
         std::vector<int> ks;
         for (const Ranked &x : a) ks.push_back(x.k);
         for (size_t c = 0; c < ks.size(); ++c)
         {
            const std::vector<int> q(ks.begin() + c, ks.end());
            pos(p, "search for keys", ttl::search(f, l, q.data(), q.data() + q.size()) - f, std::search(a.begin(), a.end(), q.begin(), q.end()) - a.begin());
         }
         ks.push_back(k);
         for (int c = -1; c < A.n; ++c)
         {
            std::vector<int> q(ks);
            if (c >= 0) q[c] = k;
            pos(p, "equal with keys", ttl::equal(f, l, q.data()), std::equal(a.begin(), a.end(), q.begin())); pos(p, "equal with keys", ttl::equal(f, l, q.data(), q.data() + A.n), std::equal(a.begin(), a.end(), q.begin()));
            pos(p, "mismatch with keys", ttl::mismatch(f, l, q.data()).first - f, std::mismatch(a.begin(), a.end(), q.begin()).first - a.begin());
            pos(p, "mismatch with keys", ttl::mismatch(f, l, q.data(), q.data() + A.n).second - q.data(), std::mismatch(a.begin(), a.end(), q.begin()).first - a.begin());
         }
      }
      else if (p.c == REMOVE_KEY)
      {
         upto = std::remove(xa.begin(), xa.end(), k) - xa.begin(); pos(p, "the end", ttl::remove(f, l, k) - f, upto);
         Vec<Ranked> B(a);
         dn = std::remove_copy(a.begin(), a.end(), xd.begin(), k) - xd.begin(); pos(p, "the end of the copy", ttl::remove_copy(B.p(), B.p() + B.n, D.p(), k) - D.p(), dn);
      }
      else
      {
         const long lo = std::lower_bound(a.begin(), a.end(), k) - a.begin(), hi = std::upper_bound(a.begin(), a.end(), k) - a.begin();
         pos(p, "lower_bound", ttl::lower_bound(f, l, k) - f, lo); pos(p, "upper_bound", ttl::upper_bound(f, l, k) - f, hi); pos(p, "binary_search", ttl::binary_search(f, l, k), lo != hi);
         ttl::pair<Ranked *, Ranked *> r = ttl::equal_range(f, l, k);
         pos(p, "equal_range", r.first - f, lo); pos(p, "equal_range", r.second - f, hi);
      }
   }
   void apply(const Op &p)
   {
      ++step;
      if (p.c == INIT) { unflatten(p.a[1], p.a[0], m[0]); unflatten(p.a[3], p.a[2], m[1]); return; }
      const X a = val(0), b = val(1);
      Vec<E> A(a), B(b);
      X xa = a, xb = b;
      E *f = A.p(), *l = f + A.n, *f2 = B.p(), *l2 = f2 + B.n;
      const E *cf = f, *cl = l;
      int upto = A.n;
      const E v = Al<E>::at(p.a[0] < Al<E>::N ? p.a[0] : 0);
      const E w = Al<E>::at(p.a[1] < Al<E>::N ? p.a[1] : 0);
      const Is is = { v };
      Vec<E> D(X(A.n, Al<E>::at(0)));
      X xd = D.v;
      E *d = D.p();
      int dn = -1; // elements written to D
      switch (p.c)
      {
      case FIND: pos(p, "the position", ttl::find(f, l, v) - f, std::find(a.begin(), a.end(), v) - a.begin()); pos(p, "the position", ttl::find(cf, cl, v) - f, std::find(a.begin(), a.end(), v) - a.begin()); break;
      case COUNT: pos(p, "the number", ttl::count(cf, cl, v), std::count(a.begin(), a.end(), v)); break;
      case SEARCH_N: pos(p, "the position", ttl::search_n(f, l, (int)p.a[1], v) - f, std::search_n(a.begin(), a.end(), (int)p.a[1], v) - a.begin()); pos(p, "the position (predicate)", ttl::search_n(cf, cl, (int)p.a[1], v, Eq()) - f, std::search_n(a.begin(), a.end(), (int)p.a[1], v) - a.begin()); break;
      case ADJACENT: pos(p, "the position", ttl::adjacent_find(f, l) - f, std::adjacent_find(a.begin(), a.end()) - a.begin()); pos(p, "the position (predicate)", ttl::adjacent_find(cf, cl, Lt()) - f, std::adjacent_find(a.begin(), a.end(), Lt()) - a.begin()); break;
      case PREDS:
         pos(p, "find_if", ttl::find_if(f, l, is) - f, std::find_if(a.begin(), a.end(), is) - a.begin()); pos(p, "find_if_not", ttl::find_if_not(f, l, is) - f, std::find_if_not(a.begin(), a.end(), is) - a.begin());
         pos(p, "count_if", ttl::count_if(f, l, is), std::count_if(a.begin(), a.end(), is)); pos(p, "all_of", ttl::all_of(f, l, is), std::all_of(a.begin(), a.end(), is)); pos(p, "any_of", ttl::any_of(f, l, is), std::any_of(a.begin(), a.end(), is)); pos(p, "none_of", ttl::none_of(f, l, is), std::none_of(a.begin(), a.end(), is));
         break;
      case EQUAL:
         if (p.a[0]) { pos(p, "equal of two ranges", ttl::equal(f, l, f2, l2), std::equal(a.begin(), a.end(), b.begin(), b.end())); pos(p, "equal of two ranges (predicate)", ttl::equal(f, l, f2, l2, Eq()), std::equal(a.begin(), a.end(), b.begin(), b.end())); pos(p, "equal of a range and itself", ttl::equal(f, l, f, l), std::equal(a.begin(), a.end(), a.begin(), a.end())); }
         else { pos(p, "equal", ttl::equal(f, l, f2), std::equal(a.begin(), a.end(), b.begin())); pos(p, "equal (predicate)", ttl::equal(cf, cl, f2, Eq()), std::equal(a.begin(), a.end(), b.begin())); }
         break;
      case MISMATCH:
      {
         const long at = (p.a[0] ? std::mismatch(a.begin(), a.end(), b.begin(), b.end()) : std::mismatch(a.begin(), a.end(), b.begin())).first - a.begin();
         ttl::pair<E *, E *> r = p.a[0] ? ttl::mismatch(f, l, f2, l2) : ttl::mismatch(f, l, f2), s = p.a[0] ? ttl::mismatch(f, l, f2, l2, Eq()) : ttl::mismatch(f, l, f2, Eq());
         pos(p, "the position", r.first - f, at); pos(p, "the second position", r.second - f2, at); pos(p, "the position (predicate)", s.first - f, at);
         break;
      }
      case SEARCH: pos(p, "the position", ttl::search(f, l, f2, l2) - f, std::search(a.begin(), a.end(), b.begin(), b.end()) - a.begin()); pos(p, "the position (predicate)", ttl::search(cf, cl, f2, l2, Eq()) - f, std::search(a.begin(), a.end(), b.begin(), b.end()) - a.begin()); break;
      case EQUAL_TO_OTHER: if constexpr (Al<E>::NUM == 2) { as_other<long long>(p, a); as_other<long>(p, a); } else if constexpr (Al<E>::NUM == 1) as_other<double>(p, a); break;

      case COPY: pos(p, "the end", ttl::copy(cf + p.a[0], cf + p.a[1], f + p.a[2]) - f, p.a[2] + p.a[1] - p.a[0]); std::copy(a.begin() + p.a[0], a.begin() + p.a[1], xa.begin() + p.a[2]); break;
      case COPY_BACKWARD: pos(p, "the begin", ttl::copy_backward(cf + p.a[0], cf + p.a[1], f + p.a[2]) - f, p.a[2] - p.a[1] + p.a[0]); std::copy_backward(a.begin() + p.a[0], a.begin() + p.a[1], xa.begin() + p.a[2]); break;
      case COPY_N: pos(p, "the end", ttl::copy_n(cf, (int)p.a[0], d) - d, dn = p.a[0]); std::copy_n(a.begin(), (int)p.a[0], xd.begin()); break;
      case COPY_TO_OTHER:
         if constexpr (Al<E>::NUM == 2) { to_other<long long>(p, a); to_other<int>(p, a); to_other<double>(p, a); to_other<float>(p, a); to_other<unsigned char>(p, a); to_other<short>(p, a); to_other<bool>(p, a); }
         else if constexpr (Al<E>::NUM == 1) { to_other<double>(p, a); to_other<float>(p, a); if (linear()) { to_other<int>(p, a); to_other<long long>(p, a); } }
         break;
      case FILL: ttl::fill(f, l, v); std::fill(xa.begin(), xa.end(), v); break;
      case FILL_N: ttl::fill_n(f, (int)p.a[1], v); std::fill_n(xa.begin(), (int)p.a[1], v); break;
      case REPLACE: ttl::replace(f, l, v, w); std::replace(xa.begin(), xa.end(), v, w); break;
      case REPLACE_COPY: pos(p, "the end", ttl::replace_copy(cf, cl, d, v, w) - d, dn = A.n); std::replace_copy(a.begin(), a.end(), xd.begin(), v, w); break;
      case REMOVE: { upto = std::remove(xa.begin(), xa.end(), v) - xa.begin(); pos(p, "the end", ttl::remove(f, l, v) - f, upto); break; }
      case REMOVE_COPY: dn = std::remove_copy(a.begin(), a.end(), xd.begin(), v) - xd.begin(); pos(p, "the end", ttl::remove_copy(cf, cl, d, v) - d, dn); break;
      case COPY_IF: dn = std::copy_if(a.begin(), a.end(), xd.begin(), is) - xd.begin(); pos(p, "the end", ttl::copy_if(cf, cl, d, is) - d, dn); break;
      case SWAP_RANGES: pos(p, "the end", ttl::swap_ranges(f, l, f2) - f2, A.n); std::swap_ranges(xa.begin(), xa.end(), xb.begin()); break;
      case ITER_SWAP: ttl::iter_swap(f + p.a[0], f + p.a[1]); std::iter_swap(xa.begin() + p.a[0], xa.begin() + p.a[1]); break;
      case REVERSE: ttl::reverse(f + p.a[0], f + p.a[1]); std::reverse(xa.begin() + p.a[0], xa.begin() + p.a[1]); break;
      case REVERSE_COPY: pos(p, "the end", ttl::reverse_copy(cf, cl, d) - d, dn = A.n); std::reverse_copy(a.begin(), a.end(), xd.begin()); break;
      case TRANSFORM: { const Sub s = { v, Al<E>::at(1) }; pos(p, "the end", ttl::transform(cf, cl, d, s) - d, dn = A.n); std::transform(a.begin(), a.end(), xd.begin(), s); break; }
      case GENERATE: { int i = p.a[0], j = i; const Gen g1 = { &i }, g2 = { &j }; ttl::generate(f, l, g1); std::generate(xa.begin(), xa.end(), g2); pos(p, "the number of calls", i, j); break; }
      case IOTA:
         if constexpr (Al<E>::NUM && !std::is_same<E, bool>::value) { ttl::iota(f, l, v); std::iota(xa.begin(), xa.end(), v); }
         break;
      case ACCUMULATE:
         if constexpr (Al<E>::NUM)
         {
            if (!linear()) break;
            if (ttl::accumulate(cf, cl, 0.0) != std::accumulate(a.begin(), a.end(), 0.0) || ttl::accumulate(cf, cl, 7LL) != std::accumulate(a.begin(), a.end(), 7LL) || ttl::accumulate(cf, cl, 3.5f) != std::accumulate(a.begin(), a.end(), 3.5f) || ttl::accumulate(cf, cl, 1.25L) != std::accumulate(a.begin(), a.end(), 1.25L)) fail(VALUE, "accumulate is wrong");
            if (Al<E>::NUM == 2 && (ttl::accumulate(cf, cl, 1u) != std::accumulate(a.begin(), a.end(), 1u) || ttl::accumulate(cf, cl, (unsigned char)9) != std::accumulate(a.begin(), a.end(), (unsigned char)9) || ttl::accumulate(cf, cl, 9ULL) != std::accumulate(a.begin(), a.end(), 9ULL))) fail(VALUE, "accumulate in another type is wrong");
         }
         break;

      case FIND_KEY: case REMOVE_KEY: case BOUNDS_KEY: if constexpr (keyed) key(p, A, xa, upto, D, xd, dn); break;

      case BOUNDS:
      {
         const long lo = std::lower_bound(a.begin(), a.end(), v) - a.begin(), hi = std::upper_bound(a.begin(), a.end(), v) - a.begin();
         pos(p, "lower_bound", ttl::lower_bound(f, l, v) - f, lo); pos(p, "lower_bound (comparison)", ttl::lower_bound(cf, cl, v, Lt()) - f, lo);
         pos(p, "upper_bound", ttl::upper_bound(f, l, v) - f, hi); pos(p, "upper_bound (comparison)", ttl::upper_bound(cf, cl, v, Lt()) - f, hi);
         pos(p, "binary_search", ttl::binary_search(f, l, v), lo != hi); pos(p, "binary_search (comparison)", ttl::binary_search(cf, cl, v, Lt()), lo != hi);
         ttl::pair<E *, E *> r = ttl::equal_range(f, l, v), s = ttl::equal_range(f, l, v, Lt());
         pos(p, "equal_range", r.first - f, lo); pos(p, "equal_range", r.second - f, hi); pos(p, "equal_range (comparison)", s.first - f, lo); pos(p, "equal_range (comparison)", s.second - f, hi);
         break;
      }
      case SORTED: pos(p, "is_sorted_until", ttl::is_sorted_until(cf, cl) - f, std::is_sorted_until(a.begin(), a.end()) - a.begin()); pos(p, "is_sorted", ttl::is_sorted(f, l), std::is_sorted(a.begin(), a.end())); break;
      case MERGE:
      {
         X ex(a.size() + b.size());
         std::merge(a.begin(), a.end(), b.begin(), b.end(), ex.begin());
         Vec<E> O(X(ex.size(), Al<E>::at(0)));
         pos(p, "the end", ttl::merge(cf, cl, f2, l2, O.p()) - O.p(), ex.size());
         O.is("merge", ex, O.n);
         break;
      }
      case MINMAX:
      {
         const E x = v, y = w;
         const E *mn = y < x ? &y : &x, *mx = x < y ? &y : &x;
         if (&ttl::min(x, y) != mn || &ttl::min(x, y, Lt()) != mn) fail(VALUE, "min is not the smaller (the first of equals)");
         if (&ttl::max(x, y) != mx || &ttl::max(x, y, Lt()) != mx) fail(VALUE, "max is not the greater (the first of equals)");
         ttl::pair<const E &, const E &> r = ttl::minmax(x, y), s = ttl::minmax(x, y, Lt());
         if (r.first < s.first || s.first < r.first || r.second < s.second || s.second < r.second || &r.first == &r.second || &s.first == &s.second || r.second < r.first || s.second < s.first) fail(VALUE, "minmax is wrong");
         break;
      }
      case EXTREMES:
      {
         const long lo = std::min_element(a.begin(), a.end()) - a.begin(), hi = std::max_element(a.begin(), a.end()) - a.begin();
         pos(p, "min_element", ttl::min_element(cf, cl) - f, lo); pos(p, "max_element", ttl::max_element(cf, cl) - f, hi);
         ttl::pair<const E *, const E *> r = ttl::minmax_element(cf, cl);
         pos(p, "minmax_element", r.first - f, lo); pos(p, "minmax_element", r.second - f, hi);
         break;
      }
      }
      A.is(names[p.c], xa, upto); B.is(names[p.c], xb, B.n);
      if (dn >= 0) D.is(names[p.c], xd, D.n);
   }
};

int main(int argc, char **argv)
{
   Cfg cfg = parse(argc, argv);
   const std::string e = cfg.get("elem", "double");
#define T_(n, t) if (e == n) return drive<TypesSys<t> >(cfg);
   T_("double", double) T_("float", float) T_("ldouble", long double) T_("llong", long long) T_("ullong", unsigned long long) T_("unsigned", unsigned) T_("short", short) T_("ushort", unsigned short)
   T_("uchar", unsigned char) T_("char", char) T_("wchar", wchar_t) T_("bool", bool) T_("ptr", const char *) T_("enum", Color) T_("eclass", Mode) T_("padded", Padded) T_("keyed", Ranked)
   return 2;
}
