// sys=array: ttl::array<T,N>, one or two objects; sys=pair: ttl::pair, two objects; sys=func: functors and small helpers
#include "ttl/utility.hpp"
#include "ttl/functional.hpp"
#include "ttl/algorithm.hpp"
#include "ttl/array.hpp"
#include "ttl/map.hpp"
#include "ttl/set.hpp"
#include "mc.hpp"
#include <limits>
using namespace mc;

#define OPS(X) \
   X(WRITE) X(FILL) X(FILL_OWN) X(SWAP) X(ASSIGN) X(COPY) \
   X(P_DEFAULT) X(P_VALUES) X(P_COPY) X(P_ASSIGN) X(P_CONV) X(P_CONV_ASSIGN) X(P_SWAP) X(P_GSWAP) X(P_MAKE) X(P_SELECT) X(P_WRITE) \
   X(F_CMP) X(F_CMP_ELEM) X(F_CMP_PTR) X(F_DISTANCE) X(F_ADVANCE) X(F_COUNTOF) X(F_MOVE) X(F_SWAP) X(F_SAME) X(F_KEYS)
#define E(x) x,
enum { OPS(E) NOPS };
#undef E
#define N_(x) #x,
static const char *const names[] = { OPS(N_) };
#undef N_

template<class T> struct Mk { static T mk(int v) { return Num<T>::mk(v); } };
template<> struct Mk<signed char> { static signed char mk(int v) { return v == 1 ? -128 : v == 2 ? 127 : v; } };

template<class T> bool eqv(const T &a, const T &b) { return V<T>::get(a) == V<T>::get(b); }

// ---------------------------------------------------------------- array
template<class T, unsigned N> struct ArraySys
{
   typedef ttl::array<T, N> L;
   const Cfg &cfg;
   int nobj, alpha;
   Box<L> o[2];
   std::vector<int> m[2];

   static const char *opname(int c) { return c < NOPS ? names[c] : "?"; }
   ArraySys(const Cfg &c, const Hist *): cfg(c)
   {
      nobj = cfg.num("nobj", 2); alpha = cfg.num("alpha", 2);
      for (int i = 0; i < nobj; ++i) { o[i].make(); m[i].assign(N, 0); }
      if (!std::is_same<T, Elem>::value) for (int i = 0; i < nobj; ++i) memset(o[i].mem, 0, sizeof(L));
   }
   void destroy() { for (int i = 0; i < nobj; ++i) o[i].kill(); }
   void canon(Canon &c) { for (int i = 0; i < nobj; ++i) c.root(o[i].mem, sizeof(L)); }
   void ops(std::vector<Op> &r)
   {
      for (int k = 0; k < nobj; ++k)
      {
         for (unsigned i = 0; i < N; ++i)
            for (int v = 1; v <= alpha; ++v)
               for (int how = 0; how < 10; ++how)
                  if ((how != 6 || !i) && (how != 7 || i == N - 1)) r.push_back(Op(WRITE, k, i, v, how));
         for (int v = 1; v <= alpha; ++v) r.push_back(Op(FILL, k, v));
         for (unsigned i = 0; i < N; ++i) r.push_back(Op(FILL_OWN, k, i));
         for (int q = 0; q < nobj; ++q) { r.push_back(Op(SWAP, k, q)); r.push_back(Op(ASSIGN, k, q)); if (q != k) r.push_back(Op(COPY, k, q)); }
      }
   }
   std::string str(const Op &p) { return strf("%s(%s,%d,%d,%d)", names[p.c], p.a[0] ? "B" : "A", p.a[1], p.a[2], p.a[3]); }
   void apply(const Op &p)
   {
      const int k = p.a[0], q = p.a[1];
      switch (p.c)
      {
      case WRITE:
      {
         const T v(Mk<T>::mk(p.a[2]));
         L &a = *o[k];
         const int i = p.a[1];
         { Sut s;
         switch (p.a[3])
         {
         case 0: a[i] = v; break;
         case 1: a.at(i) = v; break;
         case 2: a.begin()[i] = v; break;
         case 3: a.data()[i] = v; break;
         case 4: *(a.end() - (N - i)) = v; break;
         case 5: { typename L::iterator it = a.begin(); for (int j = 0; j < i; ++j) ++it; *it = v; break; }
         case 6: a.front() = v; break;
         case 7: a.back() = v; break;
         case 8: { typename L::reference r = a[i]; r = v; break; }
         case 9: { typename L::iterator it = a.end(); for (int j = N; j > i; --j) --it; *it = v; break; }
         } }
         m[k][i] = p.a[2];
         break;
      }
      case FILL: { const T v(Mk<T>::mk(p.a[1])); { Sut s; o[k]->fill(v); } m[k].assign(N, p.a[1]); break; }
      case FILL_OWN: { const int v = m[k][p.a[1]]; { Sut s; o[k]->fill((*o[k])[p.a[1]]); } m[k].assign(N, v); break; }
      case SWAP: { Sut s; o[k]->swap(*o[q]); } std::swap(m[k], m[q]); break;
      case ASSIGN: { Sut s; *o[k] = o[q].c(); } m[k] = m[q]; break;
      case COPY: { Sut s; o[k].kill(); o[k].make(o[q].c()); } m[k] = m[q]; break;
      }
   }
   static int val(int v) { return V<T>::get(T(Mk<T>::mk(v))); }
   void check()
   {
      Sut su;
      for (int k = 0; k < nobj; ++k)
      {
         L &a = *o[k];
         const L &c = a;
         const std::vector<int> &x = m[k];
         if (a.size() != N || c.max_size() != N || c.empty() != (N == 0)) fail(VALUE, "array of %u: size() %zu, max_size() %zu, empty() %d", N, a.size(), c.max_size(), c.empty());
         if (a.end() - a.begin() != (ptrdiff_t)N || c.end() - c.begin() != (ptrdiff_t)N || c.cend() - c.cbegin() != (ptrdiff_t)N) { fail(VALUE, "array of %u: iteration has %td/%td/%td steps", N, a.end() - a.begin(), c.end() - c.begin(), c.cend() - c.cbegin()); return; }
         if ((const void *)a.data() != (const void *)c.begin() || c.data() != a.begin() || (char *)a.data() < (char *)&a || (char *)(a.data() + N) > (char *)(&a + 1)) fail(VALUE, "array of %u: data() is not the begin", N);
         if (sizeof(L) != (N ? N : 1) * sizeof(T)) fail(VALUE, "array of %u occupies %zu bytes", N, sizeof(L));
         size_t n = 0;
         for (typename L::const_iterator i = c.begin(); i != c.end(); ++i, ++n) if (V<T>::get(*i) != val(x[n])) { fail(VALUE, "array of %u: element %zu is %d, expected %d", N, n, V<T>::get(*i), val(x[n])); return; }
         for (unsigned i = 0; i < N; ++i)
            if (&a[i] != a.begin() + i || &c[i] != c.begin() + i || &a.at(i) != a.begin() + i || &c.at(i) != c.begin() + i || c.cbegin() + i != a.data() + i) fail(VALUE, "array of %u: the accessors of element %u differ", N, i);
         if (N && (&a.front() != a.begin() || &c.front() != a.begin() || &a.back() != a.begin() + (N - 1) || &c.back() != a.begin() + (N - 1))) fail(VALUE, "array of %u: front() or back()", N);
         for (int q = 0; q < nobj; ++q)
            if ((c == o[q].c()) != seq_eq<T>(x, m[q]) || (c != o[q].c()) == seq_eq<T>(x, m[q])) fail(VALUE, "array of %u: == or != is wrong", N);
      }
   }
};

// ---------------------------------------------------------------- pair
struct From { int v; From(int x = 0): v(x) {} }; // converts to Elem2
struct Elem2: Elem
{
   Elem2(): Elem() {}
   explicit Elem2(int x): Elem(x) {}
   Elem2(const From &f): Elem(f.v) {}
   Elem2(const Elem2 &o): Elem(o) {}
   Elem2 &operator=(const Elem2 &o) { Elem::operator=(o); return *this; }
   Elem2 &operator=(const From &f) { use(this, "assignment to"); v = f.v; return *this; }
};
namespace mc { template<> struct V<Elem2> { static int get(const Elem2 &e) { Elem::use(&e, "read of"); return e.v; } static const char *name() { return "Elem2"; } };
template<> struct V<long> { static int get(const long &e) { return e; } }; template<> struct V<signed char> { static int get(const signed char &e) { return e; } }; }
namespace mc { template<> struct Num<float> { static float mk(int v) { return V<double>::mk(v); } }; }
template<class T> struct Src { typedef From type; };
template<> struct Src<int> { typedef short type; };
template<> struct Src<double> { typedef float type; };
template<> struct Src<long> { typedef int type; };
template<> struct Src<signed char> { typedef signed char type; };

template<class T1, class T2> struct PairSys
{
   typedef ttl::pair<T1, T2> P;
   typedef ttl::pair<typename Src<T1>::type, typename Src<T2>::type> Q; // converts to P
   const Cfg &cfg;
   int alpha;
   Box<P> o[2];
   int m[2][2];

   static const char *opname(int c) { return c < NOPS ? names[c] : "?"; }
   enum { lo1 = std::is_same<T1, double>::value ? 0 : -1, lo2 = std::is_same<T2, double>::value ? 0 : -1 };
   PairSys(const Cfg &c, const Hist *): cfg(c) { alpha = cfg.num("alpha", 3); for (int i = 0; i < 2; ++i) { o[i].make(); m[i][0] = m[i][1] = 0; } }
   void destroy() { for (int i = 0; i < 2; ++i) o[i].kill(); }
   void canon(Canon &c) { for (int i = 0; i < 2; ++i) { c.value(V<T1>::get(o[i]->first)); c.value(V<T2>::get(o[i]->second)); } }
   void ops(std::vector<Op> &r)
   {
      for (int k = 0; k < 2; ++k)
      {
         r.push_back(Op(P_DEFAULT, k));
         for (int v = lo1; v < alpha + lo1; ++v)
            for (int w = lo2; w < alpha + lo2; ++w)
            {
               const int a = v & 255, b = w & 255;
               r.push_back(Op(P_VALUES, k, a, b)); r.push_back(Op(P_CONV, k, a, b)); r.push_back(Op(P_CONV_ASSIGN, k, a, b)); r.push_back(Op(P_MAKE, k, a, b));
               r.push_back(Op(P_SELECT, k, a, b)); r.push_back(Op(P_WRITE, k, a, b));
            }
         for (int q = 0; q < 2; ++q) { if (q != k) r.push_back(Op(P_COPY, k, q)); r.push_back(Op(P_ASSIGN, k, q)); r.push_back(Op(P_SWAP, k, q)); r.push_back(Op(P_GSWAP, k, q)); }
      }
   }
   std::string str(const Op &p) { return strf("%s(%s,%d,%d)", names[p.c], p.a[0] ? "B" : "A", (signed char)p.a[1], (signed char)p.a[2]); }
   void apply(const Op &p)
   {
      const int k = p.a[0], q = p.a[1], v = (signed char)p.a[1], w = (signed char)p.a[2];
      switch (p.c)
      {
      case P_DEFAULT: o[k].kill(); o[k].raw(); { Sut s; ::new (o[k].mem) P(); o[k].alive = true; } m[k][0] = m[k][1] = 0; return;
      case P_VALUES: { const T1 a(Num<T1>::mk(v)); const T2 b(Num<T2>::mk(w)); o[k].kill(); o[k].make(a, b); break; }
      case P_COPY: o[k].kill(); o[k].make(o[q].c()); m[k][0] = m[q][0]; m[k][1] = m[q][1]; return;
      case P_ASSIGN: { Sut s; if (&(*o[k] = o[q].c()) != &*o[k]) fail(VALUE, "pair: the assignment does not return the object"); } m[k][0] = m[q][0]; m[k][1] = m[q][1]; return;
      case P_CONV: { const Q from(Num<typename Q::first_type>::mk(v), Num<typename Q::second_type>::mk(w)); o[k].kill(); o[k].make(from); break; }
      case P_CONV_ASSIGN: { const Q from(Num<typename Q::first_type>::mk(v), Num<typename Q::second_type>::mk(w)); Sut s; if (&(*o[k] = from) != &*o[k]) fail(VALUE, "pair: the assignment does not return the object"); break; }
      case P_SWAP: { Sut s; o[k]->swap(*o[q]); } std::swap(m[k][0], m[q][0]); std::swap(m[k][1], m[q][1]); return;
      case P_GSWAP: { Sut s; ttl::swap(*o[k], *o[q]); } std::swap(m[k][0], m[q][0]); std::swap(m[k][1], m[q][1]); return;
      case P_MAKE:
      {
         const T1 a(Num<T1>::mk(v)); const T2 b(Num<T2>::mk(w));
         o[k].kill(); o[k].raw();
         { Sut s; ::new (o[k].mem) P(ttl::make_pair(a, b)); o[k].alive = true; }
         if (V<T1>::get(a) != v || V<T2>::get(b) != w) fail(VALUE, "make_pair changed its arguments");
         break;
      }
      case P_SELECT:
      {
         Sut s;
         ttl::select_first<P> s1; ttl::select_second<P> s2;
         const P &c = *o[k];
         if (&s1(*o[k]) != &c.first || &s1(c) != &c.first || &s2(*o[k]) != &c.second || &s2(c) != &c.second) fail(VALUE, "select_first or select_second: not the member");
         s1(*o[k]) = Num<T1>::mk(v); s2(*o[k]) = Num<T2>::mk(w);
         break;
      }
      case P_WRITE: { Sut s; o[k]->first = Num<T1>::mk(v); o[k]->second = Num<T2>::mk(w); break; }
      }
      m[k][0] = v; m[k][1] = w;
   }
   void check()
   {
      Sut su;
      for (int k = 0; k < 2; ++k)
      {
         const P &a = *o[k];
         if (V<T1>::get(a.first) != m[k][0] || V<T2>::get(a.second) != m[k][1]) { fail(VALUE, "pair %d is (%d,%d), expected (%d,%d)", k, V<T1>::get(a.first), V<T2>::get(a.second), m[k][0], m[k][1]); return; }
         for (int q = 0; q < 2; ++q)
         {
            const bool e = Num<T1>::eq(m[k][0], m[q][0]) && Num<T2>::eq(m[k][1], m[q][1]);
            if ((a == o[q].c()) != e || (a != o[q].c()) == e) fail(VALUE, "pairs (%d,%d) and (%d,%d): == or != is wrong", m[k][0], m[k][1], m[q][0], m[q][1]);
         }
      }
   }
};

// ---------------------------------------------------------------- functors, helpers
template<class T> const T *samples(int &n)
{
   static const T x[] = { std::numeric_limits<T>::lowest(), (T)(std::numeric_limits<T>::lowest() + 1), (T)-1, (T)0, (T)1, (T)2, (T)(std::numeric_limits<T>::max() - 1), std::numeric_limits<T>::max(), (T)(std::numeric_limits<T>::max() / 2 + 1), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::infinity(), (T)(-std::numeric_limits<T>::infinity()), (T)-0.0, std::numeric_limits<T>::min() };
   n = sizeof x / sizeof *x;
   return x;
}
enum { NS = 14, NTYPES = 12, NE = 40 };
template<class F> void with_type(int t, F f)
{
   switch (t)
   {
   case 0: f((signed char)0); break; case 1: f((unsigned char)0); break; case 2: f((short)0); break; case 3: f((unsigned short)0); break;
   case 4: f(0); break; case 5: f(0u); break; case 6: f(0L); break; case 7: f(0UL); break; case 8: f(0LL); break; case 9: f(0ULL); break;
   case 10: f(0.f); break; case 11: f(0.); break;
   }
}
struct FuncSys
{
   const Cfg &cfg;
   int step;
   static const char *opname(int c) { return c < NOPS ? names[c] : "?"; }
   FuncSys(const Cfg &c, const Hist *): cfg(c), step(0) {}
   void destroy() {}
   void canon(Canon &c) { c.value(1); }
   void check() {}
   std::string str(const Op &p) { return strf("%s(%d,%d,%d)", names[p.c], p.a[0], p.a[1], p.a[2]); }
   void ops(std::vector<Op> &r)
   {
      for (int t = 0; t < NTYPES; ++t) for (int i = 0; i < NS; ++i) for (int j = 0; j < NS; ++j) { r.push_back(Op(F_CMP, t, i, j)); r.push_back(Op(F_SWAP, t, i, j)); }
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.push_back(Op(F_CMP_ELEM, i, j));
      for (int i = 0; i < NE; ++i) for (int j = 0; j < NE; ++j) { r.push_back(Op(F_CMP_PTR, i, j)); r.push_back(Op(F_DISTANCE, i, j)); r.push_back(Op(F_ADVANCE, i, j)); }
      r.push_back(Op(F_COUNTOF)); r.push_back(Op(F_MOVE)); r.push_back(Op(F_SAME));
      for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j) r.push_back(Op(F_KEYS, i, j));
   }
   static int far(int i) { return i < 9 ? i : (1 << (i / 3 + 6 < 24 ? i / 3 + 6 : 24)) + i % 3 - 1; }
   template<class T> static void cmp(const T &a, const T &b, bool lt, bool gt, bool eq, bool ne)
   {
      const ttl::less<T> f = ttl::less<T>(); const ttl::greater<T> h = ttl::greater<T>(); const ttl::equal_to<T> e = ttl::equal_to<T>(); const ttl::not_equal_to<T> n = ttl::not_equal_to<T>();
      if (f(a, b) != lt) fail(VALUE, "less is wrong");
      if (h(a, b) != gt) fail(VALUE, "greater is wrong");
      if (e(a, b) != eq) fail(VALUE, "equal_to is wrong");
      if (n(a, b) != ne) fail(VALUE, "not_equal_to is wrong");
      static_assert(std::is_same<typename ttl::less<T>::first_argument_type, T>::value && std::is_same<typename ttl::less<T>::result_type, bool>::value, "");
   }
   template<class K, class C> static void keys(int i, int j, bool want)
   {
      typedef ttl::map<K, int, C> M;
      const typename M::value_type a(K(i / 2), i % 2), b(K(j / 2), j % 2);
      const typename M::value_compare c = typename M::value_compare();
      if (c(a, b) != want) fail(VALUE, "map::value_compare is wrong");
      const typename M::key_compare k = typename M::key_compare();
      if (k(a.first, b.first) != want) fail(VALUE, "map::key_compare is wrong");
      const typename ttl::set<K, C>::key_compare s = typename ttl::set<K, C>::key_compare();
      if (s(a.first, b.first) != want) fail(VALUE, "set::key_compare is wrong");
   }
   void apply(const Op &p)
   {
      Sut su;
      switch (p.c)
      {
      case F_KEYS:
         keys<int, ttl::less<int> >(p.a[0], p.a[1], p.a[0] / 2 < p.a[1] / 2); keys<int, ttl::greater<int> >(p.a[0], p.a[1], p.a[0] / 2 > p.a[1] / 2);
         keys<Elem, ttl::less<Elem> >(p.a[0], p.a[1], p.a[0] / 2 < p.a[1] / 2); keys<Elem, ttl::greater<Elem> >(p.a[0], p.a[1], p.a[0] / 2 > p.a[1] / 2);
         break;
      case F_CMP: with_type(p.a[0], [&](auto z) { typedef decltype(z) T; int n; const T *x = samples<T>(n); const T a = x[p.a[1]], b = x[p.a[2]]; cmp(a, b, a < b, a > b, a == b, a != b);
         const T &ra = x[p.a[1]], &rb = x[p.a[2]]; cmp(ra, rb, a < b, a > b, a == b, a != b); }); break;
      case F_SWAP: with_type(p.a[0], [&](auto z) {
         typedef decltype(z) T; int n; const T *x = samples<T>(n);
         T c[4] = { x[3], x[p.a[1]], x[p.a[2]], x[4] };
         ttl::swap(c[1], c[2]);
         if (memcmp(&c[1], &x[p.a[2]], sizeof(T) ) || memcmp(&c[2], &x[p.a[1]], sizeof(T)) || c[0] != x[3] || c[3] != x[4]) fail(VALUE, "swap: the values were not exchanged");
         ttl::swap(c[1], c[1]);
         if (memcmp(&c[1], &x[p.a[2]], sizeof(T))) fail(VALUE, "swap with itself changed the value");
      }); break;
      case F_CMP_ELEM: { Elem a(p.a[0]), b(p.a[1]); cmp(a, a, false, false, true, false); cmp(a, b, p.a[0] < p.a[1], p.a[0] > p.a[1], p.a[0] == p.a[1], p.a[0] != p.a[1]); ttl::swap(a, b); if (V<Elem>::get(a) != p.a[1] || V<Elem>::get(b) != p.a[0]) fail(VALUE, "swap: the values were not exchanged"); break; }
      case F_CMP_PTR: { static const int x[NE] = {}; const int *a = x + p.a[0], *b = x + p.a[1]; cmp(a, b, p.a[0] < p.a[1], p.a[0] > p.a[1], p.a[0] == p.a[1], p.a[0] != p.a[1]); break; }
      case F_DISTANCE:
      {
         static const int x[NE] = {};
         static char y[(1 << 24) + 2];
         const int pi = far(p.a[0]), pj = far(p.a[1]);
         if (ttl::distance(y + pi, y + pj) != pj - pi || ttl::distance(RA<char>(y + pi), RA<char>(y + pj)) != pj - pi) fail(VALUE, "distance is wrong: from %d to %d", pi, pj);
         if (ttl::distance(x + p.a[0], x + p.a[1]) != p.a[1] - p.a[0] || ttl::distance(RA<int>(x + p.a[0]), RA<int>(x + p.a[1])) != p.a[1] - p.a[0]) fail(VALUE, "distance is wrong");
         break;
      }
      case F_ADVANCE:
      {
         static const int x[NE] = {};
         const int *i = x + p.a[0]; RA<int> j(x + p.a[0]);
         static char y[(1 << 24) + 2];
         const int pi = far(p.a[0]), pj = far(p.a[1]);
         const char *u = y + pi; RA<char> w(y + pi);
         ttl::advance(u, (ptrdiff_t)pj - pi); ttl::advance(w, pj - pi);
         if (u != y + pj || w.p != y + pj) fail(VALUE, "advance is wrong: from %d to %d", pi, pj);
         ttl::advance(i, (int)p.a[1] - (int)p.a[0]); ttl::advance(j, (long)p.a[1] - (long)p.a[0]);
         if (i != x + p.a[1] || j.p != x + p.a[1]) fail(VALUE, "advance is wrong");
         if (p.a[1] >= p.a[0])
         {
            const unsigned n = p.a[1] - p.a[0];
            const int *i1 = x + p.a[0], *i2 = i1, *i3 = i1, *i4 = i1; RA<int> i5(i1);
            ttl::advance(i1, n); ttl::advance(i2, (size_t)n); ttl::advance(i3, (unsigned char)n); ttl::advance(i4, (short)n); ttl::advance(i5, n);
            if (i1 != i || i2 != i || i3 != i || i4 != i || i5.p != i) fail(VALUE, "advance by an unsigned or short distance is wrong");
         }
         break;
      }
      case F_COUNTOF: { char a[1]; int b[7]; const Elem *c[300]; if (countof(a) != 1 || countof(b) != 7 || ttl_countof(c) != 300) fail(VALUE, "countof is wrong"); break; }
#ifdef OLD_CXX // move is the identity
      case F_MOVE: { Elem a(3); int b = 4; const int c = 5; if (&ttl::move(a) != &a || &ttl::move(b) != &b || &ttl::move(c) != &c || V<Elem>::get(a) != 3) fail(VALUE, "move: another object"); static_assert(std::is_same<decltype(ttl::move(b)), int &>::value && std::is_same<decltype(ttl::move(c)), const int &>::value, "move"); break; }
#else
      case F_MOVE: { Elem a(3); int b = 4; const int c = 5; if (&static_cast<const Elem &>(ttl::move(a)) != &a || &static_cast<const int &>(ttl::move(b)) != &b || &static_cast<const int &>(ttl::move(c)) != &c || V<Elem>::get(a) != 3) fail(VALUE, "move: another object"); static_assert(std::is_same<decltype(ttl::move(b)), int &&>::value && std::is_same<decltype(ttl::move(c)), const int &&>::value && std::is_same<decltype(ttl::move(4)), int &&>::value, "move"); break; }
#endif
      case F_SAME: { Elem a(3); ttl::select_same<Elem> s; if (&s(a) != &a) fail(VALUE, "select_same: another object"); break; }
      }
   }
};

template<class T> int arrays(const Cfg &cfg)
{
   switch (cfg.num("N", 2))
   {
   case 0: return drive<ArraySys<T, 0> >(cfg);
   case 1: return drive<ArraySys<T, 1> >(cfg);
   case 2: return drive<ArraySys<T, 2> >(cfg);
   case 3: return drive<ArraySys<T, 3> >(cfg);
   case 4: return drive<ArraySys<T, 4> >(cfg);
   case 5: return drive<ArraySys<T, 5> >(cfg);
   case 8: return drive<ArraySys<T, 8> >(cfg);
   case 17: return drive<ArraySys<T, 17> >(cfg);
   case 300: return drive<ArraySys<T, 300> >(cfg);
   }
   return 2;
}
int main(int argc, char **argv)
{
   Cfg cfg = parse(argc, argv);
   const std::string s = cfg.get("sys", "array"), e = cfg.get("elem", "Elem");
   if (s == "array") return e == "double" ? arrays<double>(cfg) : e == "int" ? arrays<int>(cfg) : e == "char" ? arrays<signed char>(cfg) : arrays<Elem>(cfg);
   if (s == "func") return drive<FuncSys>(cfg);
   if (e == "int") return drive<PairSys<int, long> >(cfg);
   if (e == "id") return drive<PairSys<int, double> >(cfg);
   if (e == "de") return drive<PairSys<double, Elem2> >(cfg);
   if (e == "dd") return drive<PairSys<double, double> >(cfg);
   if (e == "ec") return drive<PairSys<Elem2, signed char> >(cfg);
   if (e == "ie") return drive<PairSys<int, Elem2> >(cfg);
   return drive<PairSys<Elem2, Elem2> >(cfg);
}
