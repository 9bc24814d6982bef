// ttl::vector (KIND 1), ttl::fixed_vector<T,N> (KIND 2): one or two objects
#include "ttl/utility.hpp"
#include "ttl/functional.hpp"
#include "ttl/algorithm.hpp"
#if KIND == 1
#include "ttl/vector.hpp"
#else
#include "ttl/fixed_vector.hpp"
#endif
#include "mc.hpp"
using namespace mc;

#define OPS(X) \
   X(INIT) X(PUSH_BACK) X(POP_BACK) X(INSERT) X(INSERT_N) X(INSERT_RANGE) X(INSERT_RA) X(INSERT_OTHER) X(ERASE) X(ERASE_RANGE) \
   X(RESIZE) X(RESIZE_V) X(RESERVE) X(CLEAR) X(ASSIGN_N) X(ASSIGN_RANGE) X(ASSIGN_RA) X(CTOR) X(CTOR_N) X(CTOR_NV) X(CTOR_RANGE) X(CTOR_RA) X(CTOR_COPY) \
   X(WRITE) X(SWAP) X(SWAP_SELF) X(GSWAP) X(COPY_ASSIGN) X(SELF_ASSIGN) X(A_PUSH_BACK) X(A_INSERT) X(A_INSERT_N) X(A_RESIZE)
#define E(x) x,
enum { OPS(E) NOPS };
#undef E
#define N_(x) #x,
static const char *const names[] = { OPS(N_) };
#undef N_

template<class T, unsigned N> struct VecSys
{
#if KIND == 1
   typedef ttl::vector<T> L;
#else
   typedef ttl::fixed_vector<T, N> L;
#endif
   const Cfg &cfg;
   int nobj, cap, alpha, cntmax, init, imin, big, slack;
   Box<L> o[2];
   std::vector<int> m[2];
   int step;

   static const char *opname(int c) { return c < NOPS ? names[c] : "?"; }
   VecSys(const Cfg &c, const Hist *): cfg(c), step(0)
   {
      nobj = cfg.num("nobj", 1); cap = cfg.num("cap", 3); alpha = cfg.num("alpha", 2); cntmax = cfg.num("cnt", 2);
      init = cfg.num("init", 0); imin = cfg.num("imin", 0); big = cfg.num("big", 0); slack = cfg.num("slack", 2);
      if (KIND == 2) { cap = N; if (init > (int)N) init = N; if (imin > (int)N) imin = N; }
      for (int i = 0; i < nobj; ++i) o[i].make();
   }
   void destroy() { for (int i = 0; i < nobj; ++i) o[i].kill(); }
   void canon(Canon &c)
   {
      for (int i = 0; i < nobj; ++i)
      {
         c.root(o[i].mem, sizeof(L));
         if (!std::is_same<T, Elem>::value)
         {
#if KIND == 1
            c.mask(o[i]->data() + o[i]->size(), o[i]->data() + o[i]->capacity());
#else
            c.mask(o[i]->data() + o[i]->size(), o[i]->data() + N);
#endif
         }
      }
      if (init) c.value(step > 0);
   }
   // the counts used where everything beyond the capacity must be dropped
   enum { HUGE1 = 65533, HUGE2, HUGE3 };
   static size_t count(int c) { return KIND == 1 ? c : c == HUGE3 ? (size_t)-1 : c == HUGE2 ? (size_t)-1 / sizeof(T) + 2 : c == HUGE1 ? (size_t)1 << 63 : c; }
   void counts(std::vector<int> &r, int room)
   {
      r.clear();
      if (KIND == 1) { for (int c = 0; c <= cntmax && c <= room; ++c) r.push_back(c); big_counts(r, std::min(big, room)); return; }
      for (int c = 0; c <= cntmax && c <= (int)N + 2; ++c) r.push_back(c);
      big_counts(r, std::min<int>(big, N + 2));
      if (cntmax < (int)N + 1) r.push_back(N + 1);
      r.push_back(HUGE3); r.push_back(HUGE2); r.push_back(HUGE1);
   }
   // without big every size up to the bound, with it only the selected ones
   bool use(int c, int n) const { if (c > 65535) return false; if (!big) return thin_pos(c, n); if (c <= cntmax) return true; std::vector<int> b; big_counts(b, big); for (int x : b) if (c == x || c == n + x || c == n - x) return true; return c == n; }
   // longest source range used
   int rmax(int room) const { return KIND == 1 ? std::min(cntmax, room) : std::min<int>(cntmax, N + 2); }

   void ops(std::vector<Op> &r)
   {
      const bool seq = cfg.has("grp", "seq"), copy = cfg.has("grp", "copy"), alias = cfg.has("grp", "alias"), build = cfg.has("grp", "build");
      if (init && !step)
      {
         for (int n = imin; n <= init; ++n)
            for (int n2 = nobj > 1 ? imin : 0; n2 <= (nobj > 1 ? init : 0); ++n2)
               for (int sl = 0; sl <= (KIND == 1 ? slack : 0); ++sl)
                  for (int sl2 = 0; sl2 <= (KIND == 1 && nobj > 1 ? std::min(slack, 1) : 0); ++sl2) r.push_back(Op(INIT, n, n2, sl, sl2));
         return;
      }
      std::vector<int> cs;
      for (int k = 0; k < nobj; ++k)
      {
         const int n = m[k].size(), C = big && KIND == 1 ? 66000 : init && KIND == 1 ? n + cntmax + 3 : cap;
         const int q = 1 - k, nq = nobj > 1 ? m[q].size() : 0;
         const bool over = KIND == 2; // a full fixed_vector accepts, and drops, more
         counts(cs, C - n);
         std::vector<int> rs; // lengths of source ranges
         for (int c = 0; c <= rmax(C - n); ++c) rs.push_back(c);
         big_counts(rs, std::min<int>(big, KIND == 1 ? C - n : N + 2));
         if (seq || build || copy)
         {
            if (n < C || over) for (int v = 1; v <= alpha; ++v) r.push_back(Op(PUSH_BACK, k, v));
            if (n) r.push_back(Op(POP_BACK, k));
            if (KIND == 1) for (int c = 0; c <= C + 1 && c <= 65535; ++c) if (use(c, n)) r.push_back(Op(RESERVE, k, c));
         }
         if (seq)
         {
            for (int p = 0; p <= n; ++p) if (thin_pos(p, n))
            {
               for (int v = 1; v <= alpha; ++v)
               {
                  if (n < C || over) r.push_back(Op(INSERT, k, p, v));
                  for (size_t i = 0; i < cs.size(); ++i) r.push_back(Op(INSERT_N, k, p, cs[i], v));
               }
               for (int c : rs)
                  for (int v = 1; v <= (c ? alpha : 1); ++v)
                     for (int w = 1; w <= (c > 1 ? alpha : 1); ++w) { r.push_back(Op(INSERT_RANGE, k, p, c, v, w)); r.push_back(Op(INSERT_RA, k, p, c, v, w)); }
               if (p < n) r.push_back(Op(ERASE, k, p));
               for (int l = p; l <= n; ++l) if (thin_pos(l, n)) r.push_back(Op(ERASE_RANGE, k, p, l));
            }
            for (int c = 0; c <= C + (over ? 1 : 0) && c <= 65535; ++c) if (use(c, n))
            {
               r.push_back(Op(RESIZE, k, c));
               r.push_back(Op(CTOR_N, k, c));
               for (int v = 1; v <= alpha; ++v) { r.push_back(Op(RESIZE_V, k, c, v)); r.push_back(Op(ASSIGN_N, k, c, v)); r.push_back(Op(CTOR_NV, k, c, v)); }
               if (c <= cntmax + 2 || big)
                  for (int v = 1; v <= (c ? alpha : 1); ++v)
                     for (int w = 1; w <= (c > 1 ? alpha : 1); ++w)
                     {
                        r.push_back(Op(ASSIGN_RANGE, k, c, v, w)); r.push_back(Op(CTOR_RANGE, k, c, v, w));
                        r.push_back(Op(ASSIGN_RA, k, c, v, w)); r.push_back(Op(CTOR_RA, k, c, v, w));
                     }
            }
            if (over)
               for (int c = HUGE1; c <= HUGE3; ++c)
               { r.push_back(Op(RESIZE, k, c)); r.push_back(Op(RESIZE_V, k, c, 1)); r.push_back(Op(ASSIGN_N, k, c, 1)); r.push_back(Op(CTOR_N, k, c)); r.push_back(Op(CTOR_NV, k, c, 1)); }
            r.push_back(Op(CTOR, k));
            if (nobj > 1)
               for (int p = 0; p <= n; ++p) if (thin_pos(p, n))
                  for (int f = 0; f <= nq; ++f) if (thin_pos(f, nq))
                     for (int l = f; l <= nq; ++l) if (thin_pos(l, nq))
                        if (n + l - f <= C || over) r.push_back(Op(INSERT_OTHER, k, p, f, l));
         }
         if (seq || copy)
         {
            for (int p = 0; p < n; ++p) if (thin_pos(p, n)) for (int via = 0; via < (copy ? 1 : 6); ++via) r.push_back(Op(WRITE, k, p, alpha - (m[k][p] >= alpha), via));
            r.push_back(Op(CLEAR, k));
            r.push_back(Op(SWAP_SELF, k)); r.push_back(Op(SELF_ASSIGN, k));
            if (nobj > 1) { r.push_back(Op(SWAP, k)); r.push_back(Op(GSWAP, k)); r.push_back(Op(COPY_ASSIGN, k)); r.push_back(Op(CTOR_COPY, k)); }
         }
         if (alias)
            for (int j = 0; j < n; ++j) if (thin_pos(j, n))
            {
               if (n < C || over) r.push_back(Op(A_PUSH_BACK, k, j));
               for (int p = 0; p <= n; ++p) if (thin_pos(p, n))
               {
                  if (n < C || over) r.push_back(Op(A_INSERT, k, p, j));
                  for (size_t i = 0; i < cs.size(); ++i) r.push_back(Op(A_INSERT_N, k, p, cs[i], j));
               }
               for (int c = n; c <= C; ++c) if (use(c, n)) r.push_back(Op(A_RESIZE, k, c, j));
               for (int c = j; c < n; ++c) if (use(c, n)) r.push_back(Op(A_RESIZE, k, c, j));
            }
      }
   }

   std::string str(const Op &p)
   {
      std::string r = names[p.c];
      if (p.c != INIT) r += p.a[0] ? "(B" : "(A"; else r += strf("(%d", p.a[0]);
      for (int i = 1; i < 5; ++i) r += strf(",%d", p.a[i]);
      return r + ")";
   }

   void trunc(int k) { if (KIND == 2 && m[k].size() > N) m[k].resize(N); }
   void ins(int k, int pos, size_t n, int v)
   {
      if (KIND == 2 && n > N) n = N;
      m[k].insert(m[k].begin() + pos, n, v);
      trunc(k);
   }
   void put(int k, int pos, const std::vector<int> &src) { m[k].insert(m[k].begin() + pos, src.begin(), src.end()); trunc(k); }
   void ret(typename L::iterator got, int k, int pos, const char *what)
   {
      MC_CHECK(VALUE, got - o[k]->begin() == pos, "%s returned position %ld instead of %d", what, (long)(got - o[k]->begin()), pos);
   }
   static void mres(std::vector<int> &s, size_t n, int v) { if (KIND == 2 && n > N) n = N; s.resize(n, v); }

   void apply(const Op &p)
   {
      ++step;
      const int k = p.a[0] & 1, q = nobj > 1 ? 1 - k : k;
      const Spent sp0;
      const long al0 = g().allocs;
      const size_t c0 = p.c == INIT ? 0 : o[k]->capacity();
      T *const d0 = p.c == INIT ? 0 : o[k]->data();
      const int n0 = p.c == INIT ? 0 : m[k].size();
      int first = -1;        // first position the operation modifies; -1: no statement about addresses
      bool grows = true;     // subject to the capacity promises
      g().watch_lo = g().watch_hi = 0; g().touched = 0;
#define WATCH(pos) do { first = (pos); if (d0) { g().watch_lo = (uintptr_t)d0; g().watch_hi = (uintptr_t)(d0 + first); } } while (0)
      switch (p.c)
      {
      case INIT:
         for (int j = 0; j < nobj; ++j)
         {
#if KIND == 1
            { Sut s; o[j]->reserve(p.a[j] + p.a[2 + j]); }
#endif
            for (int i = 0; i < p.a[j]; ++i)
            {
               T x(Num<T>::mk(1 + i % 100));
               { Sut s; o[j]->push_back(x); }
               m[j].push_back(1 + i % 100);
            }
         }
         break;
      case PUSH_BACK: { T x(Num<T>::mk(p.a[1])); WATCH(n0); { Sut s; o[k]->push_back(x); } ins(k, n0, 1, p.a[1]); break; }
      case A_PUSH_BACK: { int v = m[k][p.a[1]]; WATCH(n0); { Sut s; o[k]->push_back((*o[k])[p.a[1]]); } ins(k, n0, 1, v); break; }
      case POP_BACK: WATCH(n0 - 1); { Sut s; o[k]->pop_back(); } m[k].pop_back(); break;
      case INSERT: { T x(Num<T>::mk(p.a[2])); typename L::iterator r; WATCH(p.a[1]); { Sut s; r = o[k]->insert(o[k]->begin() + p.a[1], x); } ins(k, p.a[1], 1, p.a[2]); ret(r, k, p.a[1], "insert(pos, x)"); break; }
      case A_INSERT: { int v = m[k][p.a[2]]; typename L::iterator r; WATCH(p.a[1]); { Sut s; r = o[k]->insert(o[k]->begin() + p.a[1], (*o[k])[p.a[2]]); } ins(k, p.a[1], 1, v); ret(r, k, p.a[1], "insert(pos, x)"); break; }
      case INSERT_N: { T x(Num<T>::mk(p.a[3])); typename L::iterator r; WATCH(p.a[1]); { Sut s; r = o[k]->insert(o[k]->cbegin() + p.a[1], count(p.a[2]), x); } ins(k, p.a[1], count(p.a[2]), p.a[3]); ret(r, k, p.a[1], "insert(pos, n, x)"); break; }
      case A_INSERT_N: { int v = m[k][p.a[3]]; typename L::iterator r; WATCH(p.a[1]); { Sut s; r = o[k]->insert(o[k]->cbegin() + p.a[1], count(p.a[2]), (*o[k])[p.a[3]]); } ins(k, p.a[1], count(p.a[2]), v); ret(r, k, p.a[1], "insert(pos, n, x)"); break; }
      case INSERT_RANGE: case INSERT_RA:
      {
         const int c = p.a[2];
         std::vector<T> src; std::vector<int> sv;
         for (int i = 0; i < c; ++i) { sv.push_back(i & 1 ? p.a[4] : p.a[3]); src.push_back(Num<T>::mk(sv[i])); }
         const T *f = src.data();
         typename L::iterator r;
         WATCH(p.a[1]);
         { Sut s; r = p.c == INSERT_RA ? o[k]->insert(o[k]->begin() + p.a[1], RA<T>(f), RA<T>(f + c)) : o[k]->insert(o[k]->begin() + p.a[1], f, f + c); }
         g().watch_hi = 0;
         put(k, p.a[1], sv); ret(r, k, p.a[1], "insert(pos, first, last)");
         break;
      }
      case INSERT_OTHER:
      {
         typename L::iterator r;
         WATCH(p.a[1]);
         { Sut s; r = o[k]->insert(o[k]->begin() + p.a[1], o[q].c().begin() + p.a[2], o[q].c().begin() + p.a[3]); }
         put(k, p.a[1], std::vector<int>(m[q].begin() + p.a[2], m[q].begin() + p.a[3])); ret(r, k, p.a[1], "insert(pos, first, last)");
         break;
      }
      case ERASE: { typename L::iterator r; WATCH(p.a[1]); { Sut s; r = o[k]->erase(o[k]->begin() + p.a[1]); } m[k].erase(m[k].begin() + p.a[1]); ret(r, k, p.a[1], "erase(pos)"); break; }
      case ERASE_RANGE:
      {
         typename L::iterator r;
         WATCH(p.a[1] == p.a[2] ? n0 : p.a[1]);
         { Sut s; r = o[k]->erase(o[k]->begin() + p.a[1], o[k]->begin() + p.a[2]); }
         m[k].erase(m[k].begin() + p.a[1], m[k].begin() + p.a[2]); ret(r, k, p.a[1], "erase(first, last)");
         break;
      }
      case RESIZE: WATCH((int)std::min(count(p.a[1]), (size_t)n0)); { Sut s; o[k]->resize(count(p.a[1])); } mres(m[k], count(p.a[1]), 0); break;
      case RESIZE_V: { T x(Num<T>::mk(p.a[2])); WATCH((int)std::min(count(p.a[1]), (size_t)n0)); { Sut s; o[k]->resize(count(p.a[1]), x); } mres(m[k], count(p.a[1]), p.a[2]); break; }
      case A_RESIZE: { int v = m[k][p.a[2]]; WATCH(std::min<int>(p.a[1], n0)); { Sut s; o[k]->resize((size_t)p.a[1], (*o[k])[p.a[2]]); } mres(m[k], p.a[1], v); break; }
#if KIND == 1
      case RESERVE:
         { Sut s; o[k]->reserve(p.a[1]); }
         MC_CHECK(CAP, o[k]->capacity() >= p.a[1], "capacity() is %zu after reserve(%d)", (size_t)o[k]->capacity(), p.a[1]);
         if (p.a[1] <= c0)
            MC_CHECK(CAP, g().allocs == al0 && o[k]->data() == d0, "reserve(%d) reallocated a capacity of %zu", p.a[1], c0);
         break;
#endif
      case CLEAR: { Sut s; o[k]->clear(); } m[k].clear(); break;
      case ASSIGN_N: { T x(Num<T>::mk(p.a[2])); { Sut s; o[k]->assign(count(p.a[1]), x); } m[k].clear(); ins(k, 0, count(p.a[1]), p.a[2]); break; }
      case ASSIGN_RANGE: case ASSIGN_RA: case CTOR_RANGE: case CTOR_RA:
      {
         const int c = p.a[1];
         std::vector<T> src; std::vector<int> sv;
         for (int i = 0; i < c; ++i) { sv.push_back(i & 1 ? p.a[3] : p.a[2]); src.push_back(Num<T>::mk(sv[i])); }
         const T *f = src.data();
         m[k].clear(); put(k, 0, sv);
         if (p.c == ASSIGN_RANGE) { Sut s; o[k]->assign(f, f + c); }
         else if (p.c == ASSIGN_RA) { Sut s; o[k]->assign(RA<T>(f), RA<T>(f + c)); }
         else
         {
            o[k].kill();
            if (p.c == CTOR_RANGE) o[k].make(f, f + c); else o[k].make(RA<T>(f), RA<T>(f + c));
            grows = false;
         }
         break;
      }
      case CTOR: o[k].kill(); o[k].make(); m[k].clear(); grows = false; break;
      case CTOR_N: o[k].kill(); o[k].make(count(p.a[1])); m[k].clear(); ins(k, 0, count(p.a[1]), 0); grows = false; break;
      case CTOR_NV: { T x(Num<T>::mk(p.a[2])); o[k].kill(); o[k].make(count(p.a[1]), (const T &)x); m[k].clear(); ins(k, 0, count(p.a[1]), p.a[2]); grows = false; break; }
      case CTOR_COPY: o[k].kill(); o[k].make(o[q].c()); m[k] = m[q]; grows = false; break;
      case WRITE:
      {
         T x(Num<T>::mk(p.a[2])); const int i = p.a[1];
         {
            Sut s;
            L &l = *o[k];
            switch (p.a[3])
            {
            case 0: l[i] = x; break;
            case 1: l.at(i) = x; break;
            case 2: l.data()[i] = x; break;
            case 3: *(l.begin() + i) = x; break;
            case 4: if (i == 0) l.front() = x; else l[i] = x; break;
            case 5: if (i == n0 - 1) l.back() = x; else *(l.end() - (n0 - i)) = x; break;
            }
         }
         m[k][i] = p.a[2];
         break;
      }
      case SWAP: { Sut s; o[k]->swap(*o[q]); } m[k].swap(m[q]); grows = false; break;
      case GSWAP: { Sut s; ttl::swap(*o[k], *o[q]); } m[k].swap(m[q]); grows = false; break;
      case SWAP_SELF: { Sut s; o[k]->swap(*o[k]); } grows = false; break;
      case COPY_ASSIGN:
      {
         { Sut s; L &r = *o[k] = o[q].c(); Harness h; MC_CHECK(VALUE, &r == &*o[k], "operator= does not return its object"); }
         m[k] = m[q]; grows = false;
         MC_CHECK(CAP, o[k]->capacity() >= c0, "capacity() decreased from %zu to %zu in an assignment", c0, (size_t)o[k]->capacity());
         break;
      }
      case SELF_ASSIGN: { Sut s; L &self = *o[k]; *o[k] = self; } grows = false; break;
      }
      g().watch_lo = g().watch_hi = 0;
      long held = 0;
#if KIND == 1
      for (int j = 0; j < nobj; ++j) held += o[j]->capacity() > 0;
      economy(names[p.c], Spent() - sp0, p.c == INIT ? 1000000 : p.c == GSWAP ? 3 : p.c == SWAP || p.c == SWAP_SELF || p.c == WRITE || (m[k].empty() && p.c != RESERVE && p.c != COPY_ASSIGN && p.c != SELF_ASSIGN && !(p.c >= CTOR && p.c <= CTOR_COPY)) ? 0 : p.c == ASSIGN_RANGE || p.c == ASSIGN_RA || p.c == CTOR_RANGE || p.c == CTOR_RA ? std::max<long>(1, m[k].size()) : 1, held, nobj);
#else
      economy(names[p.c], Spent() - sp0, 0, held, held);
#endif
      if (p.c == INIT) return;
      {
         const long n1 = m[k].size(), both = m[0].size() + m[1].size(), f = first < 0 ? 0 : first;
         const bool fits = n1 <= (long)c0;
         long lim = -1;
         switch (p.c)
         {
         case PUSH_BACK: case A_PUSH_BACK: lim = (fits ? 0 : n0) + 2; break;
         case INSERT: case A_INSERT: case INSERT_N: case A_INSERT_N: case INSERT_RANGE: case INSERT_RA: case INSERT_OTHER: lim = (fits ? n1 - f : n1) + 2; break;
         case ERASE: lim = n1 - f; break;
         case ERASE_RANGE: lim = n1 == n0 ? 0 : n1 - f; break;
         case RESIZE: case RESIZE_V: case A_RESIZE: lim = (n1 <= n0 ? 0 : fits ? n1 - n0 : n1) + 2; break;
         case RESERVE: lim = o[k]->capacity() == c0 ? 0 : n0; break;
         case POP_BACK: case CLEAR: case CTOR: lim = 0; break;
         case ASSIGN_N: case CTOR_N: case CTOR_NV: lim = n1 + 2; break;
         case COPY_ASSIGN: case SELF_ASSIGN: case CTOR_COPY: lim = n1; break;
         case WRITE: lim = 1; break;
         case SWAP: lim = KIND == 1 ? 0 : 3 * both; break;
         case SWAP_SELF: lim = KIND == 1 ? 0 : 3 * n1; break;
         case GSWAP: lim = 3 * both; break;
         }
         if (lim >= 0) effort(names[p.c], Spent() - sp0, lim, 0);
      }
#if KIND == 1
      if (grows && !g().failed)
      {
         const size_t c1 = o[k]->capacity();
         MC_CHECK(CAP, c1 >= c0, "%s: capacity() decreased from %zu to %zu", names[p.c], c0, c1);
         MC_CHECK(CAP, c1 >= m[k].size(), "%s: capacity() %zu is below the size %zu", names[p.c], c1, m[k].size());
         if (m[k].size() <= c0 && p.c != RESERVE)
         {
            MC_CHECK(CAP, g().allocs == al0, "%s allocated although the new size %zu does not exceed the capacity %zu", names[p.c], m[k].size(), c0);
            MC_CHECK(CAP, o[k]->data() == d0, "%s moved the storage although the new size %zu does not exceed the capacity %zu", names[p.c], m[k].size(), c0);
            if (first >= 0) MC_CHECK(CAP | WORK, !g().touched, "%s: elements before position %d were reassigned, destroyed or recreated", names[p.c], first);
         }
      }
#else
      MC_CHECK(COST, g().allocs == al0, "%s allocated memory", names[p.c]);
#endif
   }

   void queries()
   {
      Snapshot a(*this);
      {
      Sut su;
      for (int k = 0; k < nobj; ++k)
      {
         L &l = *o[k]; const L &c = o[k].c();
         sink(c.size()); sink(c.empty()); sink(c.capacity()); sink(c.max_size()); sink(c.data()); sink(l.data()); sink(l.size()); sink(l.empty());
#if KIND == 2
         sink(c.full());
#endif
         sink(c == o[nobj - 1].c()); sink(c != o[nobj - 1].c()); sink(o[nobj - 1].c() == c); sink(c == c); sink(c != c);
         if (!c.empty()) { sink(c.front()); sink(c.back()); sink(l.front()); sink(l.back()); }
         for (size_t i = 0; i < m[k].size(); ++i) { sink(c[i]); sink(l[i]); sink(c.at(i)); sink(l.at(i)); }
         run_through(l.begin(), l.end()); run_through(c.begin(), c.end()); run_through(c.cbegin(), c.cend());
      }
      }
      a.same("a query", true);
   }
   void check()
   {
      long total = 0;
      for (int k = 0; k < nobj; ++k)
      {
         const char *nm = k ? "B" : "A";
         L &l = *o[k]; const L &c = o[k].c(); const std::vector<int> &s = m[k];
         const size_t n = s.size();
         total += n;
         std::string want;
         own_cursors<true, L, typename L::iterator, typename L::const_iterator>(nm, l, 0, 0);
         if (l.size() != n || c.size() != n) { fail(VALUE, "%s: size() is %zu, expected %zu", nm, (size_t)l.size(), n); return; }
         MC_CHECK(VALUE, l.empty() == !n && c.empty() == !n, "%s: empty() is wrong", nm);
         MC_CHECK(VALUE, l.end() - l.begin() == (ptrdiff_t)n && c.end() - c.begin() == (ptrdiff_t)n && c.cend() - c.cbegin() == (ptrdiff_t)n && c.begin() == l.begin() && c.cbegin() == c.begin(), "%s: begin/end do not delimit %zu elements", nm, n);
         MC_CHECK(VALUE, l.data() == &*l.begin() && c.data() == l.data(), "%s: data() is wrong", nm);
#if KIND == 1
         MC_CHECK(CAP, l.capacity() >= n, "%s: capacity() %zu is below size() %zu", nm, (size_t)l.capacity(), n);
         MC_CHECK(VALUE, c.max_size() >= n, "%s: max_size()", nm);
#else
         MC_CHECK(VALUE, c.capacity() == N && c.max_size() == N && c.full() == (n == N), "%s: capacity(), max_size() or full() is wrong", nm);
         MC_CHECK(VALUE, (const char *)c.data() >= (const char *)o[k].mem && (const char *)(c.data() + N) <= (const char *)o[k].mem + sizeof(L), "%s: the storage is not inside the object", nm);
#endif
         if (g().failed || g().foreign) return;
         for (size_t i = 0; i < n; ++i)
         {
            int v = V<T>::get(c[i]);
            if (v != s[i])
            {
               std::string a, b;
               for (size_t j = 0; j < n; ++j) { a += strf(" %d", V<T>::get(c[j])); b += strf(" %d", s[j]); }
               fail(VALUE, "%s: the contents are%s, expected%s", nm, a.c_str(), b.c_str());
               return;
            }
            if (&l[i] != &c[i] || &l.at(i) != &c[i] || &c.at(i) != &c[i] || l.begin() + i != &c[i] || l.data() + i != &c[i]) { fail(VALUE, "%s: element access at %zu is inconsistent", nm, i); return; }
         }
         if (n)
            MC_CHECK(VALUE, &l.front() == &c[0] && &c.front() == &c[0] && &l.back() == &c[n - 1] && &c.back() == &c[n - 1], "%s: front() or back() is wrong", nm);
         { Sut su; bool e = c == c, x = c != c; Harness h; MC_CHECK(VALUE, e == seq_eq<T>(s, s) && x == !e, "%s: not equal to itself", nm); }
      }
      if (std::is_same<T, Elem>::value)
         MC_CHECK(LIFE, g().live_elems == total, "%ld elements are alive, the contents are %ld", g().live_elems, total);
      if (nobj > 1)
      {
         bool eq = seq_eq<T>(m[0], m[1]);
         MC_CHECK(VALUE, (o[0].c() == o[1].c()) == eq && (o[0].c() != o[1].c()) == !eq && (o[1].c() == o[0].c()) == eq, "== / != is wrong");
      }
   }
};

template<unsigned N> int go(const Cfg &cfg)
{
   if (cfg.get("elem") == "int") return drive<VecSys<int, N> >(cfg);
   if (cfg.get("elem") == "char") return drive<VecSys<char, N> >(cfg);
   if (cfg.get("elem") == "double") return drive<VecSys<double, N> >(cfg);
   return drive<VecSys<Elem, N> >(cfg);
}
int main(int argc, char **argv)
{
   Cfg cfg = parse(argc, argv);
#if KIND == 1
   return go<1>(cfg);
#else
   switch (cfg.num("N", 3))
   {
   case 1: return go<1>(cfg);
   case 2: return go<2>(cfg);
   case 3: return go<3>(cfg);
   case 4: return go<4>(cfg);
   case 5: return go<5>(cfg);
   case 24: return go<24>(cfg);
   case 300: return go<300>(cfg);
   }
   return 2;
#endif
}
