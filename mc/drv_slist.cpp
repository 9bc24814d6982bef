// ttl::forward_list (KIND 1), ttl::backward_list (KIND 2), ttl::lazy_queue (KIND 3): one or two objects
#include "ttl/utility.hpp"
#include "ttl/functional.hpp"
#include "ttl/algorithm.hpp"
#if KIND == 1
#include "ttl/forward_list.hpp"
#elif KIND == 2
#include "ttl/backward_list.hpp"
#else
#include "ttl/lazy_queue.hpp"
#endif
#include "mc.hpp"
using namespace mc;

#define OPS(X) \
   X(INIT) X(PUSH_FRONT) X(PUSH_BACK) X(POP_FRONT) X(INSERT) X(INSERT_N) X(INSERT_RANGE) X(INSERT_OTHER) X(INSERT_BE) \
   X(ERASE) X(ERASE_RANGE) X(CLEAR) X(ASSIGN_N) X(ASSIGN_RANGE) X(CTOR) X(CTOR_N) X(CTOR_RANGE) X(CTOR_COPY) X(WRITE) \
   X(SPLICE_ALL) X(SPLICE_ONE) X(SPLICE_RANGE) X(SWAP) X(SWAP_SELF) X(REVERSE) X(CLEANUP) X(ROLL) \
   X(COPY_ASSIGN) X(SELF_ASSIGN) \
   X(A_PUSH_FRONT) X(A_PUSH_BACK) X(A_INSERT) X(A_INSERT_N)
#define E(x) x,
enum { OPS(E) NOPS };
#undef E
#define N(x) #x,
static const char *const names[] = { OPS(N) };
#undef N

template<class T> struct SListSys
{
#if KIND == 1
   typedef ttl::forward_list<T> L;
#elif KIND == 2
   typedef ttl::backward_list<T> L;
#else
   typedef ttl::lazy_queue<T> L;
#endif
   const Cfg &cfg;
   int nobj, cap, alpha, cntmax, init, imin, big, poolmax;
   Box<L> o[2];
   Seq m[2];
   int pool[2]; // lazy_queue: number of pooled nodes, -1: unknown
   int step;

   static const char *opname(int c) { return c < NOPS ? names[c] : "?"; }
   SListSys(const Cfg &c, const Hist *): cfg(c), step(0)
   {
      nobj = cfg.num("nobj", 1); cap = cfg.num("cap", 3); alpha = cfg.num("alpha", 2); cntmax = cfg.num("cnt", 2);
      init = cfg.num("init", 0); imin = cfg.num("imin", 0); big = cfg.num("big", 0); poolmax = cfg.num("pool", 3);
      for (int i = 0; i < nobj; ++i) o[i].make();
      pool[0] = pool[1] = 0;
   }
   void destroy() { for (int i = 0; i < nobj; ++i) o[i].kill(); }
   void canon(Canon &c)
   {
      for (int i = 0; i < nobj; ++i) c.root(o[i].mem, sizeof(L));
      if (init) c.value(step > 0);
      if (KIND == 3) { c.value(pool[0] + 1); c.value(pool[1] + 1); }
   }

   // after a swap of objects with pools of different size (pools need not travel) only the sum is known
   int total_pool() const { return (int)ledger().n - (int)m[0].size() - (int)m[1].size(); }
   typedef typename L::iterator It;
   typedef typename L::const_iterator CIt;
   // the position after which index pos is inserted
   It before(int k, int pos) { It i = o[k]->before_begin(); while (pos--) ++i; return i; }
   It at(int k, int pos) { return before(k, pos + 1); }

   void ops(std::vector<Op> &r)
   {
      const bool seq = cfg.has("grp", "seq"), xfer = cfg.has("grp", "xfer"), copy = cfg.has("grp", "copy"), alias = cfg.has("grp", "alias"), build = cfg.has("grp", "build");
      if (init && !step)
      {
         for (int n = imin; n <= init; ++n)
            for (int n2 = nobj > 1 ? imin : 0; n2 <= (nobj > 1 ? init : 0); ++n2)
               for (int p = 0; p < 2; ++p) r.push_back(Op(INIT, n, n2, p));
         return;
      }
      std::vector<int> cs, cs1; // counts
      for (int c = 0; c <= cntmax + 1; ++c) { if (c <= cntmax) cs.push_back(c); cs1.push_back(c); }
      big_counts(cs, big); big_counts(cs1, big);
      for (int k = 0; k < nobj; ++k)
      {
         const int n = m[k].size(), C = init || big ? 70000 : cap;
         const int q = 1 - k;
         // bound on the pool of a lazy queue: no removal that would exceed it
         const int room = KIND == 3 && !init && !big ? std::max(0, pool[0] >= 0 && pool[1] >= 0 ? poolmax - pool[k] : 2 * poolmax - total_pool()) : 100000;
         if (seq || build)
         {
            if (n < C)
               for (int v = 1; v <= alpha; ++v)
               {
                  r.push_back(Op(PUSH_FRONT, k, v));
                  if (KIND != 1) r.push_back(Op(PUSH_BACK, k, v));
               }
            if (n && room) r.push_back(Op(POP_FRONT, k));
            if (KIND == 3) r.push_back(Op(CLEANUP, k));
         }
         if (seq)
         {
            for (int p = 0; p <= n; ++p) if (thin_pos(p, n))
            {
               for (int v = 1; v <= alpha; ++v)
               {
                  if (n < C) r.push_back(Op(INSERT, k, p, v));
                  for (int c : cs) if (n + c <= C) r.push_back(Op(INSERT_N, k, p, c, v));
               }
               for (int c : cs) if (n + c <= C)
                  for (int v = 1; v <= (c ? alpha : 1); ++v)
                     for (int w = 1; w <= (c > 1 ? alpha : 1); ++w) r.push_back(Op(INSERT_RANGE, k, p, c, v, w));
               if (p < n && room) r.push_back(Op(ERASE, k, p));
               for (int l = p; l <= n && l - p <= room; ++l) if (thin_pos(l, n)) r.push_back(Op(ERASE_RANGE, k, p, l));
            }
            if (KIND != 1 && n < C) r.push_back(Op(INSERT_BE, k, 1));
            if (n <= room) r.push_back(Op(CLEAR, k));
            for (int c : cs1) if (c <= C)
               for (int v = 1; v <= (c ? alpha : 1); ++v)
               {
                  if (KIND != 3) r.push_back(Op(ASSIGN_N, k, c, v));
                  r.push_back(Op(CTOR_N, k, c, v));
                  if (KIND != 3)
                     for (int w = 1; w <= (c > 1 ? alpha : 1); ++w)
                     {
                        r.push_back(Op(ASSIGN_RANGE, k, c, v, w));
                        r.push_back(Op(CTOR_RANGE, k, c, v, w));
                     }
               }
            r.push_back(Op(CTOR, k));
            if (nobj > 1)
            {
               r.push_back(Op(CTOR_COPY, k));
               for (int p = 0; p <= n; ++p) if (thin_pos(p, n))
                  for (int f = 0; f <= (int)m[q].size(); ++f) if (thin_pos(f, m[q].size()))
                     for (int l = f; l <= (int)m[q].size(); ++l) if (thin_pos(l, m[q].size()))
                        if (n + l - f <= C) r.push_back(Op(INSERT_OTHER, k, p, f, l));
            }
         }
         if (seq || copy)
            for (int p = 0; p < n; ++p) if (thin_pos(p, n)) r.push_back(Op(WRITE, k, p, alpha - (m[k][p].v >= alpha)));
         if (xfer)
         {
            if (nobj > 1)
            {
#if KIND == 1
               for (int p = 0; p <= n; ++p) if (thin_pos(p, n))
               {
                  if (n + (int)m[q].size() <= C) r.push_back(Op(SPLICE_ALL, k, p));
                  for (int f = 0; f <= (int)m[q].size(); ++f) if (thin_pos(f, m[q].size()))
                     for (int l = f; l <= (int)m[q].size(); ++l) if (thin_pos(l, m[q].size()))
                     {
                        if (n + l - f <= C) r.push_back(Op(SPLICE_RANGE, k, q, p, f, l));
                        if (l == f + 1 && n < C) r.push_back(Op(SPLICE_ONE, k, q, p, f));
                     }
               }
#endif
               r.push_back(Op(SWAP, k));
            }
#if KIND == 1
            // within one list: elements [f, l) go before index p; p outside of (f, l)
            for (int p = 0; p <= n; ++p) if (thin_pos(p, n))
               for (int f = 0; f <= n; ++f) if (thin_pos(f, n))
                  for (int l = f; l <= n; ++l) if (thin_pos(l, n))
                  {
                     if (f == l || p <= f || p > l) r.push_back(Op(SPLICE_RANGE, k, k, p, f, l));
                     if (l == f + 1) r.push_back(Op(SPLICE_ONE, k, k, p, f));
                  }
#endif
            r.push_back(Op(SWAP_SELF, k));
            if (KIND != 3) r.push_back(Op(REVERSE, k));
            if (KIND == 3) r.push_back(Op(ROLL, k));
         }
         if (copy)
         {
            if (nobj > 1) { if (n <= room) r.push_back(Op(COPY_ASSIGN, k)); r.push_back(Op(CTOR_COPY, k)); r.push_back(Op(SWAP, k)); }
            r.push_back(Op(SELF_ASSIGN, k)); r.push_back(Op(SWAP_SELF, k));
            if (n <= room) r.push_back(Op(CLEAR, k));
         }
         if (alias)
            for (int j = 0; j < n; ++j) if (thin_pos(j, n))
            {
               if (n < C) { r.push_back(Op(A_PUSH_FRONT, k, j)); if (KIND != 1) r.push_back(Op(A_PUSH_BACK, k, j)); }
               for (int p = 0; p <= n; ++p) if (thin_pos(p, n))
               {
                  if (n < C) r.push_back(Op(A_INSERT, k, p, j));
                  for (int c : cs) if (n + c <= C) r.push_back(Op(A_INSERT_N, k, p, c, j));
               }
            }
      }
   }

   std::string str(const Op &p)
   {
      std::string r = names[p.c];
      if (p.c != INIT) r += p.a[0] ? "(B" : "(A"; else r += strf("(%d", p.a[0]);
      for (int i = 1; i < 5; ++i) r += strf(",%d", p.a[i]);
      return r + ")";
   }

   long expect_alloc; // most allocations permitted by the pool, -1: no statement
   void adds(int k, int n) // n elements are added to object k
   {
      if (KIND != 3) return;
      if (pool[k] < 0) return;
      int a = n > pool[k] ? n - pool[k] : 0;
      expect_alloc = (expect_alloc < 0 ? 0 : expect_alloc) + a;
      pool[k] -= n < pool[k] ? n : pool[k];
   }
   void dels(int k, int n) { if (pool[k] >= 0) pool[k] += n; }
   static void ins(Seq &s, int pos, int n, int v) { s.insert(s.begin() + pos, n, Item(v, 0)); }
   static void insr(Seq &s, int pos, int n, int v, int w) { ins(s, pos, n, v); for (int i = 1; i < n; i += 2) s[pos + i].v = w; }
   void ret(It got, int k, int pos, const char *what)
   {
      It e = o[k]->begin();
      int i = 0;
      for (; i < pos && e != o[k]->end(); ++i) ++e;
      MC_CHECK(VALUE, i == pos && got == e, "%s returned the wrong position", what);
   }
   void copy_model(int k, int q) { m[k].clear(); for (size_t i = 0; i < m[q].size(); ++i) m[k].push_back(Item(m[q][i].v)); }

   void apply(const Op &p)
   {
      ++step;
      const int k = p.a[0] & 1, q = nobj > 1 ? 1 - k : k;
      const Spent sp0; const long tot0 = m[0].size() + m[1].size();
      const long cp0 = g().copies, ct0 = g().ctors, dt0 = g().dtors, as0 = g().assigns, al0 = g().allocs, fr0 = g().frees;
      bool nocopy = false;
      expect_alloc = -1;
      switch (p.c)
      {
      case INIT:
         for (int j = 0; j < nobj; ++j)
            for (int i = 0; i < p.a[j]; ++i)
            {
               const int v = p.a[2] ? 1 + i % 2 : 1 + i % 100;
               T x = Num<T>::mk(v);
               { Sut s;
#if KIND == 1
                 o[j]->insert_after(before(j, i), x);
#else
                 o[j]->push_back(x);
#endif
               }
               m[j].push_back(Item(v));
            }
         break;
      case PUSH_FRONT: { T x = Num<T>::mk(p.a[1]); { Sut s; o[k]->push_front(x); } ins(m[k], 0, 1, p.a[1]); adds(k, 1); break; }
#if KIND != 1
      case PUSH_BACK: { T x = Num<T>::mk(p.a[1]); { Sut s; o[k]->push_back(x); } ins(m[k], m[k].size(), 1, p.a[1]); adds(k, 1); break; }
      case INSERT_BE: { T x = Num<T>::mk(p.a[1]); It r, b = o[k]->before_end(); { Sut s; r = o[k]->insert_after(b, x); } ins(m[k], m[k].size(), 1, p.a[1]); ret(r, k, m[k].size() - 1, "insert_after"); adds(k, 1); break; }
      case A_PUSH_BACK: { int v = m[k][p.a[1]].v; { It j = at(k, p.a[1]); Sut s; o[k]->push_back(*j); } ins(m[k], m[k].size(), 1, v); adds(k, 1); break; }
#endif
      case POP_FRONT: { Sut s; o[k]->pop_front(); } m[k].erase(m[k].begin()); dels(k, 1); break;
      case INSERT:
      {
         T x = Num<T>::mk(p.a[2]); It b = before(k, p.a[1]), r;
         { Sut s; r = o[k]->insert_after(b, x); }
         ins(m[k], p.a[1], 1, p.a[2]); ret(r, k, p.a[1], "insert_after"); adds(k, 1);
         break;
      }
      case INSERT_N: { T x = Num<T>::mk(p.a[3]); It b = before(k, p.a[1]); { Sut s; o[k]->insert_after(b, (size_t)p.a[2], x); } ins(m[k], p.a[1], p.a[2], p.a[3]); adds(k, p.a[2]); break; }
      case INSERT_RANGE:
      {
         SrcSeq<T> src(p.a[2], p.a[3], p.a[4]); It b = before(k, p.a[1]);
         { Sut s; o[k]->insert_after(b, src.f(), src.l()); }
         insr(m[k], p.a[1], p.a[2], p.a[3], p.a[4]);
         adds(k, p.a[2]);
         break;
      }
      case INSERT_OTHER:
      {
         It b = before(k, p.a[1]); CIt f = at(q, p.a[2]), l = at(q, p.a[3]);
         { Sut s; o[k]->insert_after(b, f, l); }
         for (int i = p.a[2]; i < p.a[3]; ++i) ins(m[k], p.a[1] + i - p.a[2], 1, m[q][i].v);
         adds(k, p.a[3] - p.a[2]);
         break;
      }
      case ERASE: { It b = before(k, p.a[1]), r; { Sut s; r = o[k]->erase_after(b); } m[k].erase(m[k].begin() + p.a[1]); ret(r, k, p.a[1], "erase_after"); dels(k, 1); break; }
      case ERASE_RANGE:
      {
         It b = before(k, p.a[1]), l = at(k, p.a[2]), r;
         { Sut s; r = o[k]->erase_after(b, l); }
         m[k].erase(m[k].begin() + p.a[1], m[k].begin() + p.a[2]); ret(r, k, p.a[1], "erase_after(first, last)"); dels(k, p.a[2] - p.a[1]);
         break;
      }
      case CLEAR: { Sut s; o[k]->clear(); } dels(k, m[k].size()); m[k].clear(); break;
#if KIND != 3
      case ASSIGN_N: { T x = Num<T>::mk(p.a[2]); { Sut s; o[k]->assign((size_t)p.a[1], x); } m[k].clear(); ins(m[k], 0, p.a[1], p.a[2]); break; }
      case ASSIGN_RANGE:
      {
         SrcSeq<T> src(p.a[1], p.a[2], p.a[3]);
         { Sut s; o[k]->assign(src.f(), src.l()); }
         m[k].clear();
         insr(m[k], 0, p.a[1], p.a[2], p.a[3]);
         break;
      }
      case CTOR_RANGE:
      {
         SrcSeq<T> src(p.a[1], p.a[2], p.a[3]);
         o[k].kill(); o[k].make(src.f(), src.l()); m[k].clear();
         insr(m[k], 0, p.a[1], p.a[2], p.a[3]);
         break;
      }
      case REVERSE: { Sut s; o[k]->reverse(); } std::reverse(m[k].begin(), m[k].end()); nocopy = true; break;
#else
      case CLEANUP:
         { Sut s; o[k]->cleanup(); }
         if (pool[k] >= 0)
            MC_CHECK(COST, g().frees - fr0 == pool[k], "cleanup released %ld of %d pooled nodes", g().frees - fr0, pool[k]);
         MC_CHECK(STABLE, g().dtors == dt0 && g().allocs == al0 && g().copies == cp0, "cleanup touched elements or allocated");
         pool[k] = 0;
         if (nobj > 1 && pool[q] < 0) pool[q] = total_pool();
         break;
      case ROLL: { Sut s; o[k]->roll_head(); } if (m[k].size()) std::rotate(m[k].begin(), m[k].begin() + 1, m[k].end()); nocopy = true; break;
#endif
      case CTOR: o[k].kill(); o[k].make(); m[k].clear(); pool[k] = 0; break;
      case CTOR_N: { T x = Num<T>::mk(p.a[2]); o[k].kill(); o[k].make((size_t)p.a[1], (const T &)x); m[k].clear(); ins(m[k], 0, p.a[1], p.a[2]); pool[k] = 0; break; }
      case CTOR_COPY: o[k].kill(); o[k].make(o[q].c()); copy_model(k, q); pool[k] = 0; break;
      case WRITE: { T x = Num<T>::mk(p.a[2]); It i = at(k, p.a[1]); { Sut s; *i = x; } m[k][p.a[1]].v = p.a[2]; break; }
#if KIND == 1
      case SPLICE_ALL: { It b = before(k, p.a[1]); { Sut s; o[k]->splice_after(b, *o[q]); } m[k].insert(m[k].begin() + p.a[1], m[q].begin(), m[q].end()); m[q].clear(); nocopy = true; break; }
      case SPLICE_ONE:
      case SPLICE_RANGE:
      {
         const int src = p.a[1], pos = p.a[2], f = p.a[3], l = p.c == SPLICE_ONE ? f + 1 : p.a[4];
         It b = before(k, pos), fi = before(src, f), li = at(src, l);
         { Sut s; if (p.c == SPLICE_ONE) o[k]->splice_after(b, *o[src], fi); else o[k]->splice_after(b, *o[src], fi, li); }
         if (src != k)
         {
            m[k].insert(m[k].begin() + pos, m[src].begin() + f, m[src].begin() + l);
            m[src].erase(m[src].begin() + f, m[src].begin() + l);
         }
         else if (!(pos >= f && pos <= l))
         {
            Seq mv(m[k].begin() + f, m[k].begin() + l);
            m[k].erase(m[k].begin() + f, m[k].begin() + l);
            int np = pos > f ? pos - (l - f) : pos;
            m[k].insert(m[k].begin() + np, mv.begin(), mv.end());
         }
         nocopy = true;
         break;
      }
#endif
      case SWAP: { Sut s; o[k]->swap(*o[q]); } m[k].swap(m[q]); if (pool[0] != pool[1]) pool[0] = pool[1] = -1; nocopy = true; break;
      case SWAP_SELF: { Sut s; o[k]->swap(*o[k]); } nocopy = true; break;
      case COPY_ASSIGN: { Sut s; L &r = *o[k] = o[q].c(); Harness h; MC_CHECK(VALUE, &r == &*o[k], "operator= does not return its object"); } dels(k, m[k].size()); copy_model(k, q); adds(k, m[k].size()); break;
      case SELF_ASSIGN: { Sut s; L &self = *o[k]; *o[k] = self; } for (size_t i = 0; i < m[k].size(); ++i) m[k][i].addr = 0; if (KIND == 3 && pool[k] >= 0) MC_CHECK(COST, g().allocs == al0, "self-assignment allocated"); break;
      case A_PUSH_FRONT: { int v = m[k][p.a[1]].v; { It j = at(k, p.a[1]); Sut s; o[k]->push_front(*j); } ins(m[k], 0, 1, v); adds(k, 1); break; }
      case A_INSERT: { int v = m[k][p.a[2]].v; It b = before(k, p.a[1]), j = at(k, p.a[2]), r; { Sut s; r = o[k]->insert_after(b, *j); } ins(m[k], p.a[1], 1, v); ret(r, k, p.a[1], "insert_after"); adds(k, 1); break; }
      case A_INSERT_N: { int v = m[k][p.a[3]].v; It b = before(k, p.a[1]), j = at(k, p.a[3]); { Sut s; o[k]->insert_after(b, (size_t)p.a[2], *j); } ins(m[k], p.a[1], p.a[2], v); adds(k, p.a[2]); break; }
      }
      if (expect_alloc >= 0)
         MC_CHECK(COST, g().allocs - al0 <= expect_alloc, "%s allocated %ld time(s) although the pool made at most %ld necessary", names[p.c], g().allocs - al0, expect_alloc);
      if (KIND == 3 && p.c != CLEANUP && p.c != CTOR && p.c != CTOR_N && p.c != CTOR_COPY)
         MC_CHECK(COST, g().frees == fr0, "%s released memory instead of pooling it", names[p.c]);
      const long tot = m[0].size() + m[1].size(), pooled = KIND != 3 ? 0 : pool[0] < 0 || pool[1] < 0 ? -1 : pool[0] + pool[1];
      economy(names[p.c], Spent() - sp0, expect_alloc >= 0 ? expect_alloc : p.c == INIT ? tot : rebuilds(p.c) ? m[k].size() : std::max(tot - tot0, 0L),
              tot + (pooled > 0 ? pooled : 0), pooled < 0 ? 1000000 : tot + pooled);
      const long added = std::max(tot - tot0, 0L);
      effort(names[p.c], Spent() - sp0, p.c == WRITE ? 1 : p.c == INIT ? tot : rebuilds(p.c) ? m[k].size() + 1 : added ? added + 1 : 0, 0);
      if (nocopy)
         MC_CHECK(STABLE, g().copies == cp0 && g().ctors == ct0 && g().dtors == dt0 && g().assigns == as0 && g().allocs == al0, "%s copied, created, destroyed or reallocated elements", names[p.c]);
   }

   void queries()
   {
      Snapshot a(*this);
      {
      Sut su;
      for (int k = 0; k < nobj; ++k)
      {
         L &l = *o[k]; const L &c = o[k].c();
         sink(c.empty()); sink(l.empty());
#if KIND != 3
         sink(c == o[nobj - 1].c()); sink(c != o[nobj - 1].c()); sink(o[nobj - 1].c() == c); sink(c == c); sink(c != c);
#endif
         sink(l.before_begin()); sink(c.before_begin()); sink(c.cbefore_begin());
         if (!c.empty()) { sink(c.front()); sink(l.front()); }
#if KIND != 1
         if (!c.empty()) { sink(c.back()); sink(l.back()); }
         sink(l.before_end()); sink(c.before_end()); sink(c.cbefore_end());
#endif
         run_through(l.begin(), l.end()); run_through(c.begin(), c.end()); run_through(c.cbegin(), c.cend());
      }
      }
      a.same("a query", true);
   }
   // operations that replace the contents
   static bool rebuilds(int c) { return c == INIT || c == ASSIGN_N || c == ASSIGN_RANGE || c == CTOR_RANGE || (c >= CTOR && c <= CTOR_COPY) || c == COPY_ASSIGN || c == SELF_ASSIGN; }

   void check()
   {
      long total = 0;
      for (int k = 0; k < nobj; ++k)
      {
         const char *nm = k ? "B" : "A";
         L &l = *o[k]; const L &c = o[k].c(); Seq &s = m[k];
         total += s.size();
         if (g().classes & ITOP)
         {
            It bb = l.before_begin(); CIt cb = c.before_begin();
            MC_CHECK(ITOP, c.cbefore_begin() == cb, "%s: before_begin() and cbefore_begin() differ", nm);
            own_cursors<false, L, It, CIt>(nm, l, &bb, &cb);
         }
         walk((std::string(nm) + " forward").c_str(), l.begin(), l.end(), s, true);
         if (g().failed || g().foreign) return;
         walk((std::string(nm) + " forward const").c_str(), c.begin(), c.end(), s, true);
         walk((std::string(nm) + " cbegin").c_str(), c.cbegin(), c.cend(), s, true);
         It f = l.begin(); CIt cf = c.begin();
         It b = l.before_begin(); CIt cb = c.before_begin(), ccb = c.cbefore_begin();
         for (size_t n = 0; n < s.size(); ++n)
         {
            It x = f++; CIt cx = cf++;
            ++b; ++cb; ++ccb;
            MC_CHECK(VALUE, &*x == s[n].addr && &*cx == s[n].addr && &*b == s[n].addr && &*cb == s[n].addr && &*ccb == s[n].addr && x.operator->() == &*x, "%s: iteration from before_begin or by postfix ++ is wrong at %zu", nm, n);
         }
         MC_CHECK(VALUE, l.empty() == s.empty(), "%s: empty() is wrong", nm);
         if (!s.empty())
            MC_CHECK(VALUE, &l.front() == s[0].addr && &c.front() == s[0].addr, "%s: front() is wrong", nm);
#if KIND != 1
         MC_CHECK(VALUE, l.before_end() == b && c.before_end() == cb && c.cbefore_end() == cb, "%s: before_end() does not designate the last element", nm);
         if (!s.empty())
            MC_CHECK(VALUE, &l.back() == s.back().addr && &c.back() == s.back().addr, "%s: back() is wrong", nm);
#endif
#if KIND != 3
         bool self = true; // a NaN is not equal to itself
         for (size_t i = 0; self && i < s.size(); ++i) self = Num<T>::eq(s[i].v, s[i].v);
         MC_CHECK(VALUE, (c == c) == self && (c != c) == !self, "%s: not equal to itself", nm);
#endif
      }
      if (std::is_same<T, Elem>::value)
         MC_CHECK(LIFE, g().live_elems == total, "%ld elements are alive, the contents are %ld", g().live_elems, total);
#if KIND != 3
      if (nobj > 1)
      {
         bool eq = m[0].size() == m[1].size();
         for (size_t i = 0; eq && i < m[0].size(); ++i) eq = Num<T>::eq(m[0][i].v, m[1][i].v);
         MC_CHECK(VALUE, (o[0].c() == o[1].c()) == eq && (o[0].c() != o[1].c()) == !eq && (o[1].c() == o[0].c()) == eq, "== / != of %s and %s is wrong", seq_str(m[0]).c_str(), seq_str(m[1]).c_str());
      }
#endif
   }
};

int main(int argc, char **argv)
{
   Cfg cfg = parse(argc, argv);
   if (cfg.get("elem") == "int") return drive<SListSys<int> >(cfg);
   if (cfg.get("elem") == "double") return drive<SListSys<double> >(cfg);
   return drive<SListSys<Elem> >(cfg);
}
