// ttl::list<T>: one or two objects
#include "ttl/utility.hpp"
#include "ttl/functional.hpp"
#include "ttl/algorithm.hpp"
#include "ttl/list.hpp"
#include "mc.hpp"
using namespace mc;

#define OPS(X) \
   X(INIT) X(PUSH_BACK) X(PUSH_FRONT) X(POP_BACK) X(POP_FRONT) X(INSERT) X(INSERT_N) X(INSERT_RANGE) X(INSERT_OTHER) \
   X(ERASE) X(ERASE_RANGE) X(RESIZE) X(RESIZE_V) X(CLEAR) X(ASSIGN_N) X(ASSIGN_RANGE) X(REMOVE) X(REMOVE_IF) X(UNIQUE) X(UNIQUE_P) \
   X(CTOR) X(CTOR_N) X(CTOR_RANGE) X(CTOR_COPY) X(WRITE) \
   X(SPLICE_ALL) X(SPLICE_ONE) X(SPLICE_RANGE) X(MERGE) X(MERGE_SELF) X(MERGE_CMP) X(SWAP) X(SWAP_SELF) X(REVERSE) \
   X(COPY_ASSIGN) X(SELF_ASSIGN) X(EQUALS) \
   X(A_PUSH_BACK) X(A_PUSH_FRONT) X(A_INSERT) X(A_INSERT_N) X(A_RESIZE) X(A_REMOVE)
#define E(x) x,
enum { OPS(E) NOPS };
#undef E
#define N(x) #x,
static const char *const names[] = { OPS(N) };
#undef N

template<class T> struct ListSys
{
   typedef ttl::list<T> L;
   const Cfg &cfg;
   int nobj, cap, alpha, cntmax, init, imin, big;
   Box<L> o[2];
   Seq m[2];
   int step;

   static const char *opname(int c) { return c < NOPS ? names[c] : "?"; }
   ListSys(const Cfg &c, const Hist *): cfg(c), step(0)
   {
      nobj = cfg.num("nobj", 1); cap = cfg.num("cap", 3); alpha = cfg.num("alpha", 2); cntmax = cfg.num("cnt", 2);
      init = cfg.num("init", 0); imin = cfg.num("imin", 0); big = cfg.num("big", 0);
      for (int i = 0; i < nobj; ++i) o[i].make();
   }
   void destroy() { for (int i = 0; i < nobj; ++i) o[i].kill(); }
   void canon(Canon &c) { for (int i = 0; i < nobj; ++i) c.root(o[i].mem, sizeof(L)); if (init) c.value(step > 0); }

   typedef typename L::iterator It;
   typedef typename L::const_iterator CIt;
   It at(int k, int pos) { It i = o[k]->begin(); while (pos--) ++i; return i; }
   static bool par(const T &a, const T &b) { weigh(); return ((V<T>::get(a) ^ V<T>::get(b)) & 1) == 0; }
   struct InMask { int mask; bool operator()(const T &x) const { weigh(); return (mask >> V<T>::get(x)) & 1; } };
   struct Gt { bool operator()(const T &a, const T &b) const { weigh(); return V<T>::get(b) < V<T>::get(a); } };
   static bool lt(const Item &a, const Item &b) { return Num<T>::lt(a.v, b.v); }
   template<class F> static bool sorted(const Seq &s, F f) // a NaN is not comparable
   {
      for (size_t i = 0; i < s.size(); ++i) if (!Num<T>::eq(s[i].v, s[i].v)) return false;
      return std::is_sorted(s.begin(), s.end(), f);
   }
   static bool gt(const Item &a, const Item &b) { return b.v < a.v; }

   void ops(std::vector<Op> &r)
   {
      const bool seq = cfg.has("grp", "seq"), xfer = cfg.has("grp", "xfer"), copy = cfg.has("grp", "copy"), alias = cfg.has("grp", "alias"), build = cfg.has("grp", "build"),
                 ctor = cfg.has("grp", "ctor");
      if (init && !step)
      {
         for (int n = imin; n <= init; ++n)
            for (int n2 = nobj > 1 ? imin : 0; n2 <= (nobj > 1 ? init : 0); ++n2)
               for (int p = 0; p < 3; ++p) r.push_back(Op(INIT, n, n2, p));
         return;
      }
      std::vector<int> cs, cs1; // counts
      for (int c = 0; c <= cntmax + 1; ++c) { if (c <= cntmax) cs.push_back(c); cs1.push_back(c); }
      big_counts(cs, big); big_counts(cs1, big);
      for (int k = 0; k < nobj; ++k)
      {
         const int n = m[k].size(), C = init || big ? 70000 : cap;
         const int q = 1 - k;
         if (seq || build)
         {
            for (int v = 1; v <= alpha; ++v)
            {
               if (n < C) { r.push_back(Op(PUSH_BACK, k, v)); r.push_back(Op(PUSH_FRONT, k, v)); }
            }
            if (n) { r.push_back(Op(POP_BACK, k)); r.push_back(Op(POP_FRONT, k)); }
         }
         if (seq)
         {
            for (int v = 1; v <= alpha; ++v)
            {
               for (int p = 0; p <= n; ++p) if (thin_pos(p, n))
               {
                  if (n < C) r.push_back(Op(INSERT, k, p, v));
                  for (int c : cs) if (n + c <= C) r.push_back(Op(INSERT_N, k, p, c, v));
               }
               for (int c = 0; c <= C && c <= n + cntmax + 1; ++c) if (thin_pos(c, n)) r.push_back(Op(RESIZE_V, k, c, v));
               if (big) for (int c : cs) r.push_back(Op(RESIZE_V, k, n + c, v));
               for (int c : cs1) if (c <= C) r.push_back(Op(ASSIGN_N, k, c, v));
               r.push_back(Op(REMOVE, k, v));
            }
            for (int p = 0; p <= n; ++p)
               if (thin_pos(p, n)) for (int c : cs) if (n + c <= C)
                  for (int v = 1; v <= (c ? alpha : 1); ++v)
                     for (int w = 1; w <= (c > 1 ? alpha : 1); ++w)
                        r.push_back(Op(INSERT_RANGE, k, p, c, v, w));
            for (int c : cs1) if (c <= C)
               for (int v = 1; v <= (c ? alpha : 1); ++v)
                  for (int w = 1; w <= (c > 1 ? alpha : 1); ++w)
                     r.push_back(Op(ASSIGN_RANGE, k, c, v, w));
            for (int p = 0; p < n; ++p) if (thin_pos(p, n)) r.push_back(Op(ERASE, k, p));
            for (int p = 0; p <= n; ++p) if (thin_pos(p, n)) for (int l = p; l <= n; ++l) if (thin_pos(l, n)) r.push_back(Op(ERASE_RANGE, k, p, l));
            for (int c = 0; c <= C && c <= n + cntmax + 1; ++c) if (thin_pos(c, n)) r.push_back(Op(RESIZE, k, c));
            if (big) for (int c : cs) r.push_back(Op(RESIZE, k, n + c));
            r.push_back(Op(CLEAR, k));
            for (int mask = 0; mask < (1 << (alpha + 1)); ++mask) r.push_back(Op(REMOVE_IF, k, mask));
            r.push_back(Op(UNIQUE, k)); r.push_back(Op(UNIQUE_P, k));
            for (int p = 0; p < n; ++p) if (thin_pos(p, n)) r.push_back(Op(WRITE, k, p, alpha - (m[k][p].v >= alpha)));
         }
         if (ctor || (seq && !cfg.has("no", "ctor")))
         {
            r.push_back(Op(CTOR, k));
            for (int c : cs1) if (c <= C)
               for (int v = 1; v <= (c ? alpha : 1); ++v)
               {
                  r.push_back(Op(CTOR_N, k, c, v));
                  for (int w = 1; w <= (c > 1 ? alpha : 1); ++w) r.push_back(Op(CTOR_RANGE, k, c, v, w));
               }
            if (nobj > 1) r.push_back(Op(CTOR_COPY, k));
         }
         if (nobj > 1 && seq)
            for (int p = 0; p <= n; ++p) if (thin_pos(p, n))
               for (int f = 0; f <= (int)m[q].size(); ++f) if (thin_pos(f, m[q].size()))
                  for (int l = f; l <= (int)m[q].size(); ++l) if (thin_pos(l, m[q].size()))
                     if (n + l - f <= C) r.push_back(Op(INSERT_OTHER, k, p, f, l));
         if (xfer)
         {
            if (nobj > 1)
            {
               for (int p = 0; p <= n; ++p) if (thin_pos(p, n))
               {
                  if (n + (int)m[q].size() <= C) r.push_back(Op(SPLICE_ALL, k, p));
                  for (int f = 0; f <= (int)m[q].size(); ++f) if (thin_pos(f, m[q].size()))
                     for (int l = f; l <= (int)m[q].size(); ++l) if (thin_pos(l, m[q].size()))
                     {
                        if (n + l - f <= C) r.push_back(Op(SPLICE_RANGE, k, q, p, f, l));
                        if (l == f + 1 && n < C) r.push_back(Op(SPLICE_ONE, k, q, p, f));
                     }
               }
               if (n + (int)m[q].size() <= C)
               {
                  if (sorted(m[k], lt) && sorted(m[q], lt)) r.push_back(Op(MERGE, k));
                  if (sorted(m[k], gt) && sorted(m[q], gt)) r.push_back(Op(MERGE_CMP, k));
               }
               r.push_back(Op(SWAP, k));
            }
            for (int p = 0; p <= n; ++p) if (thin_pos(p, n))
               for (int f = 0; f <= n; ++f) if (thin_pos(f, n))
                  for (int l = f; l <= n; ++l) if (thin_pos(l, n))
                  {
                     if (f == l || p < f || p >= l) r.push_back(Op(SPLICE_RANGE, k, k, p, f, l));
                     if (l == f + 1) r.push_back(Op(SPLICE_ONE, k, k, p, f));
                  }
            if (sorted(m[k], lt)) r.push_back(Op(MERGE_SELF, k));
            r.push_back(Op(SWAP_SELF, k));
            r.push_back(Op(REVERSE, k));
         }
         if (copy)
         {
            if (nobj > 1) { r.push_back(Op(COPY_ASSIGN, k)); r.push_back(Op(CTOR_COPY, k)); r.push_back(Op(SWAP, k)); r.push_back(Op(EQUALS, k)); }
            r.push_back(Op(SELF_ASSIGN, k)); r.push_back(Op(SWAP_SELF, k)); r.push_back(Op(CLEAR, k));
            for (int p = 0; p < n; ++p) if (thin_pos(p, n)) r.push_back(Op(WRITE, k, p, alpha - (m[k][p].v >= alpha)));
         }
         if (alias)
            for (int j = 0; j < n; ++j) if (thin_pos(j, n))
            {
               if (n < C) { r.push_back(Op(A_PUSH_BACK, k, j)); r.push_back(Op(A_PUSH_FRONT, k, j)); }
               for (int p = 0; p <= n; ++p) if (thin_pos(p, n))
               {
                  if (n < C) r.push_back(Op(A_INSERT, k, p, j));
                  for (int c : cs) if (n + c <= C) r.push_back(Op(A_INSERT_N, k, p, c, j));
               }
               for (int c = 0; c <= C && c <= n + cntmax + 1; ++c) r.push_back(Op(A_RESIZE, k, c, j));
               r.push_back(Op(A_REMOVE, k, j));
            }
      }
   }

   std::string str(const Op &p)
   {
      std::string r = names[p.c];
      if (p.c != INIT) r += p.a[0] ? "(B" : "(A"; else r += strf("(%d", p.a[0]);
      for (int i = 1; i < 5; ++i) r += strf(",%d", p.a[i]);
      return r + ")";
   }

   static void ins(Seq &s, int pos, int n, int v) { s.insert(s.begin() + pos, n, Item(v, 0)); }
   static void insr(Seq &s, int pos, int n, int v, int w) { ins(s, pos, n, v); for (int i = 1; i < n; i += 2) s[pos + i].v = w; }
   void ret(It got, int k, int pos, const char *what)
   {
      // the returned position must be the element at pos (or end)
      It e = o[k]->begin();
      int i = 0;
      for (; i < pos && e != o[k]->end(); ++i) ++e;
      MC_CHECK(VALUE, i == pos && got == e, "%s returned the wrong position", what);
   }
   static int initval(int p, int i) { return p == 0 ? 1 + i % 100 : p == 1 ? 100 - i % 100 : 1 + i % 2; }

   void apply(const Op &p)
   {
      ++step;
      const int k = p.a[0] & 1, q = nobj > 1 ? 1 - k : k;
      const Spent sp0; const long tot0 = m[0].size() + m[1].size(), old = m[k].size();
      const long cp0 = g().copies, ct0 = g().ctors, dt0 = g().dtors, as0 = g().assigns, al0 = g().allocs;
      bool nocopy = false;
      switch (p.c)
      {
      case INIT:
         for (int j = 0; j < nobj; ++j)
            for (int i = 0; i < p.a[j]; ++i)
            {
               T x = Num<T>::mk(initval(p.a[2], i));
               Sut s; o[j]->push_back(x);
               Harness h; m[j].push_back(Item(initval(p.a[2], i)));
            }
         break;
      case PUSH_BACK: { T x = Num<T>::mk(p.a[1]); { Sut s; o[k]->push_back(x); } ins(m[k], m[k].size(), 1, p.a[1]); break; }
      case PUSH_FRONT: { T x = Num<T>::mk(p.a[1]); { Sut s; o[k]->push_front(x); } ins(m[k], 0, 1, p.a[1]); break; }
      case POP_BACK: { Sut s; o[k]->pop_back(); } m[k].pop_back(); break;
      case POP_FRONT: { Sut s; o[k]->pop_front(); } m[k].erase(m[k].begin()); break;
      case INSERT:
      {
         T x = Num<T>::mk(p.a[2]); It at_ = at(k, p.a[1]), r;
         { Sut s; r = o[k]->insert(at_, x); }
         ins(m[k], p.a[1], 1, p.a[2]); ret(r, k, p.a[1], "insert");
         break;
      }
      case INSERT_N:
      {
         T x = Num<T>::mk(p.a[3]); It at_ = at(k, p.a[1]);
         { Sut s; o[k]->insert(at_, (size_t)p.a[2], x); }
         ins(m[k], p.a[1], p.a[2], p.a[3]);
         break;
      }
      case INSERT_RANGE:
      {
         SrcSeq<T> src(p.a[2], p.a[3], p.a[4]); It at_ = at(k, p.a[1]);
         { Sut s; o[k]->insert(at_, src.f(), src.l()); }
         insr(m[k], p.a[1], p.a[2], p.a[3], p.a[4]);
         break;
      }
      case INSERT_OTHER:
      {
         It at_ = at(k, p.a[1]); CIt f = at(q, p.a[2]), l = at(q, p.a[3]);
         { Sut s; o[k]->insert(at_, f, l); }
         for (int i = p.a[2]; i < p.a[3]; ++i) ins(m[k], p.a[1] + i - p.a[2], 1, m[q][i].v);
         break;
      }
      case ERASE:
      {
         It at_ = at(k, p.a[1]), r;
         { Sut s; r = o[k]->erase(at_); }
         m[k].erase(m[k].begin() + p.a[1]); ret(r, k, p.a[1], "erase");
         break;
      }
      case ERASE_RANGE:
      {
         It f = at(k, p.a[1]), l = at(k, p.a[2]), r;
         { Sut s; r = o[k]->erase(f, l); }
         Seq want = m[k];
         want.erase(want.begin() + p.a[1], want.begin() + p.a[2]);
         if (p.a[1] < p.a[2])
         {
            // the recorded deviation: the last element of the range survives (t/test_list.cpp expects that)
            Seq dev = m[k];
            dev.erase(dev.begin() + p.a[1], dev.begin() + p.a[2] - 1);
            bool isdev = true; size_t i = 0;
            It e = o[k]->begin();
            for (; i < dev.size() && e != o[k]->end(); ++i, ++e) if ((dev[i].addr && &*e != dev[i].addr) || V<T>::get(*e) != dev[i].v) { isdev = false; break; }
            if (i < dev.size() || e != o[k]->end()) isdev = false;
            if (isdev && r == at(k, p.a[1] + 1))
            {
               if (!known("list-erase-range-keeps-last"))
                  fail(VALUE, "erase(first, last) left the last element of the range in the list: %s", seq_str(dev).c_str());
               m[k] = dev;
               break;
            }
         }
         m[k] = want;
         ret(r, k, p.a[1], "erase(first, last)");
         break;
      }
      case RESIZE:
         { Sut s; o[k]->resize((size_t)p.a[1]); }
         if (p.a[1] < m[k].size()) m[k].resize(p.a[1]); else ins(m[k], m[k].size(), p.a[1] - m[k].size(), 0);
         break;
      case RESIZE_V:
      {
         T x = Num<T>::mk(p.a[2]);
         { Sut s; o[k]->resize((size_t)p.a[1], x); }
         if (p.a[1] < m[k].size()) m[k].resize(p.a[1]); else ins(m[k], m[k].size(), p.a[1] - m[k].size(), p.a[2]);
         break;
      }
      case CLEAR: { Sut s; o[k]->clear(); } m[k].clear(); break;
      case ASSIGN_N: { T x = Num<T>::mk(p.a[2]); { Sut s; o[k]->assign((size_t)p.a[1], x); } m[k].clear(); ins(m[k], 0, p.a[1], p.a[2]); break; }
      case ASSIGN_RANGE:
      {
         SrcSeq<T> src(p.a[1], p.a[2], p.a[3]);
         { Sut s; o[k]->assign(src.f(), src.l()); }
         m[k].clear();
         insr(m[k], 0, p.a[1], p.a[2], p.a[3]);
         break;
      }
      case REMOVE: { T x = Num<T>::mk(p.a[1]); { Sut s; o[k]->remove(x); } int v = p.a[1]; m[k].erase(std::remove_if(m[k].begin(), m[k].end(), [v](const Item &i) { return Num<T>::eq(i.v, v); }), m[k].end()); break; }
      case REMOVE_IF: { InMask f = { p.a[1] }; { Sut s; o[k]->remove_if(f); } int mask = p.a[1]; m[k].erase(std::remove_if(m[k].begin(), m[k].end(), [mask](const Item &i) { return (mask >> i.v) & 1; }), m[k].end()); break; }
      case UNIQUE: { Sut s; o[k]->unique(); } m[k].erase(std::unique(m[k].begin(), m[k].end(), [](const Item &a, const Item &b) { return Num<T>::eq(a.v, b.v); }), m[k].end()); break;
      case UNIQUE_P: { Sut s; o[k]->unique(par); } m[k].erase(std::unique(m[k].begin(), m[k].end(), [](const Item &a, const Item &b) { return ((a.v ^ b.v) & 1) == 0; }), m[k].end()); break;
      case CTOR: o[k].kill(); o[k].make(); m[k].clear(); break;
      case CTOR_N: { T x = Num<T>::mk(p.a[2]); o[k].kill(); o[k].make((size_t)p.a[1], (const T &)x); m[k].clear(); ins(m[k], 0, p.a[1], p.a[2]); break; }
      case CTOR_RANGE:
      {
         SrcSeq<T> src(p.a[1], p.a[2], p.a[3]);
         o[k].kill(); o[k].make(src.f(), src.l()); m[k].clear();
         insr(m[k], 0, p.a[1], p.a[2], p.a[3]);
         break;
      }
      case CTOR_COPY: o[k].kill(); o[k].make(o[q].c()); m[k].clear(); for (size_t i = 0; i < m[q].size(); ++i) m[k].push_back(Item(m[q][i].v)); break;
      case WRITE: { T x = Num<T>::mk(p.a[2]); It i = at(k, p.a[1]); { Sut s; *i = x; } m[k][p.a[1]].v = p.a[2]; break; }

      case SPLICE_ALL: { It at_ = at(k, p.a[1]); { Sut s; o[k]->splice(at_, *o[q]); } m[k].insert(m[k].begin() + p.a[1], m[q].begin(), m[q].end()); m[q].clear(); nocopy = true; break; }
      case SPLICE_ONE:
      case SPLICE_RANGE:
      {
         const int src = p.a[1], pos = p.a[2], f = p.a[3], l = p.c == SPLICE_ONE ? f + 1 : p.a[4];
         It at_ = at(k, pos), fi = at(src, f), li = at(src, l);
         { Sut s; if (p.c == SPLICE_ONE) o[k]->splice(at_, *o[src], fi); else o[k]->splice(at_, *o[src], fi, li); }
         if (src != k)
         {
            m[k].insert(m[k].begin() + pos, m[src].begin() + f, m[src].begin() + l);
            m[src].erase(m[src].begin() + f, m[src].begin() + l);
         }
         else if (!(pos >= f && pos <= l))
         {
            Seq mv(m[k].begin() + f, m[k].begin() + l);
            m[k].erase(m[k].begin() + f, m[k].begin() + l);
            int np = pos > f ? pos - (l - f) : pos;
            m[k].insert(m[k].begin() + np, mv.begin(), mv.end());
         }
         nocopy = true;
         break;
      }
      case MERGE: case MERGE_CMP:
      {
         { Sut s; if (p.c == MERGE) o[k]->merge(*o[q]); else o[k]->merge(*o[q], Gt()); }
         Seq r(m[k].size() + m[q].size());
         std::merge(m[k].begin(), m[k].end(), m[q].begin(), m[q].end(), r.begin(), p.c == MERGE ? lt : gt);
         m[k] = r; m[q].clear();
         nocopy = true;
         break;
      }
      case MERGE_SELF: { Sut s; o[k]->merge(*o[k]); } nocopy = true; break;
      case SWAP: { Sut s; o[k]->swap(*o[q]); } m[k].swap(m[q]); nocopy = true; break;
      case SWAP_SELF: { Sut s; o[k]->swap(*o[k]); } nocopy = true; break;
      case REVERSE: { Sut s; o[k]->reverse(); } std::reverse(m[k].begin(), m[k].end()); nocopy = true; break;

      case COPY_ASSIGN: { Sut s; L &r = *o[k] = o[q].c(); Harness h; MC_CHECK(VALUE, &r == &*o[k], "operator= does not return its object"); } m[k].clear(); for (size_t i = 0; i < m[q].size(); ++i) m[k].push_back(Item(m[q][i].v)); break;
      case SELF_ASSIGN: { Sut s; L &self = *o[k]; *o[k] = self; } for (size_t i = 0; i < m[k].size(); ++i) m[k][i].addr = 0; break;
      case EQUALS: break; // see check()

      case A_PUSH_BACK: { int v = m[k][p.a[1]].v; { It i = at(k, p.a[1]); Sut s; o[k]->push_back(*i); } ins(m[k], m[k].size(), 1, v); break; }
      case A_PUSH_FRONT: { int v = m[k][p.a[1]].v; { It i = at(k, p.a[1]); Sut s; o[k]->push_front(*i); } ins(m[k], 0, 1, v); break; }
      case A_INSERT: { int v = m[k][p.a[2]].v; It at_ = at(k, p.a[1]), j = at(k, p.a[2]), r; { Sut s; r = o[k]->insert(at_, *j); } ins(m[k], p.a[1], 1, v); ret(r, k, p.a[1], "insert"); break; }
      case A_INSERT_N: { int v = m[k][p.a[3]].v; It at_ = at(k, p.a[1]), j = at(k, p.a[3]); { Sut s; o[k]->insert(at_, (size_t)p.a[2], *j); } ins(m[k], p.a[1], p.a[2], v); break; }
      case A_RESIZE:
      {
         int v = m[k][p.a[2]].v; It j = at(k, p.a[2]);
         { Sut s; o[k]->resize((size_t)p.a[1], *j); }
         if (p.a[1] < m[k].size()) m[k].resize(p.a[1]); else ins(m[k], m[k].size(), p.a[1] - m[k].size(), v);
         break;
      }
      case A_REMOVE: { int v = m[k][p.a[1]].v; { It j = at(k, p.a[1]); Sut s; o[k]->remove(*j); } m[k].erase(std::remove_if(m[k].begin(), m[k].end(), [v](const Item &i) { return Num<T>::eq(i.v, v); }), m[k].end()); break; }
      }
      const long tot = m[0].size() + m[1].size();
      economy(names[p.c], Spent() - sp0, p.c == INIT ? tot : rebuilds(p.c) ? m[k].size() : std::max(tot - tot0, 0L), tot, tot);
      const long added = std::max(tot - tot0, 0L), n0 = old;
      effort(names[p.c], Spent() - sp0, p.c == WRITE ? 1 : p.c == INIT ? tot : rebuilds(p.c) ? m[k].size() + 1 : added ? added + 1 : p.c == A_REMOVE ? 1 : 0,
             p.c == REMOVE || p.c == REMOVE_IF || p.c == A_REMOVE ? n0 : p.c == UNIQUE || p.c == UNIQUE_P || p.c == MERGE || p.c == MERGE_CMP || p.c == MERGE_SELF ? std::max((p.c == MERGE || p.c == MERGE_CMP ? 2 * tot - n0 : n0) - 1, 0L) : 0);
      if (nocopy)
         MC_CHECK(STABLE, g().copies == cp0 && g().ctors == ct0 && g().dtors == dt0 && g().assigns == as0 && g().allocs == al0, "%s copied, created, destroyed or reallocated elements", names[p.c]);
   }

   void queries()
   {
      Snapshot a(*this);
      {
      Sut su;
      for (int k = 0; k < nobj; ++k)
      {
         L &l = *o[k]; const L &c = o[k].c();
         sink(c.size()); sink(c.empty()); sink(l.size()); sink(l.empty());
         sink(c == o[nobj - 1].c()); sink(c != o[nobj - 1].c()); sink(o[nobj - 1].c() == c); sink(c == c); sink(c != c);
         if (!c.empty()) { sink(c.front()); sink(c.back()); sink(l.front()); sink(l.back()); }
         run_through(l.begin(), l.end()); run_through(c.begin(), c.end()); run_through(c.cbegin(), c.cend());
         It i = l.end(); CIt j = c.end();
         for (size_t n = m[k].size(); n--;) { sink(*--i); sink(*--j); }
      }
      }
      a.same("a query", true);
   }
   // operations that replace the contents
   static bool rebuilds(int c) { return c == INIT || c == ASSIGN_N || c == ASSIGN_RANGE || (c >= CTOR && c <= CTOR_COPY) || c == COPY_ASSIGN || c == SELF_ASSIGN; }

   void check()
   {
      for (int k = 0; k < nobj; ++k)
      {
         const char *nm = k ? "B" : "A";
         L &l = *o[k]; const L &c = o[k].c(); Seq &s = m[k];
         Harness hh;
         own_cursors<true, L, It, CIt>(nm, l, 0, 0);
         walk((std::string(nm) + " forward").c_str(), l.begin(), l.end(), s, true);
         if (g().failed || g().foreign) return;
         walk((std::string(nm) + " forward const").c_str(), c.begin(), c.end(), s, true);
         walk((std::string(nm) + " cbegin").c_str(), c.cbegin(), c.cend(), s, true);
         { // postfix forward, prefix and postfix backward
            It i = l.end(); CIt ci = c.end(); CIt cf = c.begin(); It f = l.begin();
            for (size_t n = s.size(); n--;)
            {
               It old = i; It b = i--;
               MC_CHECK(VALUE, b == old, "%s: postfix -- returns the wrong position", nm);
               --ci;
               if (&*i != s[n].addr || &*ci != s[n].addr || !(ci == CIt(i)) || i.operator->() != &*i) { fail(VALUE, "%s: going backwards, element %zu is wrong in %s", nm, n, seq_str(s).c_str()); return; }
            }
            MC_CHECK(VALUE, i == l.begin() && ci == c.begin(), "%s: going backwards does not arrive at begin", nm);
            for (size_t n = 0; n < s.size(); ++n)
            {
               It b = f++; CIt cb = cf++;
               MC_CHECK(VALUE, &*b == s[n].addr && &*cb == s[n].addr, "%s: postfix ++ is wrong at %zu", nm, n);
            }
            // links beyond the ends are circular in one step only through end
         }
         MC_CHECK(VALUE, l.size() == s.size(), "%s: size() is %zu, expected %zu", nm, l.size(), s.size());
         MC_CHECK(VALUE, l.empty() == s.empty(), "%s: empty() is wrong", nm);
         if (!s.empty())
         {
            MC_CHECK(VALUE, &l.front() == s[0].addr && &c.front() == s[0].addr, "%s: front() is wrong", nm);
            MC_CHECK(VALUE, &l.back() == s.back().addr && &c.back() == s.back().addr, "%s: back() is wrong", nm);
         }
         bool self = true; // a NaN is not equal to itself
         for (size_t i = 0; self && i < s.size(); ++i) self = Num<T>::eq(s[i].v, s[i].v);
         MC_CHECK(VALUE, (c == c) == self && (c != c) == !self, "%s: not equal to itself", nm);
      }
      if (std::is_same<T, Elem>::value)
         MC_CHECK(LIFE, g().live_elems == (long)(m[0].size() + m[1].size()), "%ld elements are alive, the contents are %ld", g().live_elems, (long)(m[0].size() + m[1].size()));
      if (nobj > 1)
      {
         bool eq = m[0].size() == m[1].size();
         for (size_t i = 0; eq && i < m[0].size(); ++i) eq = Num<T>::eq(m[0][i].v, m[1][i].v);
         MC_CHECK(VALUE, (o[0].c() == o[1].c()) == eq && (o[0].c() != o[1].c()) == !eq && (o[1].c() == o[0].c()) == eq, "== / != of %s and %s is wrong", seq_str(m[0]).c_str(), seq_str(m[1]).c_str());
      }
   }
};

int main(int argc, char **argv)
{
   Cfg cfg = parse(argc, argv);
   if (cfg.get("elem") == "int") return drive<ListSys<int> >(cfg);
   if (cfg.get("elem") == "double") return drive<ListSys<double> >(cfg);
   if (cfg.get("elem") == "keyed") return drive<ListSys<Keyed> >(cfg);
   return drive<ListSys<Elem> >(cfg);
}
