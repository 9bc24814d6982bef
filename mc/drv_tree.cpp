// ttl::map (KIND 1), ttl::set (KIND 2), ttl::rbtree (KIND 3)
//
// mode=rank: one object; operations name a stored key by its rank or an absent
//   key by the gap it falls into, concrete keys are chosen from the complete
//   history, so that the reachable tree shapes form a finite space of their own.
// mode=univ: one or two objects over a small universe of keys (and values).
#include "ttl/utility.hpp"
#include "ttl/functional.hpp"
#include "ttl/algorithm.hpp"
#if KIND == 1
#include "ttl/map.hpp"
#elif KIND == 2
#include "ttl/set.hpp"
#else
#include "ttl/types.hpp"
#include "ttl/rbtree.hpp"
#endif
#include "mc.hpp"
#include <math.h>
#include <list>
using namespace mc;

#define OPS(X) \
   X(INIT) X(INS) X(SUB) X(ERASE) X(CLEAR) X(INS_RANGE) X(CTOR) X(CTOR_RANGE) X(CTOR_COPY) X(RENEW) X(COPY_ASSIGN) X(SELF_ASSIGN) X(GSWAP) X(WRITE) X(INS_EQ) \
   X(A_INS) X(A_SUB) X(A_ERASE) X(A_FIND) X(INS_OTHER)
#define E(x) x,
enum { OPS(E) NOPS };
#undef E
#define N(x) #x,
static const char *const names[] = { OPS(N) };
#undef N

static long less_calls;
template<class T, int D> struct Cmp
{
   bool operator()(const T &a, const T &b) const { ++less_calls; return D ? b < a : a < b; }
};
template<class T, int D> struct Order { typedef Cmp<T, D> type; enum { counts = 1, down = D }; };
template<class T> struct Order<T, 2> { typedef ttl::less<T> type; enum { counts = 0, down = 0 }; };
template<class T> struct Order<T, 3> { typedef ttl::greater<T> type; enum { counts = 0, down = 1 }; };

// colour of a node if it has one
template<class N> auto red(const N *n, int) -> decltype(n->color == N::RED) { return n->color == N::RED; }
template<class N> bool red(const N *, long) { return false; }
template<class N> auto has_colour(const N *n, int) -> decltype(n->color == N::RED, true) { return true; }
template<class N> bool has_colour(const N *, long) { return false; }

template<class T, int D> struct TreeSys
{
   typedef Order<T, D> O;
   typedef typename O::type C;
#if KIND == 1
   typedef ttl::map<T, T, C> L;
   typedef typename L::value_type KV;
   typedef typename L::iterator It;
   typedef typename L::const_iterator CIt;
   static const T &key(const KV &x) { return x.first; }
#elif KIND == 2
   typedef ttl::set<T, C> L;
   typedef T KV;
   typedef typename L::iterator It;
   typedef typename L::const_iterator CIt;
   static const T &key(const KV &x) { return x; }
#else
   typedef ttl::rbtree<T, T, ttl::select_same<T>, C> L;
   typedef T KV;
   typedef typename L::node *It;
   typedef const typename L::node *CIt;
   static const T &key(const KV &x) { return x; }
#endif
   struct Ent { int k, v; const void *addr; bool has; alignas(It) char it[sizeof(It)]; };
   typedef std::vector<Ent> M;

   const Cfg &cfg;
   bool rankmode, dup;
   int nobj, cap, univ, vals, init, imin, thin;
   Box<L> o[2];
   M m[2];
   int step;
   std::vector<std::vector<int> > plan; // rank mode: keys created by each step
   size_t pstep;

   static const char *opname(int c) { return c < NOPS ? names[c] : "?"; }

   static Op op3(int c, int k, int sel, int x, int v = 0, int w = 0) { return Op(c, k, sel, x & 255, x >> 8, v, w); }
   static int num(const Op &p) { return p.a[2] | p.a[3] << 8; }

   TreeSys(const Cfg &c, const Hist *whole): cfg(c), step(0), pstep(0)
   {
      rankmode = cfg.get("mode", "rank") == "rank";
      nobj = cfg.num("nobj", 1); cap = cfg.num("cap", 8); univ = cfg.num("univ", 4); vals = cfg.num("vals", 1);
      init = cfg.num("init", 0); imin = cfg.num("imin", 0); dup = cfg.num("dup", 0); thin = cfg.num("thin", 0);
      for (int i = 0; i < nobj; ++i) o[i].make();
      if (rankmode && whole) make_plan(*whole);
   }
   void destroy() { for (int i = 0; i < nobj; ++i) o[i].kill(); }

   // -------- concrete keys for a history in rank mode
   struct Id { int pos; };
   void make_plan(const Hist &h)
   {
      std::list<int> order; // ids of all keys ever, ascending
      std::vector<std::list<int>::iterator> where;
      std::vector<int> present; // ids of the present entries in order, equal keys share the id
      std::vector<std::vector<int> > ids(h.size());
      for (size_t s = 0; s < h.size(); ++s)
      {
         const Op &p = h[s];
         const int x = num(p);
         switch (p.c)
         {
         case INIT:
         {
            int n = x, prev = -1;
            for (int i = 0; i < n; ++i)
            {
               if (p.a[4] == 4 && i % 3) { present.push_back(prev); continue; } // pattern 4: groups of three equal keys
               int id = where.size();
               where.push_back(order.insert(order.end(), id));
               present.push_back(id); ids[s].push_back(id); prev = id;
            }
            break;
         }
         case INS: case SUB: case INS_EQ:
            if (p.a[1] == 1)
            {
               int id = where.size();
               where.push_back(order.insert(x < (int)present.size() ? where[present[x]] : order.end(), id));
               present.insert(present.begin() + x, id);
               ids[s].push_back(id);
            }
            else if (p.c == INS_EQ && p.a[1] == 0)
            {
               int id = present[x];
               size_t e = x; while (e < present.size() && present[e] == id) ++e;
               present.insert(present.begin() + e, id);
            }
            break;
         case ERASE: case A_ERASE:
            if (p.a[1] == 0)
            {  // one of the equal keys
               present.erase(present.begin() + x);
            }
            break;
         case CLEAR: case CTOR: present.clear(); break;
         }
      }
      std::vector<int> val(where.size());
      int n = 0;
      for (std::list<int>::iterator i = order.begin(); i != order.end(); ++i) val[*i] = n++;
      plan.resize(h.size());
      for (size_t s = 0; s < h.size(); ++s)
         for (size_t j = 0; j < ids[s].size(); ++j)
         {
            int pos = val[ids[s][j]] - n / 2; // some negative keys
            plan[s].push_back((O::down ? -pos : pos) * 16);
         }
   }
   int vof(int k) const { return rankmode ? k + 1 : 1; }
   // an absent key in gap g of object k
   int gapkey(int k, int g) const
   {
      const M &s = m[k];
      int d = O::down ? -1 : 1;
      if (g < (int)s.size()) return s[g].k - 5 * d;
      return s.empty() ? 3 : s.back().k + 5 * d;
   }
   int resolve(int k, const Op &p) const
   {
      const int x = num(p);
      switch (p.a[1])
      {
      case 0: return m[k][x].k;
      case 1: return pstep < plan.size() && !plan[pstep].empty() ? plan[pstep][0] : gapkey(k, x);
      default: return ukey(x);
      }
   }
   // key number x of the universe
   static int ukey(int x) { static const int u[] = { 0, -7, INT_MAX, INT_MIN, 5, -1, 1, 100, 101, -100, 42, 43 }; return u[x]; }
   static bool before(int a, int b) { return O::down ? b < a : a < b; }

   void canon(Canon &c)
   {
      for (int i = 0; i < nobj; ++i) c.root(o[i].mem, sizeof(L));
      if (init) c.value(step > 0);
      if (rankmode)
      {
         static std::map<int, int> rank;
         rank.clear();
         int r = 0;
         for (size_t i = 0; i < m[0].size(); ++i)
         {
            if (i && m[0][i].k != m[0][i - 1].k) ++r;
            rank[m[0][i].k] = r;
            rank[m[0][i].k + 1] = r + 0x8000;
         }
         c.rank = &rank;
      }
   }

   void ops(std::vector<Op> &r)
   {
      const bool seq = cfg.has("grp", "seq"), copy = cfg.has("grp", "copy"), alias = cfg.has("grp", "alias");
      if (init && !step)
      {
         for (int n = imin; n <= init; ++n)
            for (int p = 0; p < (dup ? 5 : 4); ++p) r.push_back(op3(INIT, 0, 0, n, p));
         return;
      }
      for (int k = 0; k < nobj; ++k)
      {
         const int n = m[k].size();
         const int C = init ? 100000 : cap;
         if (rankmode)
         {
            for (int g = 0; g <= n; ++g)
            {
               if (thin && !thin_pos(g, n)) continue;
               if (dup && g && g < n && m[k][g - 1].k == m[k][g].k) continue;
               if (n < C && (seq || copy || alias))
               {
                  r.push_back(op3(dup ? INS_EQ : INS, k, 1, g));
                  if (KIND == 1 && seq) r.push_back(op3(SUB, k, 1, g));
               }
               if (seq) r.push_back(op3(ERASE, k, 3, g));
               if (g < n)
               {
                  if (seq || copy || alias) r.push_back(op3(ERASE, k, 0, g));
                  if (dup && n < C) r.push_back(op3(INS_EQ, k, 0, g));
                  if (seq)
                  {
                     r.push_back(op3(INS, k, 0, g));
                     if (KIND == 1) r.push_back(op3(SUB, k, 0, g));
                  }
                  if (alias)
                  {
                     r.push_back(op3(A_ERASE, k, 0, g)); 
                     if (KIND != 3) r.push_back(op3(A_INS, k, 0, g));
                     if (KIND == 1) r.push_back(op3(A_SUB, k, 0, g));
                     r.push_back(op3(A_FIND, k, 0, g));
                  }
               }
            }
            if (seq) r.push_back(Op(CLEAR, k));
            if (copy) { r.push_back(Op(RENEW, k)); r.push_back(Op(SELF_ASSIGN, k)); }
         }
         else
         {
            for (int x = 0; x < univ; ++x)
            {
               bool here = false; for (int i = 0; i < n; ++i) here = here || m[k][i].k == ukey(x);
               for (int v = 1; v <= (KIND == 1 ? vals : 1); ++v)
                  if (here ? seq : (seq || copy) && n < C) r.push_back(op3(dup && n < C ? INS_EQ : INS, k, 2, x, v));
               if (seq && dup && (here || n < C)) r.push_back(op3(INS, k, 2, x, 1));
               if (KIND == 1 && (n < C || here) && seq) r.push_back(op3(SUB, k, 2, x));
               if (seq || (copy && here)) r.push_back(op3(ERASE, k, 2, x));
               if (KIND == 1 && here && (seq || copy))
                  for (int v = 1; v <= vals; ++v) r.push_back(op3(WRITE, k, 2, x, v));
               if (KIND != 3 && seq && nobj == 1)
                  for (int y = 0; y < univ; ++y)
                     for (int z = 0; z <= univ; ++z) // z == univ: two keys only
                     {
                        r.push_back(op3(INS_RANGE, k, 2, x, y, z));
                        r.push_back(op3(CTOR_RANGE, k, 2, x, y, z));
                     }
            }
            if (seq || copy) { r.push_back(Op(CLEAR, k)); r.push_back(Op(RENEW, k)); }
            if (copy || seq) r.push_back(Op(SELF_ASSIGN, k));
            if (seq) { r.push_back(Op(CTOR, k)); if (KIND != 3) { r.push_back(op3(INS_RANGE, k, 2, 0, 0, 255)); r.push_back(op3(CTOR_RANGE, k, 2, 0, 0, 255)); } }
            if (nobj > 1 && copy)
            {
               r.push_back(Op(COPY_ASSIGN, k)); r.push_back(Op(CTOR_COPY, k));
               if (KIND != 3) { r.push_back(Op(GSWAP, k)); r.push_back(Op(INS_OTHER, k)); }
            }
            if (alias)
               for (int g = 0; g < n; ++g)
               {
                  r.push_back(op3(A_ERASE, k, 0, g)); r.push_back(op3(A_INS, k, 0, g)); r.push_back(op3(A_FIND, k, 0, g));
                  if (KIND == 1) r.push_back(op3(A_SUB, k, 0, g));
               }
         }
      }
   }

   std::string str(const Op &p)
   {
      static const char *const sel[] = { "rank", "gap", "key", "absent" };
      std::string r = strf("%s(%s,%s %d", names[p.c], p.a[0] ? "B" : "A", sel[p.a[1] & 3], num(p));
      if (p.a[4] || p.a[5]) r += strf(",%d", p.a[4]);
      if (p.a[5]) r += strf(",%d", p.a[5]);
      return r + ")";
   }

   // -------- model
   int lb(int k, int key) const { const M &s = m[k]; int i = 0; while (i < (int)s.size() && before(s[i].k, key)) ++i; return i; }
   int ub(int k, int key) const { const M &s = m[k]; int i = 0; while (i < (int)s.size() && !before(key, s[i].k)) ++i; return i; }
   bool minsert(int k, int key, int v, bool eq, int &pos)
   {
      int l = lb(k, key), u = ub(k, key);
      if (l != u && !eq) { pos = l; return false; }
      Ent e; e.k = key; e.v = v; e.addr = 0; e.has = false;
      m[k].insert(m[k].begin() + u, e);
      pos = u;
      return true;
   }
   static void set_it(Ent &e, It i) { new (e.it) It(i); e.has = true; }
   static It get_it(const Ent &e) { return *(const It *)e.it; }
   void copy_model(int k, int q) { m[k] = m[q]; for (size_t i = 0; i < m[k].size(); ++i) m[k][i].has = false, m[k][i].addr = 0; }

   void cost(int n, const char *what, double mul = 1)
   {
      if (!O::counts) return;
      double h = 2 * log2(n + 1.0);
      double lim = mul * (2 * h + 4);
      MC_CHECK(COST, less_calls <= lim, "%s with %d entries took %ld key comparisons (limit %.0f)", what, n, less_calls, lim);
   }
   static const void *addr_of(const KV &x) { return &x; }

   // one insertion; variant: 0 insert/insert_unique, 1 operator[], 2 insert_equal
   void do_insert(int k, int key, int v, int variant)
   {
      const int n = m[k].size();
      int pos;
      bool fresh = minsert(k, key, v, variant == 2, pos);
      T x(key);
#if KIND == 1
      if (variant == 1)
      {
         if (fresh) m[k][pos].v = 0;
         T *ref;
         less_calls = 0;
         { Sut s; ref = &(*o[k])[x]; }
         cost(n, "operator[]", 2);
         int got = V<T>::get(*ref);
         MC_CHECK(VALUE, got == m[k][pos].v, "operator[] gives %d, expected %d", got, m[k][pos].v);
         It f = o[k]->find(x);
         MC_CHECK(VALUE, f != o[k]->end() && &f->second == ref, "operator[] does not refer to the entry of its key");
         if (rankmode && fresh) { T y(vof(key)); { Sut s; *ref = y; } m[k][pos].v = vof(key); }
         return;
      }
      T y(v);
      KV kv(x, y);
      less_calls = 0;
      { Sut s; ttl::pair<It, bool> r = o[k]->insert(kv); result(k, pos, r.first, r.second, fresh); }
      cost(n, "insert");
#elif KIND == 2
      less_calls = 0;
      { Sut s; ttl::pair<It, bool> r = o[k]->insert(x); result(k, pos, r.first, r.second, fresh); }
      cost(n, "insert");
#else
      less_calls = 0;
      if (variant == 2)
      {
         It r;
         { Sut s; r = o[k]->insert_equal(x); }
         cost(n, "insert_equal");
         MC_CHECK(VALUE, r && r != o[k]->end() && V<T>::get(r->data) == key, "insert_equal does not return the new entry");
         set_it(m[k][pos], r); m[k][pos].addr = &r->data;
         return;
      }
      ttl::pair<It, bool> r(0, false);
      { Sut s; r = o[k]->insert_unique(x); }
      cost(n, "insert_unique");
      MC_CHECK(VALUE, r.second == fresh && r.first && r.first != o[k]->end() && V<T>::get(r.first->data) == key, "insert_unique of %s key %d returned the wrong entry or flag", fresh ? "absent" : "present", key);
      if (fresh) { set_it(m[k][pos], r.first); m[k][pos].addr = &r.first->data; }
#endif
   }
#if KIND != 3
   void result(int k, int pos, It got, bool flag, bool fresh)
   {
      Harness h;
      MC_CHECK(VALUE, flag == fresh, "insert of %s key returned %s", fresh ? "an absent" : "a present", flag ? "true" : "false");
      if (got == o[k]->end()) { fail(VALUE, "insert returned end()"); return; }
      MC_CHECK(VALUE, V<T>::get(key(*got)) == m[k][pos].k, "insert returned an entry with key %d instead of %d", V<T>::get(key(*got)), m[k][pos].k);
      if (fresh) { set_it(m[k][pos], got); m[k][pos].addr = &*got; }
      else if (m[k][pos].has) MC_CHECK(VALUE, got == get_it(m[k][pos]), "insert of a present key did not return its entry");
   }
#endif
   void do_erase(int k, int key, const T *ref)
   {
      const int n = m[k].size(), l = lb(k, key), u = ub(k, key);
      T x(key);
      if (!ref) ref = &x;
      less_calls = 0;
#if KIND != 3
      size_t r;
      { Sut s; r = o[k]->erase(*ref); }
      cost(n, "erase", 3);
      MC_CHECK(VALUE, r == (size_t)(u > l), "erase of %s key returned %zu", u > l ? "a present" : "an absent", r);
      if (u > l) m[k].erase(m[k].begin() + l);
#else
      It r;
      { Sut s; r = o[k]->remove(*ref); }
      cost(n, "remove", 3);
      if (u == l) { MC_CHECK(VALUE, !r, "remove of an absent key did not return null"); return; }
      if (!r) { fail(VALUE, "remove of a present key returned null"); return; }
      for (int i = l; i < u; ++i)
         if (m[k][i].addr == &r->data)
         {
            MC_CHECK(VALUE, V<T>::get(r->data) == key, "remove detached an entry with key %d instead of %d", V<T>::get(r->data), key);
            m[k].erase(m[k].begin() + i);
            { Sut s; delete r; }
            return;
         }
      fail(VALUE, "remove did not detach one of the entries with the key");
#endif
   }

   void apply(const Op &p)
   {
      ++step;
      const Spent sp0; const long tot0 = m[0].size() + m[1].size();
      const int k = p.a[0] & 1, q = nobj > 1 ? 1 - k : k;
      if ((KIND == 3 && dup && p.c == ERASE) || p.c >= A_INS && p.c <= A_FIND) { learn(k); if (g().failed || g().foreign) { ++pstep; return; } }
      switch (p.c)
      {
      case INIT:
      {
         const int n = num(p);
         std::vector<int> ks(plan[pstep]);
         int cnt = ks.size();
         std::vector<int> ord;
         for (int i = 0; i < n; ++i)
            switch (p.a[4])
            {
            case 0: ord.push_back(i); break;
            case 1: ord.push_back(n - 1 - i); break;
            case 2: ord.push_back(i & 1 ? n - 1 - i / 2 : i / 2); break;
            case 3: { int st = n * 5 / 8 + 1; while (std::__gcd(st, n) != 1) ++st; ord.push_back((long)i * st % n); break; }
            case 4: ord.push_back(i % cnt); break;
            }
         for (int i = 0; i < n; ++i) do_insert(k, ks[ord[i]], vof(ks[ord[i]]), dup ? 2 : 0);
         break;
      }
      case INS: { int key = resolve(k, p); bool have = lb(k, key) != ub(k, key); do_insert(k, key, rankmode ? (have ? key + 2 : key + 1) : p.a[4], 0); break; }
      case INS_EQ: { int key = resolve(k, p); do_insert(k, key, 0, 2); break; }
      case SUB: { int key = resolve(k, p); do_insert(k, key, 0, 1); break; }
      case ERASE: do_erase(k, p.a[1] == 3 ? gapkey(k, num(p)) : resolve(k, p), 0); break;
      case CLEAR: { Sut s; o[k]->clear(); } m[k].clear(); break;
      case CTOR: o[k].kill(); o[k].make(); m[k].clear(); break;
      case RENEW: // replaced by a copy of itself
      {
         Box<L> t;
#if KIND != 3
         t.make(o[k].c());
         o[k].kill(); 
         o[k] = t; t.mem = 0;
#else
         t.make();
         { Sut s; t->assign(o[k].c()); }
         o[k].kill(); o[k].make();
         { Sut s; o[k]->assign(t.c()); }
         t.kill();
#endif
#if KIND != 3
         // the header lives in the object: copy once more into fresh storage
         {
            t.mem = o[k].mem; t.alive = true; o[k].mem = 0; o[k].alive = false;
            o[k].make(t.c()); t.kill();
         }
#endif
         copy_model(k, k);
         break;
      }
#if KIND != 3
      case INS_RANGE: case CTOR_RANGE:
      {
         int ks[3] = { num(p), p.a[4], p.a[5] }, n = p.a[5] == 255 ? 0 : p.a[5] == univ ? 2 : 3;
         if (n < 3) ks[2] = 0;
#if KIND == 1
         ttl::pair<T, T> src[3] = { ttl::pair<T, T>(T(ukey(ks[0])), T(1)), ttl::pair<T, T>(T(ukey(ks[1])), T(2)), ttl::pair<T, T>(T(ukey(ks[2])), T(1)) };
         const ttl::pair<T, T> *f = src;
#else
         T src[3] = { T(ukey(ks[0])), T(ukey(ks[1])), T(ukey(ks[2])) };
         const T *f = src;
#endif
         if (p.c == CTOR_RANGE) { o[k].kill(); o[k].make(f, f + n); m[k].clear(); }
         else { Sut s; o[k]->insert(f, f + n); }
         int pos;
         for (int i = 0; i < n; ++i) minsert(k, ukey(ks[i]), i == 1 ? 2 : 1, false, pos);
         break;
      }
      case INS_OTHER: // everything in the other object
      {
         { Sut s; o[k]->insert(o[q].c().begin(), o[q].c().end()); }
         int pos;
         for (size_t i = 0; i < m[q].size(); ++i) minsert(k, m[q][i].k, m[q][i].v, false, pos);
         break;
      }
      case CTOR_COPY: o[k].kill(); o[k].make(o[q].c()); copy_model(k, q); break;
      case COPY_ASSIGN: { Sut s; L &r = *o[k] = o[q].c(); Harness h; MC_CHECK(VALUE, &r == &*o[k], "operator= does not return its object"); } copy_model(k, q); break;
      case SELF_ASSIGN: { Sut s; L &self = *o[k]; *o[k] = self; } for (size_t i = 0; i < m[k].size(); ++i) m[k][i].has = false, m[k][i].addr = 0; break;
      case GSWAP: { Sut s; ttl::swap(*o[k], *o[q]); } m[k].swap(m[q]); for (int j = 0; j < 2; ++j) copy_model(j, j); break;
#else
      case CTOR_COPY: o[k].kill(); o[k].make(); { Sut s; o[k]->assign(o[q].c()); } copy_model(k, q); break;
      case COPY_ASSIGN: { Sut s; o[k]->assign(o[q].c()); } copy_model(k, q); break;
      case SELF_ASSIGN: { Sut s; o[k]->assign(o[k].c()); } for (size_t i = 0; i < m[k].size(); ++i) m[k][i].has = false, m[k][i].addr = 0; break;
#endif
#if KIND == 1
      case WRITE:
      {
         T x(ukey(num(p))), y(p.a[4]);
         int pos = lb(k, ukey(num(p)));
         { Sut s; if (p.a[4] & 1) o[k]->at(x) = y; else o[k]->find(x)->second = y; }
         m[k][pos].v = p.a[4];
         break;
      }
      case A_SUB:
      {
         int i = num(p);
         It e = get_it(m[k][i]);
         T *r;
         { Sut s; r = &(*o[k])[(*e).first]; }
         MC_CHECK(VALUE, r == &(*e).second, "operator[] with a reference to a stored key gives another entry");
         break;
      }
#endif
      case A_ERASE: { It e = get_it(m[k][num(p)]);
#if KIND == 3
            do_erase(k, m[k][num(p)].k, &key(e->data));
#else
            do_erase(k, m[k][num(p)].k, &key(*e));
#endif
            break; }
#if KIND != 3
      case A_INS:
      {
         int i = num(p);
         It e = get_it(m[k][i]);
         { Sut s; ttl::pair<It, bool> r = o[k]->insert(*e); result(k, i, r.first, r.second, false); }
         break;
      }
#endif
      case A_FIND:
      {
         It e = get_it(m[k][num(p)]);
#if KIND == 3
         const T &x = key(e->data);
#else
         const T &x = key(*e);
#endif
         bool ok;
         { Sut s; It f = o[k]->find(x), l = o[k]->lower_bound(x); ok = f == e && l == e && o[k]->count(x) == 1; }
         if (!dup) MC_CHECK(VALUE, ok, "find/lower_bound/count with a reference to a stored key are wrong");
         break;
      }
      }
      ++pstep;
      const long tot = m[0].size() + m[1].size();
      const bool rebuilds = p.c == CTOR || p.c == CTOR_COPY || p.c == COPY_ASSIGN || p.c == SELF_ASSIGN || p.c == CTOR_RANGE;
      economy(names[p.c], Spent() - sp0, p.c == INIT ? tot : p.c == RENEW ? 3 * tot : p.c == GSWAP ? 3 * tot : rebuilds ? (long)m[k].size() : std::max(tot - tot0, 0L), tot, tot);
      // a map entry has two parts; looking up an absent key through [] may build and copy a default entry
      const long per = KIND == 1 ? 2 : 1, added = std::max(tot - tot0, 0L);
      if (p.c != INIT && p.c != RENEW)
         effort(names[p.c], Spent() - sp0, p.c == GSWAP ? 3 * per * tot :
#if KIND == 1
                p.c == SUB ? (added ? 8 : 0) : p.c == WRITE ? 1 : p.c == INS_RANGE ? 3 * 6 : p.c == CTOR_RANGE ? 3 * 6 : p.c == INS_OTHER ? 6 * (long)m[q].size() :
#endif
                per * (rebuilds ? (long)m[k].size() : added), 1000000);
   }

   // -------- observation
#if KIND != 3
   static It beg(L &l) { return l.begin(); }
   static CIt beg(const L &l) { return l.begin(); }
   static It fin(L &l) { return l.end(); }
   static CIt fin(const L &l) { return l.end(); }
   static It nxt(It i) { return ++i; }
   static CIt nxt(CIt i) { return ++i; }
   static It prv(It i) { return --i; }
   static CIt prv(CIt i) { return --i; }
   static const KV &data(It i) { return *i; }
   static const KV &data(CIt i) { return *i; }
#else
   static It beg(L &l) { It r = static_cast<It>(L::min_node(l.get_root())); return r ? r : l.end(); }
   static CIt beg(const L &l) { CIt r = static_cast<CIt>(L::min_node(l.get_root())); return r ? r : l.end(); }
   static It fin(L &l) { return l.end(); }
   static CIt fin(const L &l) { return l.end(); }
   static It nxt(It i) { return static_cast<It>(L::next_node(i)); }
   static CIt nxt(CIt i) { return static_cast<CIt>(L::next_node(i)); }
   static It prv(It i) { return static_cast<It>(L::prev_node(i)); }
   static CIt prv(CIt i) { return static_cast<CIt>(L::prev_node(i)); }
   static const KV &data(CIt i) { return i->data; }
#endif
   std::string mstr(const M &s) { std::string r = "{"; for (size_t i = 0; i < s.size(); ++i) { r += strf(i ? ",%d" : "%d", s[i].k); if (KIND == 1) r += strf(":%d", s[i].v); } return r + "}"; }

   template<class LL, class I> bool traverse(const char *nm, LL &l, M &s, std::vector<I> &pos)
   {
      I i = beg(l);
      pos.clear();
      for (size_t n = 0; n < s.size(); ++n)
      {
         if (!(i != fin(l)) || i == fin(l)) { fail(VALUE | ITER, "%s: iteration ends after %zu of %s", nm, n, mstr(s).c_str()); return false; }
         const KV &d = data(i);
         int kk = V<T>::get(key(d));
         if (kk != s[n].k) { fail(VALUE | ITER, "%s: entry %zu has key %d, expected %s", nm, n, kk, mstr(s).c_str()); return false; }
#if KIND == 1
         int vv = V<T>::get(d.second);
         if (vv != s[n].v) { fail(VALUE, "%s: key %d has value %d, expected %d", nm, kk, vv, s[n].v); return false; }
#endif
         if (!s[n].addr) s[n].addr = &d;
         else if (s[n].addr != &d) { fail(dup && KIND == 3 ? VALUE : STABLE | ITER, "%s: entry %zu (key %d) is not the same object any more", nm, n, kk); return false; }
         pos.push_back(i);
         i = nxt(i);
      }
      if (i != fin(l) || !(i == fin(l))) { fail(VALUE | ITER, "%s: more entries than %s", nm, mstr(s).c_str()); return false; }
      pos.push_back(i);
      return true;
   }
   // C04: everything about stepping
   template<class LL, class I> void stepping(const char *nm, LL &l, const M &s, const std::vector<I> &pos)
   {
      const size_t n = s.size();
      for (size_t i = n; i > (KIND == 3 ? 1 : 0); --i)
      {
         if (KIND == 3 && i == n) { }
         I p = pos[i];
         if (KIND == 3 && i == n) continue; // the header is not a position to step back from
         p = prv(p);
         if (!(p == pos[i - 1])) { fail(ITER, "%s: stepping back from position %zu of %zu is wrong", nm, i, n); return; }
      }
#if KIND != 3
      for (size_t i = 0; i < n; ++i)
      {
         I p = pos[i], b = p++;
         I r = pos[i + 1], t = r--;
         I c = pos[i]; I &cr = ++c;
         I d = pos[i + 1]; I &dr = --d;
         if (!(b == pos[i] && p == pos[i + 1] && r == pos[i] && t == pos[i + 1] && &cr == &c && &dr == &d) || b != pos[i] || p.operator->() != &*pos[i + 1]) // operator-> of end is not dereferenced
         { fail(ITER, "%s: prefix and postfix stepping disagree at %zu of %zu", nm, i, n); return; }
      }
#endif
   }

   template<class N> int black(const N *n, const N *parent, int depth, int &height)
   {
      if (!n) return 1;
      if (depth > 100) { fail(BAL, "tree deeper than 100"); return 0; }
      if (depth > height) height = depth;
      if (n->parent != parent) fail(BAL, "a parent link does not match the child link");
      bool rd = red(n, 0);
      if (rd && n->left && red(n->left, 0)) fail(BAL, "a red node has a red left child");
      if (rd && n->right && red(n->right, 0)) fail(BAL, "a red node has a red right child");
      int a = black((const N *)n->left, n, depth + 1, height), b = black((const N *)n->right, n, depth + 1, height);
      if (has_colour(n, 0) && a != b) fail(BAL, "paths with %d and %d black nodes below a node", a, b);
      return a + !rd;
   }

   // learn the entries of object k if some are not known yet (created by a copy, range or subscript)
   void learn(int k)
   {
      bool all = true;
      for (size_t i = 0; i < m[k].size(); ++i) all = all && m[k][i].has && m[k][i].addr;
      if (all) return;
      std::vector<It> pos;
      if (traverse(k ? "B" : "A", *o[k], m[k], pos))
         for (size_t i = 0; i < m[k].size(); ++i) set_it(m[k][i], pos[i]);
   }

   void queries()
   {
      for (int k = 0; k < nobj; ++k)
      {
         L &l = *o[k]; const L &c = o[k].c(); const M &s = m[k]; const int n = s.size();
         std::vector<int> probe;
         if (rankmode)
         {
            for (int i = 0; i < n; ++i) if (!i || s[i].k != s[i - 1].k) probe.push_back(s[i].k);
            for (int g = 0; g <= n; ++g) if (!dup || !g || g == n || s[g].k != s[g - 1].k) probe.push_back(gapkey(k, g));
         }
         else for (int x = 0; x < univ + 2; ++x) probe.push_back(ukey(x));
         for (size_t j = 0; j < probe.size(); ++j)
         {
            T x(probe[j]);
            Snapshot a(*this);
            {
               Sut su;
               sink(c.find(x)); sink(l.find(x)); sink(c.count(x)); sink(l.count(x));
               sink(c.lower_bound(x)); sink(l.lower_bound(x)); sink(c.upper_bound(x)); sink(l.upper_bound(x)); sink(c.equal_range(x)); sink(l.equal_range(x));
#if KIND == 1
               if (lb(k, probe[j]) != ub(k, probe[j])) { sink(c.at(x)); sink(l.at(x)); }
#endif
            }
            a.same(strf("a lookup of %d", probe[j]).c_str(), true);
         }
         Snapshot a(*this);
         {
            Sut su;
#if KIND != 3
            sink(c.empty()); sink(l.empty()); sink(c.max_size());
            run_through(l.begin(), l.end()); run_through(c.begin(), c.end()); run_through(c.cbegin(), c.cend());
            It i = l.end(); CIt j = c.end();
            for (int n = s.size(); n--;) { sink(*--i); sink(*--j); }
#else
            sink(c.get_root()); sink(l.get_root());
            CIt i = beg(c);
            for (int n = s.size(); n--; i = nxt(i)) sink(i->data);
#endif
         }
#if KIND != 3
         equality(c, o[nobj - 1].c(), same_model(k, nobj - 1));
#endif
         a.same("a query", true);
      }
   }
   bool same_model(int a, int b) const
   {
      bool eq = m[a].size() == m[b].size();
      for (size_t i = 0; eq && i < m[a].size(); ++i) eq = m[a][i].k == m[b][i].k && (KIND != 1 || m[a][i].v == m[b][i].v);
      return eq;
   }
   void check()
   {
      std::vector<It> pos[2];
      std::vector<CIt> cpos[2];
      long total = 0;
      for (int k = 0; k < nobj; ++k)
      {
         const char *nm = k ? "B" : "A";
         L &l = *o[k]; const L &c = o[k].c(); M &s = m[k];
         const int n = s.size();
         total += n;
#if KIND != 3
         own_cursors<true, L, It, CIt>(nm, l, 0, 0);
#endif
         if (!traverse(nm, l, s, pos[k])) return;
         if (!traverse(k ? "const B" : "const A", c, s, cpos[k])) return;
         stepping(nm, l, s, pos[k]);
         stepping(k ? "const B" : "const A", c, s, cpos[k]);
         for (int i = 0; i < n; ++i)
            if (!s[i].has) set_it(s[i], pos[k][i]);
            else MC_CHECK(ITER, get_it(s[i]) == pos[k][i] && &data(get_it(s[i])) == s[i].addr, "%s: the iterator kept for entry %d does not designate it any more", nm, i);
#if KIND != 3
         MC_CHECK(ITER, c.cbegin() == cpos[k][0] && c.cend() == cpos[k][n] && CIt(pos[k][0]) == cpos[k][0] && CIt(pos[k][n]) == cpos[k][n]
                  && cpos[k][0] == pos[k][0] && pos[k][0] == cpos[k][0] && !(pos[k][0] != cpos[k][0]), "%s: begin/end and cbegin/cend disagree", nm);
         MC_CHECK(VALUE, l.empty() == (n == 0), "%s: empty() is wrong", nm);
         MC_CHECK(VALUE, c.max_size() >= (size_t)n, "%s: max_size()", nm);
#else
         MC_CHECK(VALUE, !l.get_root() == (n == 0) && c.get_root() == l.get_root() && c.get_croot() == l.get_root(), "%s: get_root() is wrong", nm);
         int h = 0;
         if (n)
         {
            const ttl::rbnode *root = c.get_root(), *hdr = c.end();
            black(root, hdr, 1, h);
         }
         MC_CHECK(BAL, h <= 2 * log2(n + 1.0) + 1e-9, "%s: height %d for %d entries", nm, h, n);
#endif
         // every stored key and every gap, or the whole universe
         std::vector<int> probe;
         if (rankmode)
         {
            for (int i = 0; i < n; ++i) if (!i || s[i].k != s[i - 1].k) probe.push_back(s[i].k);
            for (int g = 0; g <= n; ++g) if (!dup || !g || g == n || s[g].k != s[g - 1].k) probe.push_back(gapkey(k, g));
         }
         else for (int x = 0; x < univ + 2; ++x) probe.push_back(ukey(x));
         for (size_t j = 0; j < probe.size(); ++j)
         {
            const int kk = probe[j];
            int a = -1, b = -1;
            { // binary search in the model
               int lo = 0, hi = n;
               while (lo < hi) { int mid = (lo + hi) / 2; if (before(s[mid].k, kk)) lo = mid + 1; else hi = mid; }
               a = lo; hi = n;
               while (lo < hi) { int mid = (lo + hi) / 2; if (!before(kk, s[mid].k)) lo = mid + 1; else hi = mid; }
               b = lo;
            }
            T x(kk);
            Sut su;
            less_calls = 0; It f = l.find(x); probe_cost(n, "find");
            CIt cf = c.find(x);
            if (dup && KIND == 3) { Harness h; bool ok = false; for (int i = a; i < b; ++i) ok = ok || f == pos[k][i]; MC_CHECK(VALUE, (a == b ? f == pos[k][n] : ok) && cf == CIt(f), "%s: find(%d) is wrong in %s", nm, kk, mstr(s).c_str()); }
            else if (!(f == pos[k][a < b ? a : n]) || !(cf == cpos[k][a < b ? a : n])) fail(VALUE, "%s: find(%d) is wrong in %s", nm, kk, mstr(s).c_str());
            less_calls = 0; size_t cnt = c.count(x); 
            if (b - a < 2) probe_cost(n, "count");
            if (cnt != (size_t)(b - a)) fail(VALUE, "%s: count(%d) is %zu in %s", nm, kk, cnt, mstr(s).c_str());
            less_calls = 0; It lo = l.lower_bound(x); probe_cost(n, "lower_bound");
            if (!(lo == pos[k][a]) || !(c.lower_bound(x) == cpos[k][a])) fail(BOUND, "%s: lower_bound(%d) is wrong in %s", nm, kk, mstr(s).c_str());
            less_calls = 0; It up = l.upper_bound(x); probe_cost(n, "upper_bound");
            if (!(up == pos[k][b]) || !(c.upper_bound(x) == cpos[k][b])) fail(BOUND, "%s: upper_bound(%d) is wrong in %s", nm, kk, mstr(s).c_str());
            ttl::pair<It, It> er = l.equal_range(x);
            ttl::pair<CIt, CIt> cer = c.equal_range(x);
            if (!(er.first == pos[k][a] && er.second == pos[k][b] && cer.first == cpos[k][a] && cer.second == cpos[k][b])) fail(BOUND, "%s: equal_range(%d) is wrong in %s", nm, kk, mstr(s).c_str());
#if KIND == 1
            if (a < b)
            {
               const T *x1 = &l.at(x), *x2 = &c.at(x);
               if (x1 != &pos[k][a]->second || x2 != x1) fail(VALUE, "%s: at(%d) is wrong", nm, kk);
            }
#endif
            if (g().failed || g().foreign) return;
         }
#if KIND == 1
         equality(c, c, true);
#elif KIND == 2
         equality(c, c, true);
#endif
      }
      if (std::is_same<T, Elem>::value)
         MC_CHECK(LIFE, g().live_elems == total * (KIND == 1 ? 2 : 1), "%ld elements are alive, the contents are %ld", g().live_elems, total * (KIND == 1 ? 2 : 1));
#if KIND != 3
      if (nobj > 1)
      {
         bool eq = m[0].size() == m[1].size();
         for (size_t i = 0; eq && i < m[0].size(); ++i) eq = m[0][i].k == m[1][i].k && (KIND != 1 || m[0][i].v == m[1][i].v);
         equality(o[0].c(), o[1].c(), eq);
         equality(o[1].c(), o[0].c(), eq);
      }
#endif
   }
   void probe_cost(int n, const char *what) { Harness h; cost(n, what); }
#if KIND == 1
   void equality(const L &a, const L &b, bool eq) { bool e, x; { Sut s; e = a == b; x = a != b; } MC_CHECK(VALUE, e == eq && x == !eq, "== / != is wrong: %s and %s", mstr(m[0]).c_str(), mstr(m[1]).c_str()); }
#elif KIND == 2
   template<class X, class = decltype(std::declval<const X &>() == std::declval<const X &>())>
   void equality_(const X &a, const X &b, bool eq, int) { bool e, x; { Sut s; e = a == b; x = a != b; } MC_CHECK(VALUE, e == eq && x == !eq, "== / != is wrong: %s and %s", mstr(m[0]).c_str(), mstr(m[1]).c_str()); }
   template<class X> void equality_(const X &, const X &, bool, long) {}
   void equality(const L &a, const L &b, bool eq) { equality_(a, b, eq, 0); }
#endif
};

int main(int argc, char **argv)
{
   Cfg cfg = parse(argc, argv);
   const bool i = cfg.get("elem") == "int";
   switch (cfg.num("cmp", 0))
   {
   case 1: return drive<TreeSys<Elem, 1> >(cfg);
   case 2: return i ? drive<TreeSys<int, 2> >(cfg) : drive<TreeSys<Elem, 2> >(cfg);
   case 3: return i ? drive<TreeSys<int, 3> >(cfg) : drive<TreeSys<Elem, 3> >(cfg);
   }
   return drive<TreeSys<Elem, 0> >(cfg);
}
