// ttl::sorted_vector_map (KIND 1), ttl::vector_map (KIND 2): one or two objects
#include "ttl/utility.hpp"
#include "ttl/functional.hpp"
#include "ttl/algorithm.hpp"
#if KIND == 1
#include "ttl/sorted_vector_map.hpp"
#else
#include "ttl/vector_map.hpp"
#endif
#include "mc.hpp"
using namespace mc;

#define OPS(X) \
   X(INIT) X(INS) X(SUB) X(WRITE) X(CLEAR) X(CTOR) X(CTOR_PRE) X(CTOR_COPY) X(RENEW) X(PUSH_BACK) X(POP_BACK) X(VINSERT) X(VINSERT_N) X(ERASE) X(ERASE_RANGE) \
   X(RESIZE) X(RESERVE) X(SWAP) X(SWAP_SELF) X(A_INS) X(A_SUB) X(A_FIND) X(A_PUSH_BACK) X(A_VINSERT) X(WRITE_KEY)
#define E(x) x,
enum { OPS(E) NOPS };
#undef E
#define N_(x) #x,
static const char *const names[] = { OPS(N_) };
#undef N_

template<class T> struct CountLess { bool operator()(const T &a, const T &b) const { return a < b; } };

// D: 0 ascending, 1 descending
template<class K, class T, int D> struct MapSys
{
#if KIND == 1
   typedef typename std::conditional<D, ttl::greater<K>, ttl::less<K> >::type C;
   typedef ttl::sorted_vector_map<K, T, C> L;
#else
   typedef ttl::vector_map<K, T> L;
   typedef ttl::vector<ttl::pair<K, T> > VB;
#endif
   typedef typename L::iterator It;
   typedef typename L::const_iterator CIt;
   typedef ttl::pair<K, T> KV;
   struct Ent { int k, v; const void *addr; };
   typedef std::vector<Ent> M;

   const Cfg &cfg;
   int nobj, cap, univ, vals, init, imin, pre;
   Box<L> o[2];
   M m[2];
   int step;

   static const char *opname(int c) { return c < NOPS ? names[c] : "?"; }
   MapSys(const Cfg &c, const Hist *): cfg(c), step(0)
   {
      nobj = cfg.num("nobj", 1); cap = cfg.num("cap", 4); univ = cfg.num("univ", 4); vals = cfg.num("vals", 1); init = cfg.num("init", 0); imin = cfg.num("imin", 0); pre = cfg.num("pre", 3);
      for (int i = 0; i < nobj; ++i) o[i].make();
   }
   void destroy() { for (int i = 0; i < nobj; ++i) o[i].kill(); }
   void canon(Canon &c)
   {
      for (int i = 0; i < nobj; ++i)
      {
         c.root(o[i].mem, sizeof(L));
#if KIND == 2
         if (!std::is_same<T, Elem>::value) c.mask(o[i]->data() + o[i]->size(), o[i]->data() + o[i]->capacity());
#endif
      }
      if (init) c.value(step > 0);
   }
   static int ukey(int x) { static const int u[] = { 0, -7, INT_MAX, INT_MIN, 5, -1, 1, 100, 101, -100, 42, 43 }; return u[x]; }
   static bool before(int a, int b) { return D ? b < a : a < b; }
   // key selected by sel: 0 stored, by position; 1 absent, by gap; 2 of the universe
   int key(int k, int sel, int x) const
   {
      const M &s = m[k];
      const int d = D ? -1 : 1;
      switch (sel)
      {
      case 0: return s[x].k;
      case 1: return x < (int)s.size() ? s[x].k - 3 * d : s.empty() ? 3 : s.back().k + 3 * d;
      default: return ukey(x);
      }
   }
   int first(int k, int key) const { for (size_t i = 0; i < m[k].size(); ++i) if (m[k][i].k == key) return i; return -1; }
   int lb(int k, int key) const { size_t i = 0; while (i < m[k].size() && before(m[k][i].k, key)) ++i; return i; }
   int ub(int k, int key) const { size_t i = 0; while (i < m[k].size() && !before(key, m[k][i].k)) ++i; return i; }

   void ops(std::vector<Op> &r)
   {
      const bool seq = cfg.has("grp", "seq"), copy = cfg.has("grp", "copy"), alias = cfg.has("grp", "alias");
      if (init && !step)
      {
         for (int n = imin; n <= init; ++n)
            for (int p = 0; p <= n + 2; p += (p < 4 || p >= n - 1) ? 1 : 1 + n / 4)
               for (int w = 0; w < 3; ++w) r.push_back(Op(INIT, 0, n, p, w));
         return;
      }
      for (int k = 0; k < nobj; ++k)
      {
         const int n = m[k].size(), C = init ? 100000 : cap;
         const bool room = n < C;
         for (int sel = init ? 0 : 2; sel < (init ? 2 : 3); ++sel)
            for (int x = 0; x < (sel == 2 ? univ : sel ? KIND == 1 ? n + 1 : 1 : n); ++x) if (thin_pos(x, n))
            {
               const int kk = key(k, sel, x);
               const bool here = first(k, kk) >= 0;
               if (here ? seq : room) for (int v = 1; v <= vals; ++v) r.push_back(Op(INS, k, sel, x, v));
               if ((here || room) && seq) r.push_back(Op(SUB, k, sel, x));
               if (here && (seq || copy)) for (int v = 1; v <= vals + (vals == 1); ++v) for (int via = 0; via < (seq ? 4 : 1); ++via) r.push_back(Op(WRITE, k, sel, x, v, via));
#if KIND == 2
               if (room) for (int v = 1; v <= vals; ++v) r.push_back(Op(PUSH_BACK, k, sel, x, v));
               if (room && seq) for (int p = 0; p <= n; ++p) if (thin_pos(p, n)) for (int v = 1; v <= vals; ++v) { r.push_back(Op(VINSERT, k, sel, x, v, p)); if (n + 2 <= C) r.push_back(Op(VINSERT_N, k, sel, x, v, p)); }
               if (seq && sel == 2) for (int p = 0; p < n; ++p) r.push_back(Op(WRITE_KEY, k, sel, x, p));
#endif
            }
         if (seq || copy)
         {
            r.push_back(Op(CLEAR, k)); r.push_back(Op(RENEW, k)); r.push_back(Op(CTOR, k));
#if KIND == 1
            if (!init) for (int c = 0; c <= pre; ++c) r.push_back(Op(CTOR_PRE, k, c));
#endif
            if (nobj > 1)
            {
               r.push_back(Op(CTOR_COPY, k));
#if KIND == 2
               r.push_back(Op(SWAP, k)); 
#endif
            }
#if KIND == 2
            r.push_back(Op(SWAP_SELF, k));
            if (n) r.push_back(Op(POP_BACK, k));
#endif
         }
#if KIND == 2
         if (seq)
         {
            for (int p = 0; p < n; ++p) if (thin_pos(p, n)) { r.push_back(Op(ERASE, k, p)); for (int l = p; l <= n; ++l) if (thin_pos(l, n)) r.push_back(Op(ERASE_RANGE, k, p, l)); }
            if (!init) for (int c = 0; c <= C; ++c) { r.push_back(Op(RESIZE, k, c)); r.push_back(Op(RESERVE, k, c)); }
         }
         else if (alias && !init) for (int c = 0; c <= C; ++c) r.push_back(Op(RESERVE, k, c));
#endif
         if (alias)
            for (int i = 0; i < n; ++i) if (thin_pos(i, n))
            {
               r.push_back(Op(A_INS, k, i)); r.push_back(Op(A_SUB, k, i)); r.push_back(Op(A_FIND, k, i));
#if KIND == 2
               if (room) { r.push_back(Op(A_PUSH_BACK, k, i)); for (int p = 0; p <= n; ++p) if (thin_pos(p, n)) r.push_back(Op(A_VINSERT, k, i, p)); }
#endif
            }
      }
   }
   std::string str(const Op &p)
   {
      std::string r = strf("%s(%s", names[p.c], p.a[0] ? "B" : "A");
      for (int i = 1; i < 6; ++i) r += strf(",%d", p.a[i]);
      return r + ")";
   }
   void put(int k, int pos, int key, int v) { Ent e = { key, v, 0 }; m[k].insert(m[k].begin() + pos, e); if (KIND == 2) forget(k); }
   void forget(int k) { for (size_t i = 0; i < m[k].size(); ++i) m[k][i].addr = 0; }
   It at(int k, int i) { It r = o[k]->begin(); while (i--) ++r; return r; }

   void do_ins(int k, int kk, int v)
   {
      K x(kk); T y(v); KV kv(x, y);
      int pos = first(k, kk);
      const bool fresh = pos < 0;
      if (fresh) { pos = KIND == 1 ? lb(k, kk) : m[k].size(); put(k, pos, kk, v); }
      { Sut s; ttl::pair<It, bool> r = o[k]->insert(kv); result(k, pos, r, fresh); }
   }
   void result(int k, int pos, const ttl::pair<It, bool> &r, bool fresh)
   {
      Harness h;
      MC_CHECK(VALUE, r.second == fresh, "insert of %s key returned %s", fresh ? "an absent" : "a present", r.second ? "true" : "false");
      MC_CHECK(VALUE, r.first == at(k, pos), "insert returned a wrong position, not %d", pos);
   }
   void do_sub(int k, int kk, const K *ref)
   {
      K x(kk);
      int pos = first(k, kk);
      const bool fresh = pos < 0;
      if (fresh) { pos = KIND == 1 ? lb(k, kk) : m[k].size(); put(k, pos, kk, 0); }
      T *r;
      { Sut s; r = &(*o[k])[ref ? *ref : x]; }
      It i = at(k, pos);
      MC_CHECK(VALUE, r == &i->second, "operator[] of %s key does not refer to its value", fresh ? "an absent" : "a present");
   }
   void apply(const Op &p)
   {
      ++step;
      const Spent sp0; const long tot0 = m[0].size() + m[1].size();
      const int k = p.a[0] & 1, q = nobj > 1 ? 1 - k : k;
      const long n0 = m[k].size();
      switch (p.c)
      {
      case INIT:
      {
         const int n = p.a[1];
#if KIND == 1
         if (p.a[2] <= n + 1) { o[k].kill(); o[k].make((size_t)p.a[2]); }
#else
         if (p.a[2] <= n + 1) { Sut s; o[k]->reserve(p.a[2]); }
#endif
         for (int i = 0; i < n; ++i)
         {
            int x = p.a[3] == 0 ? i : p.a[3] == 1 ? n - 1 - i : i & 1 ? n - 1 - i / 2 : i / 2;
            do_ins(k, (x - n / 2) * 16, x + 1);
         }
         break;
      }
      case INS: do_ins(k, key(k, p.a[1], p.a[2]), p.a[3]); break;
      case SUB: do_sub(k, key(k, p.a[1], p.a[2]), 0); break;
      case A_SUB: { It e = at(k, p.a[1]); do_sub(k, m[k][p.a[1]].k, &e->first); break; }
      case WRITE:
      {
         const int kk = key(k, p.a[1], p.a[2]), pos = first(k, kk);
         K x(kk); T y(p.a[3]);
         {
            Sut s;
            switch (p.a[4])
            {
            case 0: o[k]->at(x) = y; break;
            case 1: (*o[k])[x] = y; break;
            case 2: o[k]->find(x)->second = y; break;
            case 3: { It i = o[k]->begin(); for (int j = 0; j < pos; ++j) ++i; (*i).second = y; break; }
            }
         }
         m[k][pos].v = p.a[3];
         break;
      }
      case CLEAR: { Sut s; o[k]->clear(); } m[k].clear(); break;
      case CTOR: o[k].kill(); o[k].make(); m[k].clear(); break;
      case CTOR_COPY: o[k].kill(); o[k].make(o[q].c()); m[k] = m[q]; forget(k); break;
      case RENEW:
      {
         Box<L> t;
         t.make(o[k].c());
         o[k].kill();
         o[k].make(t.c());
         t.kill();
         forget(k);
         break;
      }
      case A_INS: { int f = first(k, m[k][p.a[1]].k); It e = at(k, p.a[1]); Sut s; ttl::pair<It, bool> r = o[k]->insert(*e); result(k, f, r, false); break; }
      case A_FIND:
      {
         It e = at(k, p.a[1]);
         const int f = first(k, m[k][p.a[1]].k);
         int c = 0; for (size_t i = 0; i < m[k].size(); ++i) c += m[k][i].k == m[k][f].k;
         bool ok;
         { Sut s; ok = o[k]->find(e->first) == at(k, f) && (int)o[k]->count(e->first) == c && &o[k]->at(e->first) == &at(k, f)->second; }
         MC_CHECK(VALUE, ok, "find, count or at with a reference to a stored key is wrong");
         break;
      }
#if KIND == 1
      case CTOR_PRE: o[k].kill(); o[k].make((size_t)p.a[1]); m[k].clear(); break;
#else
      case PUSH_BACK: { K x(key(k, p.a[1], p.a[2])); T y(p.a[3]); KV kv(x, y); put(k, m[k].size(), key(k, p.a[1], p.a[2]), p.a[3]); { Sut s; o[k]->push_back(kv); } break; }
      case POP_BACK: { Sut s; o[k]->pop_back(); } m[k].pop_back(); break;
      case VINSERT: case VINSERT_N:
      {
         const int kk = key(k, p.a[1], p.a[2]);
         K x(kk); T y(p.a[3]); KV kv(x, y);
         It r;
         { Sut s; VB &b = *o[k]; r = p.c == VINSERT ? b.insert(b.begin() + p.a[4], kv) : b.insert(b.begin() + p.a[4], (size_t)2, kv); }
         put(k, p.a[4], kk, p.a[3]); if (p.c == VINSERT_N) put(k, p.a[4], kk, p.a[3]);
         MC_CHECK(VALUE, r == o[k]->begin() + p.a[4], "positional insert returned a wrong position");
         break;
      }
      case A_PUSH_BACK: { Ent e = m[k][p.a[1]]; { Sut s; o[k]->push_back(*(o[k]->begin() + p.a[1])); } put(k, m[k].size(), e.k, e.v); break; }
      case A_VINSERT: { Ent e = m[k][p.a[1]]; { Sut s; VB &b = *o[k]; b.insert(b.begin() + p.a[2], b[p.a[1]]); } put(k, p.a[2], e.k, e.v); break; }
      case ERASE: { It r; { Sut s; r = o[k]->erase(o[k]->begin() + p.a[1]); } m[k].erase(m[k].begin() + p.a[1]); forget(k); MC_CHECK(VALUE, r == o[k]->begin() + p.a[1], "erase returned a wrong position"); break; }
      case ERASE_RANGE: { It r; { Sut s; r = o[k]->erase(o[k]->begin() + p.a[1], o[k]->begin() + p.a[2]); } m[k].erase(m[k].begin() + p.a[1], m[k].begin() + p.a[2]); forget(k); MC_CHECK(VALUE, r == o[k]->begin() + p.a[1], "erase returned a wrong position"); break; }
      case RESIZE: { Sut s; o[k]->resize(p.a[1]); Harness h; Ent e = { 0, 0, 0 }; m[k].resize(p.a[1], e); forget(k); break; }
      case RESERVE: { Sut s; o[k]->reserve(p.a[1]); } forget(k); break;
      case SWAP: { Sut s; o[k]->swap(*o[q]); } m[k].swap(m[q]); forget(0); forget(1); break;
      case SWAP_SELF: { Sut s; o[k]->swap(*o[k]); } break;
      case WRITE_KEY: { K x(key(k, p.a[1], p.a[2])); { Sut s; (*(o[k]->begin() + p.a[3])).first = x; } m[k][p.a[3]].k = key(k, p.a[1], p.a[2]); break; }
#endif
      }
      balance(p, Spent() - sp0, tot0);
      if (p.c != INIT && p.c != RENEW)
      {
         const long added = std::max((long)(m[0].size() + m[1].size()) - tot0, 0L), now = m[k].size(), look = lookup(n0);
         long lim = 2 * added, cm = 0;
         if (p.c == SUB || p.c == WRITE || p.c == A_SUB || p.c == INS || p.c == A_INS) cm = 2 * look;
         if (p.c == A_FIND) cm = 3 * look;
         if (p.c == WRITE) lim = 1;
         if (p.c == SUB && added) lim = 8;
         if (p.c == CTOR_COPY) lim = 2 * now;
#if KIND == 2
         if (p.c == WRITE_KEY) lim = 1;
         else if (p.c == SWAP || p.c == SWAP_SELF || p.c == POP_BACK || p.c == CLEAR) lim = 0;
         else if (p.c == ERASE || p.c == ERASE_RANGE) lim = 2 * (now - p.a[1]);
         else if (added || p.c == RESERVE || p.c == RESIZE) lim = 2 * now + 8;
#endif
         effort(names[p.c], Spent() - sp0, lim, cm);
      }
   }
   // comparisons to look one key up among n
   static long lookup(long n)
   {
      if (KIND == 2) return n;
      long r = 5;
      for (; n > 1; n >>= 1) r += 2;
      return r;
   }
   // blocks held: KIND 1: one per entry and the table; KIND 2: the storage
   void balance(const Op &p, const Spent &e, long tot0)
   {
      const long tot = m[0].size() + m[1].size(), added = std::max(tot - tot0, 0L);
#if KIND == 1
      const bool make = p.c == INIT || (p.c >= CTOR && p.c <= RENEW);
      economy(names[p.c], e, p.c == INIT ? 1000000 : p.c == RENEW ? 3 * (tot + 1) : make ? tot + 1 : added ? 2 : 0, tot, tot + nobj);
#else
      long held = 0;
      for (int j = 0; j < nobj; ++j) held += o[j]->capacity() > 0;
      economy(names[p.c], e, p.c == INIT ? 1000000 : p.c == RENEW ? 3 : p.c == CTOR_COPY || p.c == RESERVE || added ? 1 : 0, held, nobj);
#endif
   }
   std::string mstr(const M &s) { std::string r = "{"; for (size_t i = 0; i < s.size(); ++i) r += strf(i ? ",%d:%d" : "%d:%d", s[i].k, s[i].v); return r + "}"; }

   template<class LL, class I> bool traverse(const char *nm, LL &l, M &s, std::vector<I> &pos)
   {
      I i = l.begin();
      for (size_t n = 0; n < s.size(); ++n)
      {
         if (i == l.end() || !(i != l.end())) { fail(VALUE, "%s: iteration ends after %zu of %s", nm, n, mstr(s).c_str()); return false; }
         int kk = V<K>::get((*i).first), vv = V<T>::get(i->second);
         if (kk != s[n].k || vv != s[n].v) { fail(VALUE, "%s: entry %zu is %d:%d, expected %s", nm, n, kk, vv, mstr(s).c_str()); return false; }
         const void *a = &*i;
         if (!s[n].addr) s[n].addr = a;
         else if (s[n].addr != a) { fail(STABLE, "%s: entry %zu (key %d) is not the same object any more", nm, n, kk); return false; }
         pos.push_back(i);
         I b = i++;
         if (!(b == pos.back())) fail(VALUE, "%s: postfix ++", nm);
      }
      if (i != l.end() || !(i == l.end())) { fail(VALUE, "%s: more entries than %s", nm, mstr(s).c_str()); return false; }
      pos.push_back(i);
      for (size_t n = s.size(); n > 0; --n)
      {
         I j = pos[n]; I &jr = --j; I k = pos[n]; I t = k--; I u = pos[n - 1]; I &ur = ++u;
         if (!(j == pos[n - 1] && k == pos[n - 1] && t == pos[n] && u == pos[n] && &jr == &j && &ur == &u)) { fail(VALUE, "%s: stepping at %zu is wrong", nm, n); return false; }
      }
      return true;
   }
   void queries()
   {
      std::vector<int> probe;
      for (int x = 0; x < std::min(univ + 2, 12); ++x) probe.push_back(ukey(x));
      for (int k = 0; k < nobj; ++k)
      {
         L &l = *o[k]; const L &c = o[k].c();
         for (size_t j = 0; j < probe.size(); ++j)
         {
            K x(probe[j]);
            Snapshot a(*this);
            {
               Sut su;
               sink(c.find(x)); sink(l.find(x)); sink(c.count(x)); sink(l.count(x));
               if (first(k, probe[j]) >= 0) { sink(c.at(x)); sink(l.at(x)); }
#if KIND == 1
               sink(c.lower_bound(x)); sink(l.lower_bound(x)); sink(c.upper_bound(x)); sink(l.upper_bound(x)); sink(c.equal_range(x)); sink(l.equal_range(x));
#endif
            }
            a.same("a lookup", true);
         }
         {
            Snapshot a(*this);
            {
               Sut su;
               sink(c.size()); sink(c.empty()); sink(c.max_size()); sink(l.size()); sink(l.empty());
               run_through(l.begin(), l.end()); run_through(c.begin(), c.end()); run_through(c.cbegin(), c.cend());
#if KIND == 1
               sink(c.key_comp()); sink(c.value_comp());
#else
               const VB &b = c, &d = o[nobj - 1].c();
               sink(b == d); sink(b != d); sink(b.data()); sink(b.capacity());
               if (!b.empty()) { sink(b.front()); sink(b.back()); }
#endif
            }
            a.same("a query", true);
         }
      }
   }
   void check()
   {
      std::vector<It> pos[2];
      std::vector<CIt> cpos[2];
      long total = 0;
      for (int k = 0; k < nobj; ++k)
      {
         const char *nm = k ? "B" : "A";
         L &l = *o[k]; const L &c = o[k].c(); M &s = m[k];
         const int n = s.size();
         total += n;
         if (l.size() != (size_t)n || c.empty() != !n || c.max_size() < (size_t)n) { fail(VALUE, "%s: size() %zu or empty() is wrong for %s", nm, (size_t)l.size(), mstr(s).c_str()); return; }
         own_cursors<true, L, It, CIt>(nm, l, 0, 0);
         if (!traverse(nm, l, s, pos[k])) return;
         if (!traverse(k ? "const B" : "const A", c, s, cpos[k])) return;
         MC_CHECK(VALUE, c.cbegin() == cpos[k][0] && c.cend() == cpos[k][n] && CIt(pos[k][0]) == cpos[k][0] && cpos[k][n] == pos[k][n] && !(cpos[k][0] != pos[k][0]), "%s: const and non-const iterators disagree", nm);
         std::vector<int> probe;
         for (int x = 0; x < std::min(univ + 2, 12); ++x) probe.push_back(ukey(x));
         if (init) { for (int i = 0; i < n; ++i) if (n <= 300 || thin_pos(i, n)) probe.push_back(s[i].k); for (int i = 0; i <= n; ++i) if (n <= 300 || thin_pos(i, n)) probe.push_back(key(k, 1, i)); }
         for (size_t j = 0; j < probe.size(); ++j)
         {
            const int kk = probe[j];
            const int f = first(k, kk);
            int cnt = 0; for (int i = 0; i < n; ++i) cnt += s[i].k == kk;
            K x(kk);
            Sut su;
            Spent sp;
            auto took = [&](const char *what, long times) { effort(what, Spent() - sp, 0, times * (KIND == 2 && *what != 'c' && f >= 0 ? f + 1 : lookup(n))); sp = Spent(); };
            if (!(l.find(x) == pos[k][f < 0 ? n : f]) || !(c.find(x) == cpos[k][f < 0 ? n : f])) { fail(VALUE, "%s: find(%d) is wrong in %s", nm, kk, mstr(s).c_str()); return; }
            took("find", 2);
            size_t got = c.count(x);
            took("count", 1);
            if (got != (size_t)cnt) { fail(VALUE, "%s: count(%d) is %zu in %s", nm, kk, got, mstr(s).c_str()); return; }
            if (f >= 0 && (&l.at(x) != &pos[k][f]->second || &c.at(x) != &pos[k][f]->second)) { fail(VALUE, "%s: at(%d) is wrong in %s", nm, kk, mstr(s).c_str()); return; }
            took("at", 2);
#if KIND == 1
            const int a = lb(k, kk), b = ub(k, kk);
            if (!(l.lower_bound(x) == pos[k][a]) || !(c.lower_bound(x) == cpos[k][a])) fail(BOUND, "%s: lower_bound(%d) is wrong in %s", nm, kk, mstr(s).c_str());
            if (!(l.upper_bound(x) == pos[k][b]) || !(c.upper_bound(x) == cpos[k][b])) fail(BOUND, "%s: upper_bound(%d) is wrong in %s", nm, kk, mstr(s).c_str());
            took("lower_bound and upper_bound", 4);
            ttl::pair<It, It> er = l.equal_range(x);
            ttl::pair<CIt, CIt> cer = c.equal_range(x);
            took("equal_range", 4);
            if (!(er.first == pos[k][a] && er.second == pos[k][b] && cer.first == cpos[k][a] && cer.second == cpos[k][b])) fail(BOUND, "%s: equal_range(%d) is wrong in %s", nm, kk, mstr(s).c_str());
            if (g().failed || g().foreign) return;
#endif
         }
#if KIND == 1
         if (n > 1)
         {
            MC_CHECK(VALUE, c.key_comp()((*cpos[k][0]).first, (*cpos[k][1]).first) && !c.key_comp()((*cpos[k][1]).first, (*cpos[k][0]).first)
                     && c.value_comp()(*cpos[k][0], *cpos[k][1]) && !c.value_comp()(*cpos[k][1], *cpos[k][0]), "%s: key_comp or value_comp is wrong", nm);
         }
#else
         for (int i = 0; i < n; ++i)
            MC_CHECK(VALUE, &static_cast<const VB &>(c)[i] == &*cpos[k][i], "vector_map as a vector: indexing is wrong");
         { Sut su; bool e = c == c; Harness h; MC_CHECK(VALUE, e, "%s: not equal to itself", nm); }
#endif
      }
      const long per = (std::is_same<T, Elem>::value ? 1 : 0) + (std::is_same<K, Elem>::value ? 1 : 0);
      MC_CHECK(LIFE, g().live_elems == total * per, "%ld elements are alive, the contents are %ld", g().live_elems, total * per);
#if KIND == 2
      if (nobj > 1)
      {
         bool eq = m[0].size() == m[1].size();
         for (size_t i = 0; eq && i < m[0].size(); ++i) eq = m[0][i].k == m[1][i].k && m[0][i].v == m[1][i].v;
         bool e, x;
         { Sut s; e = o[0].c() == o[1].c(); x = o[0].c() != o[1].c(); }
         MC_CHECK(VALUE, e == eq && x == !eq, "== / != is wrong: %s and %s", mstr(m[0]).c_str(), mstr(m[1]).c_str());
      }
#endif
   }
};

#if KIND == 2
// operator[] of a vector_map is the keyed subscript; positions go through the base
#endif

int main(int argc, char **argv)
{
   Cfg cfg = parse(argc, argv);
   const bool i = cfg.get("elem") == "int";
#if KIND == 1
   if (cfg.num("cmp", 2) == 3) return i ? drive<MapSys<int, int, 1> >(cfg) : drive<MapSys<Elem, Elem, 1> >(cfg);
#endif
   return i ? drive<MapSys<int, int, 0> >(cfg) : drive<MapSys<Elem, Elem, 0> >(cfg);
}
