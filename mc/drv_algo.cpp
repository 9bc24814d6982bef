// ttl algorithms, numeric: buffers A and B of every content up to a length; the algorithms are the transitions
#include "ttl/utility.hpp"
#include "ttl/functional.hpp"
#include "ttl/algorithm.hpp"
#include "ttl/numeric.hpp"
#include "mc.hpp"
#include <limits>
using namespace mc;

#define OPS(X) \
   X(INIT) \
   X(FIND) X(FIND_IF) X(FIND_IF_NOT) X(COUNT) X(COUNT_IF) X(ALL_OF) X(ANY_OF) X(NONE_OF) X(ADJACENT_FIND) X(ADJACENT_FIND_P) \
   X(SEARCH_N) X(SEARCH_N_P) X(FOR_EACH) X(READ_WIDE) \
   X(SEARCH) X(SEARCH_P) X(EQUAL3) X(EQUAL3_P) X(EQUAL4) X(EQUAL4_P) X(MISMATCH3) X(MISMATCH3_P) X(MISMATCH4) X(MISMATCH4_P) \
   X(FILL) X(FILL_N) X(GENERATE) X(GENERATE_N) X(REPLACE) X(REPLACE_IF) X(REMOVE) X(REMOVE_IF) X(REVERSE) X(ITER_SWAP) X(FOR_EACH_MUT) \
   X(IOTA) X(TRANSFORM_IN) X(TRANSFORM2_IN) \
   X(COPY) X(COPY_IF) X(COPY_N) X(COPY_BACKWARD) X(REPLACE_COPY) X(REPLACE_COPY_IF) X(REMOVE_COPY) X(REMOVE_COPY_IF) X(REVERSE_COPY) \
   X(TRANSFORM1) X(TRANSFORM2) X(SWAP_RANGES) X(SWAP_RANGES_IN) X(COPY_OVER) X(COPY_BACK_OVER) X(WRITE_WIDE) X(ACCUMULATE) X(ACCUMULATE_T) \
   X(LOWER) X(LOWER_C) X(UPPER) X(UPPER_C) X(EQR) X(EQR_C) X(BSEARCH) X(BSEARCH_C) X(IS_SORTED) X(IS_SORTED_UNTIL) X(MERGE) \
   X(MIN) X(MIN_C) X(MAX) X(MAX_C) X(MINMAX) X(MINMAX_C) X(MIN_EL) X(MAX_EL) X(MINMAX_EL) X(ORDER_WIDE) X(VIRT)
#define E(x) x,
enum { OPS(E) NOPS };
#undef E
#define N_(x) #x,
static const char *const names[] = { OPS(N_) };
#undef N_

static int alpha = 2;       // the arrays contain levels 1,3,..2*alpha-1; values searched for are levels 0..2*alpha
enum { FRESH = 90000, GUARD = 100000 };

// ---------------------------------------------------------------- element types
static bool ro_phase;       // reads of guard cells are judged
struct KT
{
   int k, tag;
   const KT *volatile self;
   static void use(const KT *e, const char *what)
   {
      if (e->self != e) fail(VALUE, "%s something that is not an element", what);
      else if (e->k == GUARD && ro_phase) fail(VALUE, "%s a cell outside the range", what);
   }
   KT(): k(0), tag(0), self(this) {}
   KT(int k_, int t): k(k_), tag(t), self(this) {}
   KT(const KT &o): k(o.k), tag(o.tag), self(this) { use(&o, "copy of"); ++g().copies; }
   KT &operator=(const KT &o) { use(&o, "assignment from"); use(this, "assignment to"); ++g().assigns; k = o.k; tag = o.tag; return *this; }
   KT &operator++() { k += 2; return *this; }
   ~KT() { if (self != this) fail(VALUE, "destruction of something that is not an element"); self = 0; }
};
// the results are no bools
inline int operator==(const KT &a, const KT &b) { KT::use(&a, "comparison of"); KT::use(&b, "comparison of"); ++g().cmps; return a.k == b.k ? 2 : 0; }
inline int operator<(const KT &a, const KT &b) { KT::use(&a, "comparison of"); KT::use(&b, "comparison of"); ++g().cmps; return a.k < b.k ? 4 : 0; }
inline int operator!=(const KT &a, const KT &b) { return a == b ? 0 : 8; }
inline int operator>(const KT &a, const KT &b) { return b < a; }
inline int operator<=(const KT &a, const KT &b) { return b < a ? 0 : 8; }
inline int operator>=(const KT &a, const KT &b) { return a < b ? 0 : 8; }

template<class E> struct Cell;
template<> struct Cell<KT>
{
   static KT mk(int k, int t) { return KT(k, t); }
   static int key(const KT &e) { return e.k; }
   static int tag(const KT &e) { return e.tag; }
};
template<class I, I MIN_, I MAX_> struct ICell
{
   static I mk(int l, int)
   {
      if (l >= GUARD) return 77;
      if (l >= FRESH) return (I)(50 + l - FRESH);
      if (l == 0) return MIN_;
      if (l == 2 * alpha) return MAX_;
      if (l == 1) return MIN_ + 1;
      if (l == 2 * alpha - 1) return MAX_ - 1;
      return (I)(l - alpha);
   }
   static int key(I v)
   {
      for (int l = 0; l <= 2 * alpha; ++l) if (mk(l, 0) == v) return l;
      return v == 77 ? (int)GUARD : v >= 50 && v < 77 ? FRESH + v - 50 : -1000;
   }
   static int tag(I) { return 0; }
};
template<> struct Cell<int>: ICell<int, INT_MIN, INT_MAX> {};
template<> struct Cell<signed char>: ICell<signed char, -128, 127> {};

struct KTag { int k, t; bool operator==(const KTag &o) const { return k == o.k && t == o.t; } };
typedef std::vector<KTag> Exp;

template<class E> struct Buf
{
   E *mem; int n;
   enum { PAD = 3 };
   explicit Buf(int n_): n(n_)
   {
      mem = (E *)malloc((n + 2 * PAD) * sizeof(E));
      for (int i = 0; i < n + 2 * PAD; ++i) ::new ((void *)(mem + i)) E(Cell<E>::mk(GUARD, i));
   }
   void put(int i, int k, int t)
   {
      E *p = mem + PAD + i;
      p->~E(); ::new ((void *)p) E(Cell<E>::mk(k, t));
   }
   E *begin() { return mem + PAD; }
   E *end() { return mem + PAD + n; }
   KTag at(int i) const { KTag r = { Cell<E>::key(mem[PAD + i]), Cell<E>::tag(mem[PAD + i]) }; return r; }
   void verify(const char *what, const Exp &x, int upto = -1)
   {
      for (int i = 0; i < n + 2 * PAD; ++i)
         if (i < PAD || i >= n + PAD)
         {
            if (Cell<E>::key(mem[i]) != GUARD || (Cell<E>::tag(mem[i]) != i && sizeof(E) == sizeof(KT))) { fail(VALUE, "%s: the cell at %d, outside the range of %d, was overwritten", what, i - PAD, n); return; }
         }
         else if (upto < 0 || i - PAD < upto)
         {
            KTag k = at(i - PAD);
            if (k.k != x[i - PAD].k || (sizeof(E) == sizeof(KT) && k.t != x[i - PAD].t)) { fail(VALUE, "%s: element %d is %d/%d, expected %d/%d", what, i - PAD, k.k, k.t, x[i - PAD].k, x[i - PAD].t); return; }
         }
   }
   ~Buf() { for (int i = 0; i < n + 2 * PAD; ++i) mem[i].~E(); free(mem); }
};

// ---------------------------------------------------------------- checked iterators of minimal categories
struct Rng { int n, cur; bool written; };
enum { IN, OUT, FWD, BID, RND };
template<class E, int C> struct It
{
   typedef typename std::remove_const<E>::type value_type;
   typedef E *pointer;
   typedef E &reference;
   typedef ptrdiff_t difference_type;
   E *base; Rng *r; int pos;
   It(): base(0), r(0), pos(0) {}
   It(E *b, Rng *r_, int p): base(b), r(r_), pos(p) {}
   struct Post { E *base; Rng *r; int pos; E &operator*() const { It t(base, r, pos); return t.get(); } };
   E &get() const
   {
      if (pos < 0 || pos >= r->n) { fail(VALUE, "access at %d, outside the range of %d", pos, r->n); static typename std::remove_const<E>::type dummy = Cell<typename std::remove_const<E>::type>::mk(1, 0); return dummy; }
      return base[pos];
   }
   E &operator*() const
   {
      if (C == IN && pos != r->cur) fail(VALUE, "an input range was read at %d after the next position was visited", pos);
      if (C == OUT)
      {
         if (pos != r->cur) fail(VALUE, "an output range was written at %d, expected at %d", pos, r->cur);
         else if (r->written) fail(VALUE, "an output range was written twice at %d", pos);
         r->written = true;
      }
      return get();
   }
   E *operator->() const { return &**this; }
   It &operator++()
   {
      if (C != OUT && pos >= r->n) fail(VALUE, "increment past the end of the range of %d", r->n);
      if (C == IN && pos != r->cur) fail(VALUE, "an input range was advanced twice from %d", pos);
      if (C == OUT && (pos != r->cur || !r->written)) fail(VALUE, "an output range was advanced at %d without a write", pos);
      if (C <= OUT) { r->cur = pos + 1; r->written = false; }
      ++pos;
      return *this;
   }
   typename std::conditional<(C > OUT), It, Post>::type operator++(int)
   {
      typename std::conditional<(C > OUT), It, Post>::type t{base, r, pos};
      if (C == OUT) { if (r->written || pos != r->cur) fail(VALUE, "an output range was written twice at %d", pos); r->written = true; }
      ++*this;
      return t;
   }
   It &operator--() { static_assert(C >= BID, ""); if (pos <= 0) fail(VALUE, "decrement before the begin of the range"); --pos; return *this; }
   It operator--(int) { It t = *this; --*this; return t; }
   It &operator+=(ptrdiff_t n) { static_assert(C >= RND, ""); pos += n; if (pos < 0 || pos > r->n) fail(VALUE, "moved to %d, outside the range of %d", pos, r->n); return *this; }
   It &operator-=(ptrdiff_t n) { return *this += -n; }
   It operator+(ptrdiff_t n) const { It t = *this; t += n; return t; }
   It operator-(ptrdiff_t n) const { It t = *this; t += -n; return t; }
   ptrdiff_t operator-(const It &o) const { static_assert(C >= RND, ""); return pos - o.pos; }
   bool operator<(const It &o) const { static_assert(C >= RND, ""); return pos < o.pos; }
   bool operator==(const It &o) const { if (r != o.r) fail(VALUE, "iterators of different ranges compared"); return pos == o.pos; }
   bool operator!=(const It &o) const { return !(*this == o); }
};
template<class E> int idx(E *p, E *b) { return p - b; }
template<class E, int C> int idx(const It<E, C> &i, E *) { return i.pos; }
template<class E> int idx(const E *p, E *b) { return p - b; }
template<class E, int C> int idx(const It<const E, C> &i, E *) { return i.pos; }

// a constant range seen through pointers or through the weakest iterators
template<int C, class E, class F> void over(int var, Buf<E> &b, F f)
{
   const E *p = b.begin();
   if (!var) f(p, p + b.n);
   else { Rng r = { b.n, 0, false }; f(It<const E, C>(p, &r, 0), It<const E, C>(p, &r, b.n)); }
}
template<int C, class E, class F> void overm(int var, Buf<E> &b, F f)
{
   E *p = b.begin();
   if (!var) f(p, p + b.n);
   else { Rng r = { b.n, 0, false }; f(It<E, C>(p, &r, 0), It<E, C>(p, &r, b.n)); }
}

// ---------------------------------------------------------------- predicates
struct P1
{
   unsigned mask; int *calls;
   template<class E> int operator()(const E &e) const { ++*calls; int k = Cell<E>::key(e); KTuse(e); return k > 0 && (k & 1) && (mask >> k / 2 & 1) ? 2 : 0; }
   static void KTuse(const KT &e) { KT::use(&e, "predicate on"); }
   template<class E> static void KTuse(const E &) {}
};
// relations: 0..9 named; 100+t: table t over two values
static bool rel(int r, int x, int y)
{
   if (r >= 100) return x > 0 && y > 0 && (r - 100) >> ((x / 2 & 1) * 2 + (y / 2 & 1)) & 1;
   switch (r)
   {
   case 0: return x == y;
   case 1: return x < y;
   case 2: return x > y;
   case 3: return true;
   case 4: return false;
   case 5: return x + 2 == y;
   case 6: return x != y;
   case 7: return x / 4 == y / 4;
   case 8: return x == y + 1 || x == y + 2;
   case 9: return x / 4 < y / 4;
   }
   return false;
}
struct P2
{
   int r; int *calls;
   template<class E, class G> int operator()(const E &a, const G &b) const { ++*calls; P1::KTuse(a); P1::KTuse(b); return rel(r, Cell<E>::key(a), Cell<G>::key(b)) ? 2 : 0; }
};

// a very long range that exists only as positions
struct Virt
{
   typedef long long value_type; typedef const long long *pointer; typedef long long reference; typedef ptrdiff_t difference_type;
   long long p; int sh;   // value p >> sh
   long long operator*() const { return p >> sh; }
   Virt &operator++() { ++p; return *this; }
   Virt &operator--() { --p; return *this; }
   Virt operator++(int) { Virt t = *this; ++p; return t; }
   Virt &operator+=(ptrdiff_t n) { p += n; return *this; }
   Virt operator+(ptrdiff_t n) const { Virt t = *this; t.p += n; return t; }
   Virt operator-(ptrdiff_t n) const { Virt t = *this; t.p -= n; return t; }
   ptrdiff_t operator-(const Virt &o) const { return p - o.p; }
   bool operator==(const Virt &o) const { return p == o.p; }
   bool operator!=(const Virt &o) const { return p != o.p; }
   bool operator<(const Virt &o) const { return p < o.p; }
};
struct LessLL { int *calls; bool operator()(long long a, long long b) const { ++*calls; return a < b; } };

struct Acc // a value to which elements are appended
{
   unsigned long long h;
   explicit Acc(unsigned long long x = 7): h(x) {}
};
template<class E> Acc operator+(const Acc &a, const E &e) { return Acc(a.h * 131 + Cell<E>::key(e) + 3); }

template<class E> struct AlgoSys
{
   const Cfg &cfg;
   int nobj, L[2], Lmin[2], sorted;
   std::vector<int> m[2];
   int step;
   int calls;
   int opc;

   static const char *opname(int c) { return c < NOPS ? names[c] : "?"; }
   AlgoSys(const Cfg &c, const Hist *): cfg(c), step(0), calls(0)
   {
      nobj = cfg.num("nobj", 1); L[0] = cfg.num("len", 4); L[1] = cfg.num("len2", L[0]); alpha = cfg.num("alpha", 2);
      sorted = cfg.num("sorted", 0); Lmin[0] = cfg.num("lmin", 0); Lmin[1] = cfg.num("lmin2", Lmin[0]);
   }
   void destroy() {}
   void canon(Canon &c)
   {
      c.value(step > 0);
      for (int k = 0; k < nobj; ++k) { c.value(0xA0000 + m[k].size()); for (size_t i = 0; i < m[k].size(); ++i) c.value(m[k][i]); }
   }
   static std::vector<int> content(int len, int code)
   {
      std::vector<int> r;
      for (int i = 0; i < len; ++i) { r.push_back(code % alpha * 2 + 1); code /= alpha; }
      return r;
   }
   static std::vector<int> spike(int len, int code) // all alike but for one element, or two different runs
   {
      std::vector<int> r;
      for (int i = 0; i < len; ++i) r.push_back((code & 1 ? i >= code / 2 : i == code / 2 - 1) ? 3 : 1);
      return r;
   }
   std::vector<int> initial(int len, int code) const { return sorted == 3 ? spike(len, code) : sorted == 2 ? steps(len, code) : content(len, code); }
   static std::vector<int> steps(int len, int code) // sorted, long: runs of the given length
   {
      std::vector<int> r;
      for (int i = 0; i < len; ++i) r.push_back(code ? std::min(i / code, alpha - 1) * 2 + 1 : i * 2 + 1);
      return r;
   }
   static bool is_sorted_m(const std::vector<int> &a, int r)
   {
      for (size_t i = 1; i < a.size(); ++i) if (rel(r, a[i], a[i - 1])) return false;
      return true;
   }
   std::vector<int> rels() const
   {
      std::vector<int> r;
      if (alpha == 2) for (int t = 0; t < 16; ++t) r.push_back(100 + t);
      else for (int t = 0; t < 9; ++t) r.push_back(t);
      return r;
   }
   void ops(std::vector<Op> &r)
   {
      if (!step)
      {
         if (cfg.has("grp", "virt")) { virt_ops(r); return; }
         std::vector<std::pair<int, int> > c[2];
         for (int k = 0; k < nobj; ++k)
         {
            int p = 1;
            for (int len = 0; len <= L[k]; ++len, p *= sorted == 3 ? 1 : alpha)
            {
               if (sorted == 3) { if (len >= Lmin[k]) for (int code = 0; code <= 2 * len + 1; ++code) if (code < 2 || thin_pos(code / 2 - 1, len)) c[k].push_back(std::make_pair(len, code)); }
               else if (sorted == 2) { for (int run = 1; run <= len; ++run) if (run == 1 || run == len || (run & (run - 1)) == 0 || run == 3) c[k].push_back(std::make_pair(len, run)); if (!len) c[k].push_back(std::make_pair(0, 1)); }
               else for (int code = 0; code < p; ++code)
                  if (!sorted || is_sorted_m(content(len, code), 1)) c[k].push_back(std::make_pair(len, code));
            }
         }
         if (nobj < 2) c[1].push_back(std::make_pair(0, 0));
         for (size_t i = 0; i < c[0].size(); ++i)
            for (size_t j = 0; j < c[1].size(); ++j)
               r.push_back(Op(INIT, c[0][i].first, c[0][i].second & 255, c[0][i].second >> 8, c[1][j].first, c[1][j].second & 255, c[1][j].second >> 8));
         return;
      }
      const int n = m[0].size(), n2 = m[1].size(), hi = sorted == 2 ? (m[0].empty() ? 1 : m[0].back() + 1) : 2 * alpha;
      std::vector<int> R = rels();
      const unsigned masks = 1u << alpha;
      for (int v = 0; v < 4; ++v) // bit 0: checked minimal iterators for the first range, bit 1: for the second range or destination
      {
         const bool same = v == 0 || v == 3;
         if (cfg.has("grp", "find") && same)
         {
            for (int l = 0; l <= hi; ++l) { r.push_back(Op(FIND, v, l)); r.push_back(Op(COUNT, v, l)); }
            for (unsigned k = 0; k < masks; ++k) for (int c = FIND_IF; c <= NONE_OF; ++c) if (c != COUNT) r.push_back(Op(c, v, k));
            r.push_back(Op(ADJACENT_FIND, v));
            for (size_t i = 0; i < R.size(); ++i) r.push_back(Op(ADJACENT_FIND_P, v, R[i]));
            for (int sz = 0; sz < 4; ++sz)
               for (int c = 0; c <= n + 4; ++c) if (thin_pos(c, n))
               {
                  for (int l = 0; l <= hi; ++l) r.push_back(Op(SEARCH_N, v, l, c, sz));
                  for (size_t i = 0; i < R.size(); ++i) for (int l = 1; l < hi; l += 2) r.push_back(Op(SEARCH_N_P, v, l, c, sz, R[i]));
               }
            r.push_back(Op(FOR_EACH, v));
            if (!std::is_same<E, KT>::value) for (int l = 0; l <= hi; ++l) for (int w = 0; w < 2; ++w) for (int c = 0; c < 3; ++c) r.push_back(Op(READ_WIDE, v, l, w, c));
         }
         if (cfg.has("grp", "search")) { r.push_back(Op(SEARCH, v)); r.push_back(Op(SEARCH_P, v, R[1])); r.push_back(Op(SEARCH_P, v, R[2])); r.push_back(Op(SEARCH_P, v, R[alpha == 2 ? 9 : 3])); }
         if (cfg.has("grp", "match"))
         {
            r.push_back(Op(SEARCH, v)); r.push_back(Op(EQUAL4, v)); r.push_back(Op(MISMATCH4, v));
            if (n2 >= n) { r.push_back(Op(EQUAL3, v)); r.push_back(Op(MISMATCH3, v)); }
            for (size_t i = 0; i < R.size(); ++i)
            {
               r.push_back(Op(SEARCH_P, v, R[i])); r.push_back(Op(EQUAL4_P, v, R[i])); r.push_back(Op(MISMATCH4_P, v, R[i]));
               if (n2 >= n) { r.push_back(Op(EQUAL3_P, v, R[i])); r.push_back(Op(MISMATCH3_P, v, R[i])); }
            }
         }
         if (cfg.has("grp", "mod") && !same)
            for (unsigned k = 0; k < masks; ++k) { r.push_back(Op(COPY_IF, v, k)); r.push_back(Op(REMOVE_COPY_IF, v, k)); r.push_back(Op(REPLACE_COPY_IF, v, k, 1)); if (!k) for (int c = 0; c < 4; ++c) r.push_back(Op(c == 0 ? COPY : c == 1 ? COPY_BACKWARD : c == 2 ? REVERSE_COPY : TRANSFORM1, v, 1)); }
         if (cfg.has("grp", "mod") && same)
         {
            for (int l = 1; l < hi; l += 2)
            {
               r.push_back(Op(FILL, v, l));
               for (int sz = 0; sz < 4; ++sz) for (int c = 0; c <= n + 2; ++c) if (thin_pos(c, n)) r.push_back(Op(FILL_N, v, l, c, sz));
               r.push_back(Op(REMOVE, v, l)); r.push_back(Op(REMOVE_COPY, v, l));
               for (int w = 1; w < hi; w += 2) { r.push_back(Op(REPLACE, v, l, w)); r.push_back(Op(REPLACE_COPY, v, l, w)); }
               for (unsigned k = 0; k < masks; ++k) { r.push_back(Op(REPLACE_IF, v, k, l)); r.push_back(Op(REPLACE_COPY_IF, v, k, l)); }
               r.push_back(Op(GENERATE, v, l)); 
               for (int sz = 0; sz < 4; ++sz) for (int c = 0; c <= n + 2; ++c) if (thin_pos(c, n)) r.push_back(Op(GENERATE_N, v, l, c, sz));
               r.push_back(Op(FOR_EACH_MUT, v, l));
               r.push_back(Op(TRANSFORM1, v, l)); r.push_back(Op(TRANSFORM_IN, v, l));
            }
            for (unsigned k = 0; k < masks; ++k) { r.push_back(Op(REMOVE_IF, v, k)); r.push_back(Op(REMOVE_COPY_IF, v, k)); r.push_back(Op(COPY_IF, v, k)); }
            for (int c = REVERSE; c <= REVERSE; ++c) r.push_back(Op(c, v));
            for (int i = 0; i < n; ++i) if (thin_pos(i, n)) for (int j = 0; j < n; ++j) if (thin_pos(j, n)) r.push_back(Op(ITER_SWAP, v, i, j));
            r.push_back(Op(COPY, v)); r.push_back(Op(COPY_BACKWARD, v)); r.push_back(Op(REVERSE_COPY, v));
            for (int sz = 0; sz < 4; ++sz) for (int c = 0; c <= n + 2; ++c) if (thin_pos(c, n)) r.push_back(Op(COPY_N, v, 0, c, sz));
            for (int i = 0; i <= n; ++i) if (thin_pos(i, n))
               for (int j = i; j <= n; ++j) if (thin_pos(j, n))
                  for (int k = 0; k <= n; ++k) if (thin_pos(k, n))
                  {
                     if (k + (j - i) <= n && (k < i || k >= j || i == j)) r.push_back(Op(COPY_OVER, v, i, j, k));
                     if (k - (j - i) >= 0 && (k > j || k <= i || i == j)) r.push_back(Op(COPY_BACK_OVER, v, i, j, k));
                     if (k + (j - i) <= n && (k >= j || k + (j - i) <= i)) r.push_back(Op(SWAP_RANGES_IN, v, i, j, k));
                  }
            for (int t = 0; t < 5; ++t) r.push_back(Op(IOTA, v, t));
            for (int t = 0; t < 4; ++t) { r.push_back(Op(ACCUMULATE, v, t)); }
            r.push_back(Op(ACCUMULATE_T, v));
            if (!std::is_same<E, KT>::value) for (int l = 0; l <= hi; ++l) for (int w = 0; w < 2; ++w) for (int c = 0; c < 3; ++c) r.push_back(Op(WRITE_WIDE, v, l, w, c));
         }
         if (cfg.has("grp", "mod2") && n2 >= n) { r.push_back(Op(SWAP_RANGES, v)); r.push_back(Op(TRANSFORM2, v)); r.push_back(Op(TRANSFORM2_IN, v, 0)); r.push_back(Op(TRANSFORM2_IN, v, 1)); }
         if (cfg.has("grp", "bound") && same)
         {
            if (!std::is_same<E, KT>::value && is_sorted_m(m[0], 1)) for (int l = 0; l <= hi; ++l) for (int w = 0; w < 2; ++w) for (int c = 0; c < 4; ++c) r.push_back(Op(ORDER_WIDE, v, l, w, c));
            for (int l = 0; l <= hi; ++l)
            {
               if (is_sorted_m(m[0], 1)) for (int c = LOWER; c <= BSEARCH; c += 2) r.push_back(Op(c, v, l));
               static const int cr[] = { 1, 2, 9 };
               for (int i = 0; i < 3; ++i)
                  if (is_sorted_m(m[0], cr[i])) for (int c = LOWER_C; c <= BSEARCH_C; c += 2) r.push_back(Op(c, v, l, cr[i]));
            }
         }
         if (cfg.has("grp", "sort") && same) { r.push_back(Op(IS_SORTED, v)); r.push_back(Op(IS_SORTED_UNTIL, v)); r.push_back(Op(MIN_EL, v)); r.push_back(Op(MAX_EL, v)); r.push_back(Op(MINMAX_EL, v)); }
         if (cfg.has("grp", "merge") && is_sorted_m(m[0], 1) && is_sorted_m(m[1], 1)) r.push_back(Op(MERGE, v));
      }
      if (cfg.has("grp", "minmax"))
         for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
            {
               r.push_back(Op(MIN, 0, i, j)); r.push_back(Op(MAX, 0, i, j)); r.push_back(Op(MINMAX, 0, i, j));
               static const int cr[] = { 1, 2, 9, 4 };
               for (int k = 0; k < 4; ++k) { r.push_back(Op(MIN_C, 0, i, j, cr[k])); r.push_back(Op(MAX_C, 0, i, j, cr[k])); r.push_back(Op(MINMAX_C, 0, i, j, cr[k])); }
            }
   }
   // length 2^a + b, value v: index 2^c + d, run length 2^e
   void virt_ops(std::vector<Op> &r)
   {
      static const int lens[] = { 0, 1, 2, 8, 15, 16, 30, 31, 32, 33, 40, 62 };
      for (int a = 0; a < 12; ++a)
         for (int b = -1; b <= 1; ++b)
            for (int c = 0; c < 12; ++c)
               for (int d = -1; d <= 1; ++d)
                  for (int e = 0; e < 12; ++e)
                     for (int k = 0; k < 8; ++k) r.push_back(Op(VIRT, lens[a], b + 1, lens[c], d + 1, lens[e], k));
   }
   std::string str(const Op &p)
   {
      if (p.c == INIT)
      {
         std::string r = "INIT(";
         for (int k = 0; k < 2; ++k)
         {
            std::vector<int> c = initial(p.a[3 * k], p.a[3 * k + 1] | p.a[3 * k + 2] << 8);
            r += k ? ",[" : "[";
            for (size_t i = 0; i < c.size(); ++i) r += strf(i ? " %d" : "%d", c[i]);
            r += "]";
         }
         return r + ")";
      }
      if (p.c == VIRT) return strf("VIRT(length 2^%d%+d, value at 2^%d%+d, runs of 2^%d, %s)", p.a[0], p.a[1] - 1, p.a[2], p.a[3] - 1, p.a[4], names[LOWER + p.a[5]]);
      return strf("%s(%s,%d,%d,%d,%d)", names[p.c], p.a[0] == 3 ? "minimal iterators" : p.a[0] == 2 ? "pointers and minimal iterators" : p.a[0] ? "minimal iterators and pointers" : "pointers", p.a[1], p.a[2], p.a[3], p.a[4]);
   }
   // counts: 0 -> -1, 1 -> 0, .. n+3 -> n+2
   static long count_of(int c) { return c - 1; }

   void load(Buf<E> &b, const std::vector<int> &a, int tag, Exp &x)
   {
      x.clear();
      for (size_t i = 0; i < a.size(); ++i) { b.put(i, a[i], tag + i); KTag t = { a[i], tag + (int)i }; x.push_back(t); }
   }
   void fresh(Buf<E> &b, Exp &x)
   {
      x.clear();
      for (int i = 0; i < b.n; ++i) { b.put(i, FRESH + i % 20, 200 + i); KTag t = { FRESH + i % 20, 200 + i }; x.push_back(t); }
   }
   void eqi(const Op &p, const char *what, long got, long want)
   {
      if (got != want) fail(VALUE, "%s: %s is %ld, expected %ld", names[p.c], what, got, want);
   }
   void most(const Op &p, long got, long lim) { if (got > lim) fail(COST, "%s: %ld comparisons, at most %ld are allowed", names[p.c], got, lim); }
   static int lg(long long n) { int r = 0; while (n > 1) { ++r; n >>= 1; } return r; }

   template<class F> void sized(int sz, long c, F f)
   {
      switch (sz)
      {
      case 0: f((int)c); break;
      case 1: if (c < 0) f((long long)LLONG_MIN); else f((long long)c); break;
      case 2: f((unsigned char)(c < 0 ? 0 : c)); break;
      case 3: f((size_t)(c < 0 ? 0 : c)); break;
      }
   }
   static long size_of(int sz, long c) { return sz >= 2 && c < 0 ? 0 : sz == 2 ? (unsigned char)c : c; }

   void apply(const Op &p)
   {
      ++step;
      opc = p.c;
      calls = 0;
      ro_phase = false;
      if (p.c == INIT)
      {
         for (int k = 0; k < 2; ++k) { const int code = p.a[3 * k + 1] | p.a[3 * k + 2] << 8; m[k] = initial(p.a[3 * k], code); }
         return;
      }
      if (p.c == VIRT) { virt(p); return; }
      const std::vector<int> a = m[0], b = m[1];
      const int n = a.size(), n2 = b.size();
      Buf<E> A(n), B(n2);
      Exp xa, xb;
      load(A, a, 1, xa); load(B, b, 100, xb);
      ro_phase = true;

      g().cmps = g().copies = g().assigns = 0;
      if (p.c <= MISMATCH4_P) read(p, A, B, a, b);
      else if (p.c <= ACCUMULATE_T) write(p, A, B, a, b, xa, xb);
      else order(p, A, B, a, b);
      ro_phase = false;
      if (g().classes & WORK) work(p, a, b);
      if (g().failed) return;
      A.verify("first range", xa, tail_ok < 0 ? -1 : tail_ok); B.verify("second range", xb);
      tail_ok = -1;
      if (p.c > MISMATCH4_P && p.c <= ACCUMULATE_T)
      {
         m[0].clear(); for (size_t i = 0; i < xa.size(); ++i) m[0].push_back(xa[i].k);
         m[1].clear(); for (size_t i = 0; i < xb.size(); ++i) m[1].push_back(xb[i].k);
      }
   }
   // predicate calls and comparisons, and elements written (three operations to exchange two), beside a constant number
   static const long SPARE = 2;
   void work(const Op &p, const std::vector<int> &a, const std::vector<int> &b)
   {
      const long n = a.size(), n2 = b.size(), x = p.a[1], total = calls + g().cmps, writes = g().copies + g().assigns;
      long lim = 0, wr = 0, hit = n, miss = n, both = std::min(n, n2), dup = n - 1, down = n - 1, kept = 0;
      const bool byval = p.c == FIND || p.c == REMOVE || p.c == REMOVE_COPY || p.c == REPLACE || p.c == REPLACE_COPY;
      for (long i = n - 1; i >= 0; --i)
      {
         const bool in = byval ? a[i] == x : x >> a[i] / 2 & 1;
         if (in) hit = i + 1; else miss = i + 1;
         kept += in;
         if (i + 1 < n && rel(p.c == ADJACENT_FIND ? 0 : x, a[i], a[i + 1])) dup = i + 1;
         if (i + 1 < n && a[i + 1] < a[i]) down = i + 1;
      }
      const bool withp = p.c == EQUAL3_P || p.c == EQUAL4_P || p.c == MISMATCH3_P || p.c == MISMATCH4_P;
      for (long i = both - 1; i >= 0; --i) if (!rel(withp ? x : 0, a[i], b[i])) both = i + 1;
      const long cnt = p.c == COPY_N || p.c == FILL_N || p.c == GENERATE_N ? std::max(size_of(p.a[3], std::min<long>(count_of(p.a[2]), n)), 0L) : 0;
      switch (p.c)
      {
      case FIND: case FIND_IF: case ANY_OF: case NONE_OF: lim = hit; break;
      case FIND_IF_NOT: case ALL_OF: lim = miss; break;
      case COUNT: case COUNT_IF: case SEARCH_N: case SEARCH_N_P: lim = n; break;
      case ADJACENT_FIND: case ADJACENT_FIND_P: lim = dup; break;
      case SEARCH: case SEARCH_P: lim = n * n2; break;
      case EQUAL3: case EQUAL3_P: case EQUAL4: case EQUAL4_P: case MISMATCH3: case MISMATCH3_P: case MISMATCH4: case MISMATCH4_P: lim = both; break;
      case FILL: case COPY: case COPY_BACKWARD: case REVERSE_COPY: wr = n; break;
      case COPY_N: case FILL_N: wr = cnt; break;
      case GENERATE: case TRANSFORM1: case TRANSFORM2: case TRANSFORM_IN: case TRANSFORM2_IN: lim = wr = n; break;
      case GENERATE_N: lim = wr = cnt; break;
      case REPLACE: case REPLACE_IF: lim = n; wr = kept; break;
      case REPLACE_COPY: case REPLACE_COPY_IF: lim = n; wr = 2 * n; break;
      case REMOVE: case REMOVE_IF: lim = n; wr = std::max(0L, n - kept - (hit - 1)); break;
      case COPY_IF: lim = n; wr = kept; break;
      case REMOVE_COPY: case REMOVE_COPY_IF: lim = n; wr = n - kept; break;
      case REVERSE: wr = 3 * (n / 2); break;
      case ITER_SWAP: wr = 3; break;
      case SWAP_RANGES: wr = 3 * n; break;
      case COPY_OVER: case COPY_BACK_OVER: wr = p.a[2] - p.a[1]; break;
      case SWAP_RANGES_IN: wr = 3 * (p.a[2] - p.a[1]); break;
      case IS_SORTED: case IS_SORTED_UNTIL: lim = down; break;
      case MERGE: lim = n + n2 - 1; wr = n + n2; break;
      case MIN: case MIN_C: case MAX: case MAX_C: case MINMAX: case MINMAX_C: lim = 1; break;
      case MIN_EL: case MAX_EL: lim = n - 1; break;
      case MINMAX_EL: lim = 2 * (n - 1); break;
      default: return;
      }
      lim = std::max(lim, 0L) + SPARE; wr += SPARE;
      if (total > lim) fail(WORK, "%s: %ld comparisons or calls, at most %ld are needed", names[p.c], total, lim);
      if (writes > wr) fail(WORK, "%s: %ld elements copied or assigned, at most %ld are needed", names[p.c], writes, wr);
   }
   int tail_ok = -1; // only so many elements of A are specified

   // ------------------------------------------------------------ C22
   void read(const Op &p, Buf<E> &A, Buf<E> &B, const std::vector<int> &a, const std::vector<int> &b)
   {
      const int n = a.size(), n2 = b.size(), v = p.a[0], x = p.a[1];
      E *const base = A.begin(), *const base2 = B.begin();
      P1 p1 = { (unsigned)x, &calls };
      const E val(Cell<E>::mk(x, 300));
      std::vector<bool> in(n);
      int cnt = 0, first_in = n, first_out = n;
      for (int i = n - 1; i >= 0; --i)
      {
         in[i] = p.c == FIND || p.c == COUNT ? a[i] == x : x >> a[i] / 2 & 1;
         if (in[i]) { ++cnt; first_in = i; } else first_out = i;
      }
      switch (p.c)
      {
      case FIND: over<IN>(v & 1, A, [&](auto f, auto l) { eqi(p, "the position", idx(ttl::find(f, l, val), base), first_in); }); break;
      case FIND_IF: over<IN>(v & 1, A, [&](auto f, auto l) { eqi(p, "the position", idx(ttl::find_if(f, l, p1), base), first_in); }); break;
      case FIND_IF_NOT: over<IN>(v & 1, A, [&](auto f, auto l) { eqi(p, "the position", idx(ttl::find_if_not(f, l, p1), base), first_out); }); break;
      case COUNT: over<IN>(v & 1, A, [&](auto f, auto l) { eqi(p, "the number", ttl::count(f, l, val), cnt); }); break;
      case COUNT_IF: over<IN>(v & 1, A, [&](auto f, auto l) { eqi(p, "the number", ttl::count_if(f, l, p1), cnt); }); break;
      case ALL_OF: over<IN>(v & 1, A, [&](auto f, auto l) { eqi(p, "the result", ttl::all_of(f, l, p1), cnt == n); }); break;
      case ANY_OF: over<IN>(v & 1, A, [&](auto f, auto l) { eqi(p, "the result", ttl::any_of(f, l, p1), cnt > 0); }); break;
      case NONE_OF: over<IN>(v & 1, A, [&](auto f, auto l) { eqi(p, "the result", ttl::none_of(f, l, p1), cnt == 0); }); break;
      case ADJACENT_FIND: case ADJACENT_FIND_P:
      {
         const int r = p.c == ADJACENT_FIND ? 0 : x;
         int want = n;
         for (int i = n - 2; i >= 0; --i) if (rel(r, a[i], a[i + 1])) want = i;
         P2 p2 = { r, &calls };
         over<FWD>(v & 1, A, [&](auto f, auto l) { eqi(p, "the position", idx(p.c == ADJACENT_FIND ? ttl::adjacent_find(f, l) : ttl::adjacent_find(f, l, p2), base), want); });
         break;
      }
      case SEARCH_N: case SEARCH_N_P:
      {
         const int r = p.c == SEARCH_N ? 0 : p.a[4];
         long c = size_of(p.a[3], count_of(p.a[2]));
         const bool most_ = p.a[2] == n + 4;
         if (most_) c = p.a[3] == 2 ? 255 : LONG_MAX;
         int want = n;
         for (int i = n; i >= 0; --i)
         {
            int k = 0;
            while (i + k < n && k < c && rel(r, a[i + k], x)) ++k;
            if (k >= c) want = i;
         }
         P2 p2 = { r, &calls };
         over<FWD>(v & 1, A, [&](auto f, auto l) {
            auto go = [&](auto count) { eqi(p, "the position", idx(p.c == SEARCH_N ? ttl::search_n(f, l, count, val) : ttl::search_n(f, l, count, val, p2), base), want); };
            if (most_)
            {
               if (p.a[3] == 0) go(INT_MAX); else if (p.a[3] == 1) go(LLONG_MAX); else if (p.a[3] == 2) go((unsigned char)255); else go((size_t)-1);
            }
            else sized(p.a[3], count_of(p.a[2]), go);
         });
         break;
      }
      case READ_WIDE:
         if constexpr (!std::is_same<E, KT>::value)
         {
            const long long wide = widened(x, p.a[2]);
            over<FWD>(v & 1, A, [&](auto f, auto l) {
               if (p.a[3] == 0) eqi(p, "find: the position", idx(ttl::find(f, l, wide), base), n);
               else if (p.a[3] == 1) eqi(p, "count: the number", ttl::count(f, l, wide), 0);
               else eqi(p, "search_n: the position", idx(ttl::search_n(f, l, 1, wide), base), n);
            });
         }
         break;
      case FOR_EACH:
      {
         struct F { std::vector<int> *seen; int state; void operator()(const E &e) { Harness h; seen->push_back(Cell<E>::key(e)); ++state; } };
         std::vector<int> seen;
         F f0 = { &seen, 1000 };
         over<IN>(v & 1, A, [&](auto f, auto l) { eqi(p, "the state of the returned function", ttl::for_each(f, l, f0).state, 1000 + n); });
         if (seen != a) fail(VALUE, "for_each: the function was not applied to the elements in order");
         break;
      }
      case SEARCH: case SEARCH_P:
      {
         const int r = p.c == SEARCH ? 0 : x;
         int want = n;
         for (int i = n; i >= 0; --i)
         {
            int k = 0;
            while (k < n2 && i + k < n && rel(r, a[i + k], b[k])) ++k;
            if (k == n2) want = i;
         }
         P2 p2 = { r, &calls };
         over<FWD>(v & 1, A, [&](auto f, auto l) { over<FWD>(v >> 1, B, [&](auto sf, auto sl) { eqi(p, "the position", idx(p.c == SEARCH ? ttl::search(f, l, sf, sl) : ttl::search(f, l, sf, sl, p2), base), want); }); });
         break;
      }
      default:
      {
         const bool withp = p.c == EQUAL3_P || p.c == EQUAL4_P || p.c == MISMATCH3_P || p.c == MISMATCH4_P, four = p.c == EQUAL4 || p.c == EQUAL4_P || p.c == MISMATCH4 || p.c == MISMATCH4_P;
         const int r = withp ? x : 0;
         int k = 0;
         while (k < n && k < n2 && rel(r, a[k], b[k])) ++k;
         P2 p2 = { r, &calls };
         const bool eq = k == n && (!four || k == n2);
         over<IN>(v & 1, A, [&](auto f, auto l) { over<IN>(v >> 1, B, [&](auto sf, auto sl) {
            switch (p.c)
            {
            case EQUAL3: eqi(p, "the result", ttl::equal(f, l, sf), eq); break;
            case EQUAL3_P: eqi(p, "the result", ttl::equal(f, l, sf, p2), eq); break;
            case EQUAL4: eqi(p, "the result", ttl::equal(f, l, sf, sl), eq); break;
            case EQUAL4_P: eqi(p, "the result", ttl::equal(f, l, sf, sl, p2), eq); break;
            default:
               auto go = [&](auto q) { eqi(p, "the first position", idx(q.first, base), k); eqi(p, "the second position", idx(q.second, base2), k); };
               switch (p.c)
               {
               case MISMATCH3: go(ttl::mismatch(f, l, sf)); break;
               case MISMATCH3_P: go(ttl::mismatch(f, l, sf, p2)); break;
               case MISMATCH4: go(ttl::mismatch(f, l, sf, sl)); break;
               case MISMATCH4_P: go(ttl::mismatch(f, l, sf, sl, p2)); break;
               }
            }
         }); });
      }
      }
   }

   // ------------------------------------------------------------ C23
   struct Gen { int *calls; int start; E operator()() { int i = (*calls)++; return Cell<E>::mk((start / 2 + i) % alpha * 2 + 1, 400 + i); } };
   struct Map1 { int *calls; int add; E operator()(const E &e) const { ++*calls; P1::KTuse(e); return Cell<E>::mk((Cell<E>::key(e) / 2 + add / 2 + 1) % alpha * 2 + 1, 500 + Cell<E>::tag(e)); } };
   struct Map2 { int *calls; E operator()(const E &e, const E &f) const { ++*calls; P1::KTuse(e); P1::KTuse(f); return Cell<E>::mk((Cell<E>::key(e) / 2 * 2 + Cell<E>::key(f) / 2) % alpha * 2 + 1, 600 + 3 * Cell<E>::tag(e) + 100 * Cell<E>::tag(f)); } };
   struct Mut { int state, add; void operator()(E &e) { ++state; e = Cell<E>::mk((Cell<E>::key(e) / 2 + add / 2 + 1) % alpha * 2 + 1, 700 + Cell<E>::tag(e)); } };
   static KTag kt(int k, int t) { KTag r = { k, t }; return r; }
   static KTag map1(KTag e, int add) { return kt((e.k / 2 + add / 2 + 1) % alpha * 2 + 1, 500 + e.t); }
   static KTag map2(KTag e, KTag f) { return kt((e.k / 2 * 2 + f.k / 2) % alpha * 2 + 1, 600 + 3 * e.t + 100 * f.t); }

   // an algorithm that writes to a destination: run it and compare
   template<class F> void dest(const Op &p, const Exp &out, int extra, F f)
   {
      Buf<E> *D;
      Exp xd;
      { Harness h; ro_phase = false; D = new Buf<E>(out.size() + extra); fresh(*D, xd); for (size_t i = 0; i < out.size(); ++i) xd[i] = out[i]; ro_phase = true; }
      f(*D);
      ro_phase = false;
      { Harness h; D->verify("destination", xd); delete D; }
      ro_phase = true;
   }
   template<class F> void out_it(int v, Buf<E> &D, F f)
   {
      if (!v) f(D.begin());
      else { Rng r = { D.n, 0, false }; f(It<E, OUT>(D.begin(), &r, 0)); }
   }

   void write(const Op &p, Buf<E> &A, Buf<E> &B, const std::vector<int> &a, const std::vector<int> &b, Exp &xa, Exp &xb)
   {
      const int n = a.size(), n2 = b.size(), v = p.a[0], x = p.a[1], y = p.a[2];
      E *const base = A.begin(), *const base2 = B.begin();
      const E val(Cell<E>::mk(x, 300)), val2(Cell<E>::mk(y, 301));
      P1 p1 = { (unsigned)x, &calls };
      Exp out;
      auto in = [&](int i) { return x >> a[i] / 2 & 1; };
      switch (p.c)
      {
      case FILL: overm<FWD>(v & 1, A, [&](auto f, auto l) { ttl::fill(f, l, val); }); for (int i = 0; i < n; ++i) xa[i] = kt(x, 300); break;
      case FILL_N: case GENERATE_N:
      {
         // count beyond the range: not allowed by the callers
         long c = std::min<long>(count_of(p.a[2]), n);
         const long eff = std::max<long>(size_of(p.a[3], c), 0);
         Gen gen = { &calls, x };
         sized(p.a[3], c, [&](auto cnt) {
            out_it(v >> 1, A, [&](auto o) { eqi(p, "the returned position", idx(p.c == FILL_N ? ttl::fill_n(o, cnt, val) : ttl::generate_n(o, cnt, gen), base), eff); });
         });
         for (int i = 0; i < eff; ++i) xa[i] = p.c == FILL_N ? kt(x, 300) : kt((x / 2 + i) % alpha * 2 + 1, 400 + i);
         if (p.c == GENERATE_N) eqi(p, "the number of calls", calls, eff);
         break;
      }
      case GENERATE:
      {
         Gen gen = { &calls, x };
         overm<FWD>(v & 1, A, [&](auto f, auto l) { ttl::generate(f, l, gen); });
         for (int i = 0; i < n; ++i) xa[i] = kt((x / 2 + i) % alpha * 2 + 1, 400 + i);
         eqi(p, "the number of calls", calls, n);
         break;
      }
      case REPLACE: overm<FWD>(v & 1, A, [&](auto f, auto l) { ttl::replace(f, l, val, val2); }); for (int i = 0; i < n; ++i) if (a[i] == x) xa[i] = kt(y, 301); break;
      case REPLACE_IF: overm<FWD>(v & 1, A, [&](auto f, auto l) { ttl::replace_if(f, l, p1, val2); }); for (int i = 0; i < n; ++i) if (in(i)) xa[i] = kt(y, 301); eqi(p, "the number of calls", calls, n); break;
      case REMOVE: case REMOVE_IF:
      {
         Exp keep;
         for (int i = 0; i < n; ++i) if (p.c == REMOVE ? a[i] != x : !in(i)) keep.push_back(xa[i]);
         overm<FWD>(v & 1, A, [&](auto f, auto l) { eqi(p, "the returned position", idx(p.c == REMOVE ? ttl::remove(f, l, val) : ttl::remove_if(f, l, p1), base), keep.size()); });
         if (p.c == REMOVE_IF) eqi(p, "the number of calls", calls, n);
         xa = keep;
         tail_ok = keep.size();
         break;
      }
      case REVERSE: overm<BID>(v & 1, A, [&](auto f, auto l) { ttl::reverse(f, l); }); std::reverse(xa.begin(), xa.end()); break;
      case ITER_SWAP:
         overm<FWD>(v & 1, A, [&](auto f, auto l) { auto s = f; for (int i = 0; i < x; ++i) ++f; for (int i = 0; i < y; ++i) ++s; ttl::iter_swap(f, s); });
         std::swap(xa[x], xa[y]);
         break;
      case FOR_EACH_MUT:
      {
         Mut mut = { 1000, x };
         overm<FWD>(v & 1, A, [&](auto f, auto l) { eqi(p, "the state of the returned function", ttl::for_each(f, l, mut).state, 1000 + n); });
         for (int i = 0; i < n; ++i) xa[i] = kt((a[i] / 2 + x / 2 + 1) % alpha * 2 + 1, 700 + xa[i].t);
         break;
      }
      case IOTA: iota(p, A, xa); break;
      case TRANSFORM_IN:
      {
         Map1 f1 = { &calls, x };
         overm<FWD>(v & 1, A, [&](auto f, auto l) { eqi(p, "the returned position", idx(ttl::transform(f, l, f, f1), base), n); });
         for (int i = 0; i < n; ++i) xa[i] = map1(xa[i], x);
         eqi(p, "the number of calls", calls, n);
         break;
      }
      case COPY: out = xa; dest(p, out, 1, [&](Buf<E> &D) { over<IN>(v & 1, A, [&](auto f, auto l) { out_it(v >> 1, D, [&](auto o) { eqi(p, "the returned position", idx(ttl::copy(f, l, o), D.begin()), n); }); }); }); break;
      case COPY_IF: case REMOVE_COPY: case REMOVE_COPY_IF:
         for (int i = 0; i < n; ++i) if (p.c == COPY_IF ? in(i) : p.c == REMOVE_COPY ? a[i] != x : !in(i)) out.push_back(xa[i]);
         dest(p, out, 1, [&](Buf<E> &D) { over<IN>(v & 1, A, [&](auto f, auto l) { out_it(v >> 1, D, [&](auto o) {
            eqi(p, "the returned position", idx(p.c == COPY_IF ? ttl::copy_if(f, l, o, p1) : p.c == REMOVE_COPY ? ttl::remove_copy(f, l, o, val) : ttl::remove_copy_if(f, l, o, p1), D.begin()), out.size()); }); }); });
         if (p.c != REMOVE_COPY) eqi(p, "the number of calls", calls, n);
         break;
      case REPLACE_COPY: case REPLACE_COPY_IF:
         for (int i = 0; i < n; ++i) out.push_back((p.c == REPLACE_COPY ? a[i] == x : in(i)) ? kt(y, 301) : xa[i]);
         dest(p, out, 1, [&](Buf<E> &D) { over<IN>(v & 1, A, [&](auto f, auto l) { out_it(v >> 1, D, [&](auto o) {
            eqi(p, "the returned position", idx(p.c == REPLACE_COPY ? ttl::replace_copy(f, l, o, val, val2) : ttl::replace_copy_if(f, l, o, p1, val2), D.begin()), n); }); }); });
         if (p.c != REPLACE_COPY) eqi(p, "the number of calls", calls, n);
         break;
      case COPY_N:
      {
         long c = std::min<long>(count_of(p.a[2]), n);
         const long eff = std::max<long>(size_of(p.a[3], c), 0);
         out.assign(xa.begin(), xa.begin() + eff);
         dest(p, out, 1, [&](Buf<E> &D) { over<IN>(v & 1, A, [&](auto f, auto) { out_it(v >> 1, D, [&](auto o) {
            sized(p.a[3], c, [&](auto cnt) { eqi(p, "the returned position", idx(ttl::copy_n(f, cnt, o), D.begin()), eff); }); }); }); });
         break;
      }
      case COPY_BACKWARD:
         // the destination ends at the end of D, one cell before it stays
         { Harness h; ro_phase = false; Buf<E> *D = new Buf<E>(n + 1); Exp xd; fresh(*D, xd); for (int i = 0; i < n; ++i) xd[i + 1] = xa[i]; ro_phase = true;
           { over<BID>(v & 1, A, [&](auto f, auto l) { overm<BID>(v >> 1, *D, [&](auto df, auto dl) { eqi(p, "the returned position", idx(ttl::copy_backward(f, l, dl), D->begin()), 1); }); }); }
           ro_phase = false; D->verify("destination", xd); delete D; }
         break;
      case REVERSE_COPY: out = xa; std::reverse(out.begin(), out.end());
         dest(p, out, 1, [&](Buf<E> &D) { over<BID>(v & 1, A, [&](auto f, auto l) { out_it(v >> 1, D, [&](auto o) { eqi(p, "the returned position", idx(ttl::reverse_copy(f, l, o), D.begin()), n); }); }); });
         break;
      case TRANSFORM1:
      {
         Map1 f1 = { &calls, x };
         for (int i = 0; i < n; ++i) out.push_back(map1(xa[i], x));
         dest(p, out, 1, [&](Buf<E> &D) { over<IN>(v & 1, A, [&](auto f, auto l) { out_it(v >> 1, D, [&](auto o) { eqi(p, "the returned position", idx(ttl::transform(f, l, o, f1), D.begin()), n); }); }); });
         eqi(p, "the number of calls", calls, n);
         break;
      }
      case TRANSFORM2:
      {
         Map2 f2 = { &calls };
         for (int i = 0; i < n; ++i) out.push_back(map2(xa[i], xb[i]));
         dest(p, out, 1, [&](Buf<E> &D) { over<IN>(v & 1, A, [&](auto f, auto l) { over<IN>(v >> 1, B, [&](auto sf, auto) { out_it(v >> 1, D, [&](auto o) { eqi(p, "the returned position", idx(ttl::transform(f, l, sf, o, f2), D.begin()), n); }); }); }); });
         eqi(p, "the number of calls", calls, n);
         break;
      }
      case TRANSFORM2_IN: // into the first or into the second range
      {
         Map2 f2 = { &calls };
         overm<FWD>(v & 1, A, [&](auto f, auto l) { overm<FWD>(v >> 1, B, [&](auto sf, auto) { if (!x) eqi(p, "the returned position", idx(ttl::transform(f, l, sf, f, f2), base), n); else eqi(p, "the returned position", idx(ttl::transform(f, l, sf, sf, f2), base2), n); }); });
         for (int i = 0; i < n; ++i) (x ? xb : xa)[i] = map2(xa[i], xb[i]);
         eqi(p, "the number of calls", calls, n);
         break;
      }
      case SWAP_RANGES:
         overm<FWD>(v & 1, A, [&](auto f, auto l) { overm<FWD>(v >> 1, B, [&](auto sf, auto) { eqi(p, "the returned position", idx(ttl::swap_ranges(f, l, sf), base2), n); }); });
         for (int i = 0; i < n; ++i) std::swap(xa[i], xb[i]);
         break;
      case COPY_OVER: case COPY_BACK_OVER: case SWAP_RANGES_IN:
      {
         const int i = p.a[1], j = p.a[2], k = p.a[3];
         const Exp old = xa;
         for (int q = 0; q < j - i; ++q)
            if (p.c == COPY_OVER) xa[k + q] = old[i + q];
            else if (p.c == COPY_BACK_OVER) xa[k - 1 - q] = old[j - 1 - q];
            else std::swap(xa[k + q], xa[i + q]);
         overm<RND>(v & 1, A, [&](auto f, auto) {
            if (p.c == COPY_OVER) eqi(p, "the returned position", idx(ttl::copy(f + i, f + j, f + k), base), k + j - i);
            else if (p.c == COPY_BACK_OVER) eqi(p, "the returned position", idx(ttl::copy_backward(f + i, f + j, f + k), base), k - (j - i));
            else eqi(p, "the returned position", idx(ttl::swap_ranges(f + i, f + j, f + k), base), k + j - i);
         });
         break;
      }
      case WRITE_WIDE: // nothing is equal to a value the element type cannot hold
         if constexpr (!std::is_same<E, KT>::value)
         {
            const long long wide = widened(x, p.a[2]);
            overm<FWD>(v & 1, A, [&](auto f, auto l) {
               if (p.a[3] == 0) eqi(p, "remove: the position", idx(ttl::remove(f, l, wide), base), n);
               else if (p.a[3] == 1) ttl::replace(f, l, wide, (long long)Cell<E>::mk(1, 0));
            });
            if (p.a[3] == 2) { out = xa; dest(p, out, 1, [&](Buf<E> &D) { over<IN>(v & 1, A, [&](auto f, auto l) { out_it(v >> 1, D, [&](auto o) { eqi(p, "remove_copy: the position", idx(ttl::remove_copy(f, l, o, wide), D.begin()), n); }); }); }); }
         }
         break;
      case ACCUMULATE: case ACCUMULATE_T: accumulate(p, A, a); break;
      }
   }

   template<class I> void iota_as(const Op &p, Buf<E> &A, Exp &xa, I start)
   {
      const int n = xa.size();
      std::vector<E> want;
      I x = start;
      { Harness h; for (int i = 0; i < n; ++i) { want.push_back((E)x); if (i + 1 < n) ++x; } }
      overm<FWD>(p.a[0] & 1, A, [&](auto f, auto l) { ttl::iota(f, l, start); });
      for (int i = 0; i < n; ++i) if (A.begin()[i] != want[i]) { fail(VALUE, "iota: element %d is %lld, expected %lld", i, (long long)A.begin()[i], (long long)want[i]); return; }
      for (int i = 0; i < n; ++i) A.put(i, xa[i].k, xa[i].t); // not part of the alphabet: restored
   }
   void iota(const Op &p, Buf<E> &A, Exp &xa)
   {
      if constexpr (std::is_same<E, KT>::value)
      {
         ro_phase = false;
         KT s(p.a[1] * 2 + 1, 310);
         overm<FWD>(p.a[0] & 1, A, [&](auto f, auto l) { ttl::iota(f, l, s); });
         for (size_t i = 0; i < xa.size(); ++i) if (A.at(i).k != p.a[1] * 2 + 1 + 2 * (int)i || A.at(i).t != 310) { fail(VALUE, "iota: element %zu is %d/%d", i, A.at(i).k, A.at(i).t); return; }
         for (size_t i = 0; i < xa.size(); ++i) A.put(i, xa[i].k, xa[i].t);
      }
      else switch (p.a[1])
      {
      case 0: iota_as<E>(p, A, xa, 0); break;
      case 1: iota_as<E>(p, A, xa, -2); break;
      case 2: iota_as<E>(p, A, xa, (E)(std::numeric_limits<E>::max() - (int)xa.size())); break;
      case 3: iota_as<long long>(p, A, xa, 100); break;      // a wider value
      case 4: iota_as<double>(p, A, xa, 0.5); break;         // a value that is converted at each position
      }
   }
   void accumulate(const Op &p, Buf<E> &A, const std::vector<int> &a)
   {
      const int n = a.size();
      if (p.c == ACCUMULATE_T)
      {
         Acc want(99);
         for (int i = 0; i < n; ++i) want = Acc(want.h * 131 + a[i] + 3);
         over<IN>(p.a[0] & 1, A, [&](auto f, auto l) { if (ttl::accumulate(f, l, Acc(99)).h != want.h) fail(VALUE, "accumulate: wrong result for %d elements", n); });
      }
      else if constexpr (!std::is_same<E, KT>::value)
         over<IN>(p.a[0] & 1, A, [&](auto f, auto l) {
            long long want = 0; double dw = 0.25; unsigned uw = 5;
            for (int i = 0; i < n; ++i) { want += A.begin()[i]; dw += A.begin()[i]; uw += A.begin()[i]; }
            if (p.a[1] == 0) { if (ttl::accumulate(f, l, 0LL) != want) fail(VALUE, "accumulate: wrong sum as long long"); }
            else if (p.a[1] == 1) { if (ttl::accumulate(f, l, 0.25) != dw) fail(VALUE, "accumulate: wrong sum as double"); }
            else if (p.a[1] == 2) { if (ttl::accumulate(f, l, 5u) != uw) fail(VALUE, "accumulate: wrong sum as unsigned"); }
            else if (sizeof(E) == 1) { if (ttl::accumulate(f, l, -1) != want - 1) fail(VALUE, "accumulate: wrong sum as int"); }
         });
   }

   // ------------------------------------------------------------ C24
   void order(const Op &p, Buf<E> &A, Buf<E> &B, const std::vector<int> &a, const std::vector<int> &b)
   {
      const int n = a.size(), v = p.a[0], x = p.a[1];
      E *const base = A.begin();
      const E val(Cell<E>::mk(x, 300));
      const int lim = lg(n) + 2;
      if (p.c >= LOWER && p.c <= BSEARCH_C)
      {
         const bool withc = (p.c - LOWER) & 1;
         const int r = withc ? p.a[2] : 1;
         int lo = 0, hi = 0;
         for (int i = 0; i < n; ++i) { lo += rel(r, a[i], x); hi += !rel(r, x, a[i]); }
         P2 c2 = { r, &calls };
         over<RND>(v & 1, A, [&](auto f, auto l) {
            auto both = [&](auto q) { eqi(p, "the lower position", idx(q.first, base), lo); eqi(p, "the upper position", idx(q.second, base), hi); };
            switch (p.c)
            {
            case LOWER: eqi(p, "the position", idx(ttl::lower_bound(f, l, val), base), lo); break;
            case LOWER_C: eqi(p, "the position", idx(ttl::lower_bound(f, l, val, c2), base), lo); break;
            case UPPER: eqi(p, "the position", idx(ttl::upper_bound(f, l, val), base), hi); break;
            case UPPER_C: eqi(p, "the position", idx(ttl::upper_bound(f, l, val, c2), base), hi); break;
            case EQR: both(ttl::equal_range(f, l, val)); break;
            case EQR_C: both(ttl::equal_range(f, l, val, c2)); break;
            case BSEARCH: eqi(p, "the result", ttl::binary_search(f, l, val), lo != hi); break;
            case BSEARCH_C: eqi(p, "the result", ttl::binary_search(f, l, val, c2), lo != hi); break;
            }
         });
         most(p, withc ? calls : g().cmps, (p.c == EQR || p.c == EQR_C ? 2 * lim : lim) + 1);
         return;
      }
      switch (p.c)
      {
      case IS_SORTED: case IS_SORTED_UNTIL:
      {
         int want = n;
         for (int i = n - 1; i > 0; --i) if (a[i] < a[i - 1]) want = i;
         over<FWD>(v & 1, A, [&](auto f, auto l) { if (p.c == IS_SORTED) eqi(p, "the result", ttl::is_sorted(f, l), want == n); else eqi(p, "the position", idx(ttl::is_sorted_until(f, l), base), want); });
         break;
      }
      case MERGE:
      {
         Exp out;
         size_t i = 0, j = 0;
         for (int k = 1; k < 2 * alpha + 400; ++k)
         {
            while (i < a.size() && a[i] == k) out.push_back(kt(k, 1 + i)), ++i;
            while (j < b.size() && b[j] == k) out.push_back(kt(k, 100 + j)), ++j;
         }
         dest(p, out, 1, [&](Buf<E> &D) { over<IN>(v & 1, A, [&](auto f, auto l) { over<IN>(v >> 1, B, [&](auto sf, auto sl) { out_it(v >> 1, D, [&](auto o) { eqi(p, "the returned position", idx(ttl::merge(f, l, sf, sl, o), D.begin()), out.size()); }); }); }); });
         break;
      }
      case MIN: case MIN_C: case MAX: case MAX_C: case MINMAX: case MINMAX_C:
      {
         const int i = p.a[1], j = p.a[2], r = p.c == MIN_C || p.c == MAX_C || p.c == MINMAX_C ? p.a[3] : 1;
         const E &s = base[i], &t = base[j];
         const bool lt = rel(r, a[i], a[j]), gt = rel(r, a[j], a[i]);
         P2 c2 = { r, &calls };
         const E *mn = gt ? &t : &s, *mx = lt ? &t : &s;
         if (p.c == MIN || p.c == MIN_C) eqi(p, "the position of the result", (p.c == MIN ? &ttl::min(s, t) : &ttl::min(s, t, c2)) - base, mn - base);
         else if (p.c == MAX || p.c == MAX_C) eqi(p, "the position of the result", (p.c == MAX ? &ttl::max(s, t) : &ttl::max(s, t, c2)) - base, mx - base);
         else
         {
            const ttl::pair<const E &, const E &> q = p.c == MINMAX ? ttl::minmax(s, t) : ttl::minmax(s, t, c2);
            eqi(p, "the position of the smallest", &q.first - base, mn - base);
            eqi(p, "the position of the greatest", &q.second - base, (gt ? i : j));
         }
         break;
      }
      case ORDER_WIDE:
         if constexpr (!std::is_same<E, KT>::value)
         {
            const long long wide = widened(x, p.a[2]);
            const int want = p.a[2] ? n : 0;
            over<RND>(v & 1, A, [&](auto f, auto l) {
               if (p.a[3] == 0) eqi(p, "lower_bound: the position", idx(ttl::lower_bound(f, l, wide), base), want);
               else if (p.a[3] == 1) eqi(p, "upper_bound: the position", idx(ttl::upper_bound(f, l, wide), base), want);
               else if (p.a[3] == 2) eqi(p, "binary_search", ttl::binary_search(f, l, wide), false);
               else { auto q = ttl::equal_range(f, l, wide); eqi(p, "equal_range", idx(q.first, base), want); eqi(p, "equal_range", idx(q.second, base), want); }
            });
         }
         break;
      case MIN_EL: case MAX_EL: case MINMAX_EL:
      {
         int mn = n, mx = n;
         for (int i = 0; i < n; ++i) { if (mn == n || a[i] < a[mn]) mn = i; if (mx == n || a[i] > a[mx]) mx = i; }
         over<FWD>(v & 1, A, [&](auto f, auto l) {
            if (p.c == MIN_EL) eqi(p, "the position", idx(ttl::min_element(f, l), base), mn);
            else if (p.c == MAX_EL) eqi(p, "the position", idx(ttl::max_element(f, l), base), mx);
            else { auto q = ttl::minmax_element(f, l); eqi(p, "the position of the smallest", idx(q.first, base), mn); eqi(p, "the position of the greatest", idx(q.second, base), mx); }
         });
         break;
      }
      }
   }
   // a value beyond the element type with the same low bits
   static long long widened(int level, int up)
   {
      if constexpr (std::is_same<E, KT>::value) return 0;
      else return (long long)Cell<E>::mk(level, 0) + (up ? 1 : -1) * (1LL << 8 * sizeof(E));
   }
   void virt(const Op &p)
   {
      const long long n = (1LL << p.a[0]) + p.a[1] - 1;
      const int sh = p.a[4];
      const long long val = ((1LL << p.a[2]) + p.a[3] - 1) >> sh;
      Virt f = { 0, sh }, l = { n, sh };
      // positions with value < val: those below val << sh
      auto clip = [&](long long v) { return v > (n >> sh) ? n : std::min(n, v << sh); };
      const long long lo = clip(val), hi = clip(val + 1);
      LessLL c = { &calls };

      auto eq = [&](const char *what, long long got, long long want) { if (got != want) fail(VALUE, "%s of %lld elements: %s is %lld, expected %lld", names[LOWER + p.a[5]], n, what, got, want); };
      auto both = [&](ttl::pair<Virt, Virt> q) { eq("the lower position", q.first.p, lo); eq("the upper position", q.second.p, hi); };
      switch (LOWER + p.a[5])
      {
      case LOWER: eq("the position", ttl::lower_bound(f, l, val).p, lo); break;
      case LOWER_C: eq("the position", ttl::lower_bound(f, l, val, c).p, lo); break;
      case UPPER: eq("the position", ttl::upper_bound(f, l, val).p, hi); break;
      case UPPER_C: eq("the position", ttl::upper_bound(f, l, val, c).p, hi); break;
      case EQR: both(ttl::equal_range(f, l, val)); break;
      case EQR_C: both(ttl::equal_range(f, l, val, c)); break;
      case BSEARCH: eq("the result", ttl::binary_search(f, l, val), lo != hi); break;
      case BSEARCH_C: eq("the result", ttl::binary_search(f, l, val, c), lo != hi); break;
      }
      const int lim = lg(std::max<long long>(n, 1)) + 2;
      most(Op(LOWER + p.a[5]), calls, (p.a[5] == EQR_C - LOWER ? 2 * lim : lim) + 1);
   }
   void check() {}
};


int main(int argc, char **argv)
{
   Cfg cfg = parse(argc, argv);
   std::string e = cfg.get("elem", "KT");
   if (e == "int") return drive<AlgoSys<int> >(cfg);
   if (e == "char") return drive<AlgoSys<signed char> >(cfg);
   return drive<AlgoSys<KT> >(cfg);
}
