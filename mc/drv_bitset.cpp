// ttl::bitset<N>: one or two objects of the width given with N=, sources of
// other widths for the conversions. The unused bits of the storage are part of
// the explored state.
#include "ttl/utility.hpp"
#include "ttl/bitset.hpp"
#include "mc.hpp"
using namespace mc;

#define OPS(X) \
   X(INIT) X(SET) X(SET_V) X(RESET) X(FLIP) X(REF_SET) X(REF_REF) X(REF_FLIP) X(SET_ALL) X(RESET_ALL) X(FLIP_ALL) \
   X(AND) X(OR) X(XOR) X(AND_V) X(OR_V) X(XOR_V) X(NOT_V) X(SHL) X(SHR) X(SHL_V) X(SHR_V) \
   X(ASSIGN) X(COPY) X(CTOR) X(CTOR_UL) X(CTOR_ULL) X(CTOR_STR) X(CTOR_LSTR) X(CTOR_W) X(ASSIGN_W) X(CONV_W) X(WIDEN)
#define E(x) x,
enum { OPS(E) NOPS };
#undef E
#define N_(x) #x,
static const char *const names[] = { OPS(N_) };
#undef N_
static bool is_conv(int c) { return c >= CTOR; }

typedef std::vector<char> Bits;
static std::string bits_str(const Bits &b) { std::string r; for (size_t i = b.size(); i--;) r += b[i] ? '1' : '0'; return r; }

static const int widths[] = { 0, 1, 3, 7, 16, 31, 33, 63, 64, 65, 127, 128, 130, 200 };
enum { NW = sizeof(widths) / sizeof(*widths) };

// bit i of pattern p on w bits
static int pat_bit(int p, int i, int w)
{
   if (p < 2) return p;                              // 0 none, 1 all
   if (p < 4) return (i & 1) == (p & 1);             // 2, 3 alternating
   if (p == 4) return i == 0 || i == w - 1;
   if (p == 5) return i % 3 == 0;
   if (p == 6) return (i * 2654435761u >> 13) & 1;
   if (p == 7) return (i * 40503u >> 7) & 1;
   if (p == 8) return i >= 64 || i == w - 1;
   if (p == 9) return i < 64 && i != 0;
   p -= 10;
   if (p < w) return i == p;                         // one bit
   p -= w;
   return i <= p;                                    // a prefix
}
static int npat(int w) { return 10 + 2 * w; }

static size_t shift_amount(int a, int w) { return a == 0xffff ? (size_t)-1 : a == 0xfffe ? (size_t)1 << 63 : a == 0xfffd ? (size_t)1 << 32 : a; }

struct Iface
{
   virtual ~Iface() {}
   virtual void make(int k) = 0;
   virtual void kill(int k) = 0;
   virtual void *mem(int k) = 0;
   virtual size_t bytes() = 0;
   virtual void apply(const Op &p, int k, int q, const Bits &src) = 0;
   virtual bool test(int k, size_t i) = 0;
   virtual unsigned long raw(int k, size_t s) = 0;
   virtual void queries(int k, const Bits &m) = 0;
   virtual void pair(const Bits &a, const Bits &b) = 0;
};

template<unsigned M> struct Src
{
   typedef ttl::bitset<M> B;
   static void fill(B &b, const Bits &m, int junk)
   {
      for (unsigned i = 0; i < M; ++i) if (m[i] != junk) b.set(i);
      if (junk) b.flip();
   }
};
static const unsigned long ints[] = { 0, 1, 2, 3, 5, ~0ul, 0xAAAAAAAAAAAAAAAAul, 0x5555555555555555ul, 1ul << 63, 1ul << 31, 1ul << 32, 0xFFFFFFFFul, ~0ul << 32, 0x8000000000000001ul };
enum { NINT = sizeof(ints) / sizeof(*ints) };
static unsigned long int_of(int x, unsigned n)
{
   if (x < NINT) return ints[x];
   x -= NINT;
   if (x < 16) return x;
   x -= 16;
   if (x < 16) return x | (n < 64 ? 1ul << n : 0);   // the first bit that does not fit
   x -= 16;
   if (x < 64) return 1ul << x;
   x -= 64;
   return (2ul << x) - 1;
}
static const char *const alpha3[] = { "012", "ab0", "10x", "\1\377 " }; // zero, one, other

// a string in memory that ends exactly after len characters
struct Str
{
   char *p;
   Str(const std::string &s, bool term) { p = (char *)malloc(s.size() + term); memcpy(p, s.data(), s.size()); if (term) p[s.size()] = 0; }
   ~Str() { free(p); }
};

template<unsigned N> struct Impl: Iface
{
   typedef ttl::bitset<N> B;
   Box<B> o[2];
   virtual void make(int k) { o[k].make(); }
   virtual void kill(int k) { o[k].kill(); }
   virtual void *mem(int k) { return o[k].mem; }
   virtual size_t bytes() { return sizeof(B); }
   virtual bool test(int k, size_t i) { return o[k].c().test(i); }
   virtual unsigned long raw(int k, size_t s) { unsigned long x = 0; if ((s + 1) * sizeof x <= sizeof(B)) memcpy(&x, (const char *)o[k].mem + s * sizeof x, sizeof x); return x; } // only to tell where a difference comes from

   void self(const B &r, int k, const char *what) { MC_CHECK(VALUE, &r == &*o[k], "%s does not return the object", what); }
   // one position, chosen at run time
   template<unsigned M> void widen(const Op &p, int k, const Bits &src)
   {
      // the object is replaced by a copy that went through width M
      ttl::bitset<M> t(o[k].c());
      o[k].kill();
      if (p.a[2]) { o[k].make(); *o[k] = t; } else o[k].make(t);
   }
   template<unsigned M> void from(const Op &p, int k, const Bits &src)
   {
      if (p.c == WIDEN) { widen<M>(p, k, src); return; }
      ttl::bitset<M> s;
      Src<M>::fill(s, src, p.a[3]);
      if (p.c == CTOR_W) { o[k].kill(); o[k].make((const ttl::bitset<M> &)s); }
      else if (p.c == ASSIGN_W) self(*o[k] = s, k, "operator=");
      else *o[k] = s.operator ttl::bitset<N>();
      for (unsigned i = 0; i < M; ++i) if (s.test(i) != (bool)src[i]) { fail(CONV, "a conversion modified its source"); break; }
   }
   virtual void apply(const Op &p, int k, int q, const Bits &src)
   {
      const unsigned x = p.a[1] | p.a[2] << 8, y = p.a[3] | p.a[4] << 8;
      B &a = *o[k]; B &b = *o[q];
      switch (p.c)
      {
      case INIT: Src<N>::fill(a, src, p.a[3]); break;
      case SET: self(a.set(x), k, "set(pos)"); break;
      case SET_V: self(a.set(x, y), k, "set(pos, value)"); break;
      case RESET: self(a.reset(x), k, "reset(pos)"); break;
      case FLIP: self(a.flip(x), k, "flip(pos)"); break;
      case REF_SET: { bool r = a[x] = (bool)y; MC_CHECK(VALUE, r == (bool)y, "the value of an assigned reference is wrong"); break; }
      case REF_REF: a[x] = b[y]; break;
      case REF_FLIP: { bool before = a.test(x); bool r = a[x].flip(); MC_CHECK(VALUE, r == !before, "the value of a flipped reference is wrong"); break; }
      case SET_ALL: self(a.set(), k, "set()"); break;
      case RESET_ALL: self(a.reset(), k, "reset()"); break;
      case FLIP_ALL: self(a.flip(), k, "flip()"); break;
      case AND: self(a &= b, k, "&="); break;
      case OR: self(a |= b, k, "|="); break;
      case XOR: self(a ^= b, k, "^="); break;
      case AND_V: { const B &ca = a, &cb = b; a = ca & cb; break; }
      case OR_V: { const B &ca = a, &cb = b; a = ca | cb; break; }
      case XOR_V: { const B &ca = a, &cb = b; a = ca ^ cb; break; }
      case NOT_V: { const B &cb = b; a = ~cb; break; }
      case SHL: self(a <<= shift_amount(x, N), k, "<<="); break;
      case SHR: self(a >>= shift_amount(x, N), k, ">>="); break;
      case SHL_V: { const B &cb = b; a = cb << shift_amount(x, N); break; }
      case SHR_V: { const B &cb = b; a = cb >> shift_amount(x, N); break; }
      case ASSIGN: self(a = b, k, "operator="); break;
      case COPY: if (k != q) { o[k].kill(); o[k].make((const B &)b); } break;
      case CTOR: o[k].kill(); o[k].make(); break;
      case CTOR_UL: o[k].kill(); o[k].make(int_of(x, N)); break;
      case CTOR_ULL: o[k].kill(); o[k].make((unsigned long long)int_of(x, N)); break;
      case CTOR_STR: case CTOR_LSTR:
      {
         std::string s; size_t n; bool dflt; const char *al;
         string_of(p, N, s, n, al, dflt);
         const bool term = n > s.size();
         Str t(term ? s : s.substr(0, n), term);
         o[k].kill();
         if (dflt && n == (size_t)-1 && al == alpha3[0]) o[k].make((const char *)t.p);
         else if (dflt && al == alpha3[0]) o[k].make((const char *)t.p, n);
         else o[k].make((const char *)t.p, n, al[0], al[1]);
         break;
      }
      case CTOR_W: case ASSIGN_W: case CONV_W: case WIDEN:
         switch (widths[p.a[1]])
         {
#define W(m) case m: from<m>(p, k, src); break;
         W(0) W(1) W(3) W(7) W(16) W(31) W(33) W(63) W(64) W(65) W(127) W(128) W(130) W(200)
#undef W
         }
         break;
      }
   }
   static void string_of(const Op &p, unsigned n0, std::string &s, size_t &n, const char *&al, bool &dflt)
   {
      al = alpha3[p.a[5] & 3];
      dflt = true;
      if (p.c == CTOR_STR)
      {
         unsigned code = p.a[1] | p.a[2] << 8;
         for (int i = 0; i < p.a[3]; ++i, code /= 3) s += al[code % 3];
         n = p.a[4] == 255 ? (size_t)-1 : p.a[4];
      }
      else
      {
         const int len = p.a[1] | p.a[2] << 8, pat = p.a[3];
         for (int i = 0; i < len; ++i) s += al[pat_bit(pat, i, len)];
         static const int dn[] = { 0, -1, 1, 5 };
         n = p.a[4] == 255 ? (size_t)-1 : p.a[4] < 100 ? (size_t)p.a[4] : len + dn[p.a[4] - 100];
         if ((ptrdiff_t)n < 0 && n != (size_t)-1) n = 0;
      }
   }
   virtual void queries(int k, const Bits &m)
   {
      const char *nm = k ? "B" : "A";
      B &a = *o[k]; const B &c = o[k].c();
      size_t cnt = 0; unsigned long low = 0;
      for (unsigned i = 0; i < N; ++i) { cnt += m[i]; if (i < 64 && m[i]) low |= 1ul << i; }
#define Q(what, cond) do { if (!(cond)) { fail(QUERY, "%s: " what " is wrong for %s", nm, bits_str(m).c_str()); return; } } while (0)
      Q("size()", c.size() == N);
      Q("capacity()", c.capacity() >= N);
      Q("count()", c.count() == cnt);
      Q("any()", c.any() == (cnt > 0));
      Q("none()", c.none() == (cnt == 0));
      Q("all()", c.all() == (N > 0 && cnt == N));
      Q("to_ulong()", c.to_ulong() == low);
      Q("to_ullong()", c.to_ullong() == low);
      for (unsigned i = 0; i < N; ++i)
      {
         if (c[i] != (bool)m[i]) fail(VALUE | QUERY, "%s: const subscript of %u is wrong for %s", nm, i, bits_str(m).c_str());
         bool r = a[i], t = ~a[i];
         if (r != (bool)m[i]) fail(VALUE, "%s: subscript of %u is wrong for %s", nm, i, bits_str(m).c_str());
         if (t != !m[i]) fail(VALUE, "%s: ~ of the reference to %u is wrong for %s", nm, i, bits_str(m).c_str());
      }
      for (unsigned i = N; i < N + 70; ++i)
         Q("test or const subscript beyond the width", !c.test(i) && !c[i]);
      Q("test beyond the width", !c.test((size_t)-1) && !c[(size_t)-1]);
      // a reference without a bit
      for (unsigned i = N; i <= N + 70; ++i)
      {
         const size_t at = i < N + 70 ? i : (size_t)-1;
         Q("subscript beyond the width", !a[at] && ~a[at]);
         Q("assignment beyond the width", !(a[at] = true) && !(a[at] = false) && !a[at].flip());
         if (N) { Q("assignment beyond the width", !(a[at] = a[N - 1]) && a[N - 1] == (bool)m[N - 1]); }
      }
      for (unsigned i = 0; i < N; ++i) if (c.test(i) != (bool)m[i]) fail(QUERY, "%s: an assignment beyond the width changed bit %u of %s", nm, i, bits_str(m).c_str());
      // the same logical bits, produced in two other ways
      {
         Box<B> t, u;
         t.make(); u.make();
         Src<N>::fill(*t, m, 0); Src<N>::fill(*u, m, 1);
         Q("== / != with an equal set", c == t.c() && !(c != t.c()) && u.c() == c && !(u.c() != c) && t.c() == u.c());
         for (unsigned i = 0; i < N; i += N > 16 && i > 2 && i < N - 3 ? 5 : 1)
         {
            t->flip(i);
            Q("== / != with a different set", !(c == t.c()) && c != t.c() && !(t.c() == c));
            t->flip(i);
         }
         t.kill(); u.kill();
      }
      zero(c, cnt, nm, m);
#undef Q
   }
   void zero(const B &c, size_t cnt, const char *nm, const Bits &m)
   {
      ttl::bitset<0> z;
      if (N) MC_CHECK(QUERY, (z == c) == (cnt == 0) && (z != c) == (cnt != 0) && (c == z) == (cnt == 0) && (c != z) == (cnt != 0), "%s: comparison with an empty bitset is wrong for %s", nm, bits_str(m).c_str());
   }
   virtual void pair(const Bits &a, const Bits &b)
   {
      const bool eq = a == b;
      MC_CHECK(QUERY, (o[0].c() == o[1].c()) == eq && (o[0].c() != o[1].c()) == !eq && (o[1].c() == o[0].c()) == eq, "== / != is wrong for %s and %s", bits_str(a).c_str(), bits_str(b).c_str());
   }
};
template<> void Impl<0>::zero(const ttl::bitset<0> &, size_t, const char *, const Bits &) {}

static unsigned gN;
static Iface *make_iface(unsigned n)
{
   switch (n)
   {
#define W(m) case m: return new Impl<m>;
   W(0) W(1) W(2) W(3) W(4) W(5) W(6) W(8) W(16) W(31) W(32) W(33) W(63) W(64) W(65) W(66) W(127) W(128) W(129) W(130) W(192) W(200)
#undef W
   }
   fprintf(stderr, "N=%u\n", n);
   exit(2);
}

struct BitSys
{
   const Cfg &cfg;
   unsigned N;
   int nobj, init, step, opc;
   bool junk; // some unused bit was set before the operation
   Iface *im;
   Bits m[2];

   static const char *opname(int c) { return c < NOPS ? names[c] : "?"; }
   BitSys(const Cfg &c, const Hist *): cfg(c), step(0), opc(CTOR), junk(false)
   {
      N = cfg.num("N", 3); nobj = cfg.num("nobj", 1); init = cfg.num("init", 0);
      im = make_iface(N);
      for (int k = 0; k < nobj; ++k) { im->make(k); m[k].assign(N, 0); }
   }
   void destroy() { for (int k = 0; k < nobj; ++k) im->kill(k); delete im; im = 0; }
   ~BitSys() { delete im; }
   void canon(Canon &c)
   {
      for (int k = 0; k < nobj; ++k)
      {
         if (N) c.root(im->mem(k), im->bytes());
         uint64_t x = 1;
         for (unsigned i = 0; i < N; ++i) { x = x << 1 | m[k][i]; if (i % 32 == 31) { c.value(x); x = 1; } }
         c.value(x);
      }
      if (init) c.value(step > 0);
   }
   static Op op(int c, int k, int x = 0, int y = 0, int z = 0) { return Op(c, k, x & 255, x >> 8, y & 255, y >> 8, z); }

   void positions(std::vector<int> &r)
   {
      const bool all = cfg.get("pos", "all") == "all";
      for (unsigned i = 0; i < N; ++i)
         if (all || i < 2 || i + 2 >= N || (i % 32 == 0 || i % 32 == 31 || i % 64 == 1)) r.push_back(i);
   }
   void amounts(std::vector<int> &r)
   {
      std::vector<int> p; positions(p);
      r = p;
      if (!N) r.push_back(0);
      for (unsigned i = N; i < N + 3; ++i) r.push_back(i);
      for (unsigned i = 62; i < 200; i += 1) if (i > N + 3 && (i == 63 || i == 64 || i == 65 || i == 127 || i == 128 || i == 129)) r.push_back(i);
      r.push_back(0xffff); r.push_back(0xfffe); r.push_back(0xfffd);
   }
   void ops(std::vector<Op> &r)
   {
      const bool bit = cfg.has("grp", "bit"), logic = cfg.has("grp", "logic"), shift = cfg.has("grp", "shift"), ctor = cfg.has("grp", "ctor"), str = cfg.has("grp", "str"), conv = cfg.has("grp", "conv");
      if (init && !step)
      {
         const int np = init >= 2 ? npat(N) : 10;
         for (int p = 0; p < np; ++p)
            for (int j = 0; j < 2; ++j)
               for (int p2 = 0; p2 < (nobj > 1 ? 10 : 1); ++p2)
                  for (int j2 = 0; j2 < (nobj > 1 ? 2 : 1); ++j2) r.push_back(Op(INIT, 0, p & 255, p >> 8, j, p2, j2));
         return;
      }
      std::vector<int> ps, am;
      positions(ps); amounts(am);
      for (int k = 0; k < nobj; ++k)
      {
         if (bit)
         {
            for (size_t i = 0; i < ps.size(); ++i)
            {
               const int p = ps[i];
               r.push_back(op(SET, k, p)); r.push_back(op(RESET, k, p)); r.push_back(op(FLIP, k, p)); r.push_back(op(REF_FLIP, k, p));
               for (int v = 0; v < 2; ++v) { r.push_back(op(SET_V, k, p, v)); r.push_back(op(REF_SET, k, p, v)); }
               for (int q = 0; q < nobj; ++q)
                  for (size_t j = 0; j < ps.size(); ++j)
                     if (N <= 8 || j == 0 || j + 1 == ps.size() || abs(ps[j] - p) <= 1 || abs(ps[j] - p) == 64) r.push_back(op(REF_REF, k, p, ps[j], q));
            }
            r.push_back(op(SET_ALL, k)); r.push_back(op(RESET_ALL, k)); r.push_back(op(FLIP_ALL, k));
         }
         for (int q = 0; q < nobj; ++q)
         {
            if (logic)
               for (int c = AND; c <= NOT_V; ++c) r.push_back(op(c, k, 0, 0, q));
            if (shift)
               for (size_t i = 0; i < am.size(); ++i) { r.push_back(op(SHL_V, k, am[i], 0, q)); r.push_back(op(SHR_V, k, am[i], 0, q)); }
            if (logic || ctor) { r.push_back(op(ASSIGN, k, 0, 0, q)); if (q != k) r.push_back(op(COPY, k, 0, 0, q)); }
         }
         if (shift) for (size_t i = 0; i < am.size(); ++i) { r.push_back(op(SHL, k, am[i])); r.push_back(op(SHR, k, am[i])); }
         if (cfg.has("grp", "junk")) r.push_back(op(FLIP_ALL, k)); // leaves ones behind in the unused bits
         if (ctor)
         {
            r.push_back(op(CTOR, k));
            const int all = cfg.num("ints", 1);
            for (int x = 0; x < NINT + 32 + 128; ++x)
               if (all || (x < NINT ? x == 5 : x < NINT + 32 && x - NINT - (x < NINT + 16 ? 0 : 16) < (1 << std::min(N, 3u)))) { r.push_back(op(CTOR_UL, k, x)); r.push_back(op(CTOR_ULL, k, x)); }
         }
         if (str)
         {
            const int L = cfg.num("slen", 4);
            int n3 = 1;
            for (int len = 0; len <= L; ++len, n3 *= 3)
               for (int code = 0; code < n3; ++code)
                  for (int n = 0; n <= L + 2; ++n)
                     for (int al = 0; al < 4; ++al) r.push_back(Op(CTOR_STR, k, code & 255, code >> 8, len, n <= L + 1 ? n : 255, al));
            static const int dl[] = { -64, -2, -1, 0, 1, 2, 31, 63, 64, 65, 100 };
            for (int i = 0; i < 11; ++i)
               if ((int)N + dl[i] > 0)
                  for (int p = 0; p < 10; ++p)
                     for (int n = 0; n < 5; ++n) { int len = N + dl[i]; r.push_back(Op(CTOR_LSTR, k, len & 255, len >> 8, p, n == 4 ? 255 : 100 + n, (i + p) & 3)); r.push_back(Op(CTOR_LSTR, k, len & 255, len >> 8, p, n == 4 ? 255 : 100 + n, 0)); }
         }
         if (conv)
            for (int w = 0; w < NW; ++w)
            {
               for (int v = 0; v < 2; ++v) r.push_back(Op(WIDEN, k, w, v));
               const int M = widths[w], np = M < 5 ? 1 << M : 10;
               for (int p = 0; p < np; ++p)
                  for (int j = 0; j < 2; ++j)
                     for (int c = CTOR_W; c <= CONV_W; ++c)
                        if (c != CONV_W || M != (int)N) r.push_back(Op(c, k, w, p, j));
            }
      }
   }
   std::string str(const Op &p)
   {
      std::string r = strf("%s(%s", names[p.c], p.a[0] ? "B" : "A");
      if (p.c == CTOR_STR || p.c == CTOR_LSTR)
      {
         std::string s; size_t n; const char *al; bool d;
         Impl<1>::string_of(p, N, s, n, al, d);
         return r + ",\"" + s + strf("\",%zd,'%c','%c')", (ptrdiff_t)n, al[0], al[1]);
      }
      if (p.c == CTOR_UL || p.c == CTOR_ULL) return r + strf(",0x%lx)", int_of(p.a[1] | p.a[2] << 8, N));
      if (p.c >= CTOR_W) return r + strf(",<%d>,pattern %d,unused %d)", widths[p.a[1]], p.a[2], p.a[3]);
      return r + strf(",%d,%d,%d)", p.a[1] | p.a[2] << 8, p.a[3] | p.a[4] << 8, p.a[5]);
   }
   bool has_junk(int k)
   {
      if (!N) return false;
      const unsigned last = (N - 1) / 64, used = N - last * 64;
      return used < 64 && im->raw(k, last) >> used;
   }
   void apply(const Op &p)
   {
      ++step;
      opc = p.c;
      const int k = p.a[0] & 1, q = nobj > 1 ? p.a[5] & 1 : 0;
      const unsigned x = p.a[1] | p.a[2] << 8, y = p.a[3] | p.a[4] << 8;
      junk = false;
      for (int j = 0; j < nobj; ++j) junk = junk || has_junk(j);
      Bits src;
      if (p.c >= CTOR_W && p.c <= CONV_W)
      {
         const int M = widths[p.a[1]];
         for (int i = 0; i < M; ++i) src.push_back(M < 5 ? p.a[2] >> i & 1 : pat_bit(p.a[2], i, M));
         junk = p.a[3];
      }
      if (p.c == INIT)
      {
         for (int j = 0; j < nobj; ++j)
         {
            Op t = p;
            int pat = j ? p.a[4] : x;
            t.a[3] = j ? p.a[5] : p.a[3];
            for (unsigned i = 0; i < N; ++i) m[j][i] = pat_bit(pat, i, N);
            { Sut s; im->apply(t, j, j, m[j]); }
         }
         return;
      }
      const Bits a = m[k], b = m[q];
      { Sut s; im->apply(p, k, q, src); }
      Bits &r = m[k];
      switch (p.c)
      {
      case SET: r[x] = 1; break;
      case SET_V: case REF_SET: r[x] = y; break;
      case RESET: r[x] = 0; break;
      case FLIP: case REF_FLIP: r[x] = !a[x]; break;
      case REF_REF: r[x] = b[y]; break;
      case SET_ALL: r.assign(N, 1); break;
      case RESET_ALL: case CTOR: r.assign(N, 0); break;
      case FLIP_ALL: for (unsigned i = 0; i < N; ++i) r[i] = !a[i]; break;
      case AND: case AND_V: for (unsigned i = 0; i < N; ++i) r[i] = a[i] & b[i]; break;
      case OR: case OR_V: for (unsigned i = 0; i < N; ++i) r[i] = a[i] | b[i]; break;
      case XOR: case XOR_V: for (unsigned i = 0; i < N; ++i) r[i] = a[i] ^ b[i]; break;
      case NOT_V: for (unsigned i = 0; i < N; ++i) r[i] = !b[i]; break;
      case SHL: case SHL_V: { const Bits &s = p.c == SHL ? a : b; const size_t n = shift_amount(x, N); for (size_t i = 0; i < N; ++i) r[i] = n <= i ? s[i - n] : 0; break; }
      case SHR: case SHR_V: { const Bits &s = p.c == SHR ? a : b; const size_t n = shift_amount(x, N); for (size_t i = 0; i < N; ++i) r[i] = n < N - i ? s[i + n] : 0; break; }
      case ASSIGN: case COPY: r = b; break;
      case CTOR_UL: case CTOR_ULL: for (unsigned i = 0; i < N; ++i) r[i] = i < 64 && (int_of(x, N) >> i & 1); break;
      case CTOR_STR: case CTOR_LSTR:
      {
         std::string s; size_t n; const char *al; bool d;
         Impl<1>::string_of(p, N, s, n, al, d);
         size_t l = 0;
         while (l < n && l < N && l < s.size() && (s[l] == al[0] || s[l] == al[1])) ++l;
         r.assign(N, 0);
         for (size_t i = 0; i < l; ++i) r[l - 1 - i] = s[i] == al[1];
         break;
      }
      case CTOR_W: case ASSIGN_W: case CONV_W: for (unsigned i = 0; i < N; ++i) r[i] = i < src.size() ? src[i] : 0; break;
      case WIDEN: for (unsigned i = widths[p.a[1]]; i < N; ++i) r[i] = 0; break;
      }
   }
   void check()
   {
      Sut su;
      for (int k = 0; k < nobj; ++k)
      {
         bool raw_ok = true;
         Bits got(N);
         for (unsigned i = 0; i < N; ++i) { got[i] = im->test(k, i); raw_ok = raw_ok && (im->raw(k, i / 64) >> i % 64 & 1) == (unsigned long)m[k][i]; }
         if (got != m[k])
         {
            int cls = raw_ok ? VALUE | QUERY : (is_conv(opc) ? CONV : VALUE) | (junk ? QUERY : 0);
            fail(cls, "%s: the bits are %s, expected %s", k ? "B" : "A", bits_str(got).c_str(), bits_str(m[k]).c_str());
            return;
         }
         im->queries(k, m[k]);
         if (g().failed || g().foreign) return;
      }
      if (nobj > 1) im->pair(m[0], m[1]);
   }
};

int main(int argc, char **argv)
{
   Cfg cfg = parse(argc, argv);
   return drive<BitSys>(cfg);
}
