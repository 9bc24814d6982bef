// Explicit-state model checker for the real ttl code.
// Single translation unit per driver; this header defines the runtime.
#ifndef MC_HPP
#define MC_HPP 1
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <limits.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#ifndef ELEM_ALIGN
#define ELEM_ALIGN 8
#endif
#include <type_traits>
#include <new>
#include <vector>
#include <string>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <functional>

#if ELEM_ALIGN > 8
extern "C" { void __asan_poison_memory_region(void const volatile *, size_t); void __asan_unpoison_memory_region(void const volatile *, size_t); }
#else
inline void __asan_poison_memory_region(void const volatile *, size_t) {}
inline void __asan_unpoison_memory_region(void const volatile *, size_t) {}
#endif

namespace mc
{
   // ---------------------------------------------------------------- classes
   enum Class
   {
      VALUE = 1,    // wrong contents, return value or position
      STABLE = 2,   // an element moved, was copied or replaced although it must not be
      LIFE = 4,     // element lifetime: double construction/destruction, use of dead objects, lost objects
      MEM = 8,      // memory: double/wild/mismatched release, leaks
      COST = 16,    // allocations / comparisons above the promised amount
      BAL = 32,     // tree balance
      CAP = 64,     // capacity promises
      BOUND = 128,  // lower_bound, upper_bound, equal_range
      ITER = 256,   // iteration and iterator validity
      QUERY = 512,  // a query that sees more than the logical bits
      CONV = 1024,  // construction and conversion
      ITOP = 2048,  // operations of iterators
      ALLOC = 4096, // memory blocks held and allocated
      PURE = 8192,  // a query that changes something
      WORK = 16384, // element operations and predicate calls above the promised number
      SOFT = ALLOC | PURE | WORK | LIFE | MEM | COST | BAL | CAP | BOUND | ITER | QUERY | ITOP // the model still knows the contents after these
   };
   struct ClassName { const char *n; int c; };
   static const ClassName class_names[] = { {"value",VALUE},{"stable",STABLE},{"life",LIFE},{"mem",MEM},{"cost",COST},{"bal",BAL},{"cap",CAP},{"bound",BOUND},{"iter",ITER},{"query",QUERY},{"conv",CONV},{"itop",ITOP},{"alloc",ALLOC},{"pure",PURE},{"work",WORK},{0,0} };
   inline const char *class_name(int c)
   {
      for (const ClassName *p = class_names; p->n; ++p) if (p->c & c) return p->n;
      return "?";
   }

   // ---------------------------------------------------------------- op, history
   struct Op
   {
      uint16_t c; uint16_t a[7];
      Op(int code = 0, int a0 = 0, int a1 = 0, int a2 = 0, int a3 = 0, int a4 = 0, int a5 = 0, int a6 = 0)
      { c = code; a[0]=a0; a[1]=a1; a[2]=a2; a[3]=a3; a[4]=a4; a[5]=a5; a[6]=a6; }
      bool operator==(const Op &o) const { return !memcmp(this, &o, sizeof o); }
   };
   typedef std::vector<Op> Hist;

   // large sizes: the counts and positions around which a too narrow counter or a blockwise loop goes wrong
   inline void big_counts(std::vector<int> &r, int big)
   {
      static const int c[] = { 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 1000, 32767, 32768, 32769, 65535 };
      for (size_t i = 0; i < sizeof c / sizeof *c && c[i] <= big; ++i) r.push_back(c[i]);
   }
   inline bool thin_pos(int p, int n)
   {
      return n <= 100 || p < 3 || p > n - 3 || p == n / 2 || (p >= 127 && p <= 129) || (p >= 254 && p <= 257) || (p >= 1023 && p <= 1025) || (p >= 32767 && p <= 32769);
   }

   enum { HISTMAX = 4000 };
   struct Shared
   {
      volatile uint32_t magic, n, marker; // marker: 0 running, 1 hang, 2 runaway, 3 done
      uint32_t pad;
      Op ops[HISTMAX];
   };

   // ---------------------------------------------------------------- global state
   struct G
   {
      int classes = -1;               // classes that count
      bool failed = false;            // a counting failure in the current transition
      bool foreign = false;           // a non-counting failure in the current transition
      int fclass = 0;
      std::string fmsg, foreignmsg;
      int sut = 0;                    // inside code under test
      long live_elems = 0;
      long copies = 0, assigns = 0, ctors = 0, dtors = 0, cmps = 0;
      long made = 0, weighed = 0;     // by code under test: elements created, copied or assigned; comparisons and predicate calls
      long allocs = 0, frees = 0;     // by code under test
      uintptr_t watch_lo = 0, watch_hi = 0; // elements constructed, assigned or destroyed there are counted
      long touched = 0;
      size_t live_bytes = 0;
      volatile unsigned long beat = 0;
      Shared *shared = 0;
      std::map<std::string, std::string> known_on;   // known findings allowed (id -> text)
      std::map<std::string, long> known_hits;
      long soft = 0;                  // failures of other properties that were passed over
      bool replaying = false, verbose = false;
   };
   inline G &g() { static G x; return x; }

   struct Sut { Sut() { ++g().sut; } ~Sut() { --g().sut; } };
   struct Harness { int s; Harness() { s = g().sut; g().sut = 0; } ~Harness() { g().sut = s; } };

   inline void fail(int cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
   inline void fail(int cls, const char *fmt, ...)
   {
      Harness h;
      char buf[1024];
      va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
      if (g().classes & cls)
      {
         if (!g().failed) { g().failed = true; g().fclass = cls; g().fmsg = buf; }
      }
      else if (cls & SOFT) ++g().soft; // belongs to another property and leaves the model usable: go on
      else if (!g().foreign) { g().foreign = true; g().foreignmsg = std::string(class_name(cls)) + ": " + buf; }
   }
#define MC_CHECK(cls, cond, ...) do { if (!(cond)) mc::fail(cls, __VA_ARGS__); } while (0)

   // a listed deviation was observed: returns true if it is listed
   inline bool known(const char *id)
   {
      Harness h;
      if (g().known_on.count(id)) { ++g().known_hits[id]; return true; }
      return false;
   }

   // ---------------------------------------------------------------- allocation ledger
   struct Block { uintptr_t base; size_t size; int kind; };
   enum { MAXB = 1 << 16 };
   struct Ledger
   {
      Block blk[MAXB];
      unsigned n;
      // open addressing: address -> index + 1
      uint32_t slot[MAXB * 4];
      static unsigned h(uintptr_t a) { return (unsigned)((a * 0x9E3779B97F4A7C15ull) >> 46) & (MAXB * 4 - 1); }
      int find(uintptr_t a)
      {
         for (unsigned i = h(a);; i = (i + 1) & (MAXB * 4 - 1))
         {
            if (!slot[i]) return -1;
            if (slot[i] != ~0u && blk[slot[i] - 1].base == a) return (int)i;
         }
      }
      unsigned tomb;
      void rehash()
      {
         memset(slot, 0, sizeof slot);
         tomb = 0;
         for (unsigned k = 0; k < n; ++k)
         {
            unsigned i = h(blk[k].base);
            while (slot[i]) i = (i + 1) & (MAXB * 4 - 1);
            slot[i] = k + 1;
         }
      }
      void add(uintptr_t a, size_t size, int kind)
      {
         if (n == MAXB) abort();
         if (tomb > MAXB) rehash();
         unsigned i = h(a);
         while (slot[i] && slot[i] != ~0u) i = (i + 1) & (MAXB * 4 - 1);
         blk[n].base = a; blk[n].size = size; blk[n].kind = kind;
         slot[i] = ++n;
      }
      Block take(int i)
      {
         unsigned k = slot[i] - 1;
         Block b = blk[k];
         slot[i] = ~0u; ++tomb;
         --n;
         if (k != n)
         {
            int j = find(blk[n].base);
            blk[k] = blk[n];
            slot[j] = k + 1;
         }
         return b;
      }
   };
   inline Ledger &ledger() { static Ledger *l = (Ledger *)calloc(1, sizeof(Ledger)); return *l; }

   inline void stop_marker(int m)
   {
      if (g().shared) g().shared->marker = m;
      _exit(98);
   }

   inline void *alloc(size_t n, int kind)
   {
      void *p = malloc(n);
      if (!p) abort();
      if (g().sut)
      {
         memset(p, 0xCD, n);
         ++g().allocs;
         g().live_bytes += n;
         ledger().add((uintptr_t)p, n, kind);
         if (ledger().n > 20000 || g().live_bytes > (64u << 20))
            stop_marker(2);
      }
      return p;
   }
   inline void dealloc(void *p, int kind)
   {
      if (!p) return;
      int i = ledger().find((uintptr_t)p);
      if (i >= 0)
      {
         Block b = ledger().take(i);
         g().live_bytes -= b.size;
         ++g().frees;
         if (b.kind != kind)
            fail(MEM, "memory obtained with %s released with %s", b.kind ? "new[]" : "new", kind ? "delete[]" : "delete");
         memset(p, 0xDD, b.size);
      }
      else if (g().sut)
      {
         fail(MEM, "release of memory that is not allocated (double or wild delete)");
         return;
      }
      free(p);
   }

   // ---------------------------------------------------------------- tracked element
   inline uintptr_t opaque(const void *p) { uintptr_t x = (uintptr_t)p; __asm__ volatile ("" : "+r"(x)); return x; }
   struct alignas(ELEM_ALIGN) Elem
   {
      int v;
      unsigned tag;             // high half: magic
      volatile uintptr_t self;
      static uintptr_t disguise(const Elem *e) { return opaque(e); }
      enum : unsigned { MAGIC = 0x5A5A0000u };

      static bool live(const Elem *e) { return e->self == disguise(e); }
      static void touch(const void *p) { if ((uintptr_t)p >= g().watch_lo && (uintptr_t)p < g().watch_hi) ++g().touched; }
      void born()
      {
         touch(this);
         if (opaque(this) % ELEM_ALIGN) fail(LIFE, "element constructed at a misaligned address");
         // (not for elements of the harness: an empty list is a pointer to itself as well and can leave one behind on the stack)
         if (g().sut && live(this)) fail(LIFE, "element constructed over a live element");
         tag = MAGIC; self = disguise(this); ++g().live_elems;
      }
      static void use(const Elem *e, const char *what)
      {
         if (!live(e)) fail(LIFE, "%s a dead or never constructed element", what);
      }
      static void make() { if (g().sut) ++g().made; }
      Elem() { born(); v = 0; ++g().ctors; make(); }
      explicit Elem(int x) { born(); v = x; ++g().ctors; make(); }
      Elem(const Elem &o) { use(&o, "copy from"); int t = o.v; born(); v = t; ++g().copies; make(); }
      Elem &operator=(const Elem &o)
      {
         use(&o, "assignment from"); use(this, "assignment to");
         touch(this);
         ++g().assigns; v = o.v; make(); return *this;
      }
      ~Elem()
      {
         ++g().dtors;
         touch(this);
         if (!live(this)) fail(LIFE, "destruction of a dead or never constructed element");
         else --g().live_elems;
         volatile int *pv = &v; *pv = (int)0xDEADDEAD;
         volatile unsigned *pt = &tag; *pt = 0xDEADDEADu;
         self = (uintptr_t)0xDEADDEADDEADDEADull;
      }
   };
   inline void weigh() { if (g().sut) ++g().weighed; }
   inline bool operator==(const Elem &a, const Elem &b) { Elem::use(&a, "comparison of"); Elem::use(&b, "comparison of"); ++g().cmps; weigh(); return a.v == b.v; }
   inline bool operator!=(const Elem &a, const Elem &b) { return !(a == b); }
   inline bool operator<(const Elem &a, const Elem &b) { Elem::use(&a, "comparison of"); Elem::use(&b, "comparison of"); ++g().cmps; weigh(); return a.v < b.v; }
   inline bool operator>(const Elem &a, const Elem &b) { return b < a; }
   inline bool operator<=(const Elem &a, const Elem &b) { return !(b < a); }
   inline bool operator>=(const Elem &a, const Elem &b) { return !(a < b); }

   template<class T> struct V;
   template<> struct V<Elem>
   {
      static int get(const Elem &e) { Elem::use(&e, "read of"); return e.v; }
      static const char *name() { return "Elem"; }
   };
   template<> struct V<int>
   {
      static int get(const int &e) { return e; }
      static const char *name() { return "int"; }
   };
   template<> struct V<char>
   {
      static int get(const char &e) { return e; }
      static const char *name() { return "char"; }
   };

   // values whose == is not the identity: 0.0 and -0.0 are equal, a NaN equals nothing
   template<> struct V<double>
   {
      static double mk(int v) { return v == 0 ? 0.0 : v == 1 ? -0.0 : v == 2 ? 1.0 : __builtin_nan(""); }
      static int get(const double &e) { return e == 1.0 ? 2 : e != e ? 3 : e == 0.0 ? !!__builtin_signbit(e) : -1000; }
      static const char *name() { return "double"; }
   };
   // values that are equivalent (neither is less) without being equal
   struct Keyed { int v; };
   inline bool operator==(const Keyed &a, const Keyed &b) { return a.v == b.v; }
   inline bool operator<(const Keyed &a, const Keyed &b) { return a.v / 2 < b.v / 2; }
   template<> struct V<Keyed>
   {
      static int get(const Keyed &e) { return e.v; }
      static const char *name() { return "Keyed"; }
   };
   template<class T> struct Num
   {
      static T mk(int v) { return T(v); }
      static bool eq(int a, int b) { return a == b; }
      static bool lt(int a, int b) { return a < b; }
   };
   template<> struct Num<Keyed>
   {
      static Keyed mk(int v) { const Keyed k = { v }; return k; }
      static bool eq(int a, int b) { return a == b; }
      static bool lt(int a, int b) { return a / 2 < b / 2; }
   };
   template<> struct Num<double>
   {
      static double mk(int v) { return V<double>::mk(v); }
      static bool eq(int a, int b) { return V<double>::mk(a) == V<double>::mk(b); }
      static bool lt(int a, int b) { return V<double>::mk(a) < V<double>::mk(b); }
   };
   template<class T> bool seq_eq(const std::vector<int> &a, const std::vector<int> &b)
   {
      if (a.size() != b.size()) return false;
      for (size_t i = 0; i < a.size(); ++i) if (!Num<T>::eq(a[i], b[i])) return false;
      return true;
   }

   // a source range of c elements: v w v w ..
   template<class T> struct SrcSeq
   {
      std::vector<T> a;
      SrcSeq(int c, int v, int w) { a.reserve(c); for (int i = 0; i < c; ++i) a.push_back(Num<T>::mk(i & 1 ? w : v)); }
      const T *f() const { return a.data(); }
      const T *l() const { return a.data() + a.size(); }
   };

   // a random access iterator of class type
   template<class T> struct RA
   {
      typedef T value_type;
      typedef const T *pointer;
      typedef const T &reference;
      typedef ptrdiff_t difference_type;
      const T *p;
      explicit RA(const T *x = 0): p(x) {}
      const T &operator*() const { return *p; }
      const T *operator->() const { return p; }
      RA &operator++() { ++p; return *this; }
      RA operator++(int) { RA t(*this); ++p; return t; }
      RA &operator--() { --p; return *this; }
      RA operator+(ptrdiff_t n) const { return RA(p + n); }
      RA &operator+=(ptrdiff_t n) { p += n; return *this; }
      ptrdiff_t operator-(const RA &o) const { return p - o.p; }
      bool operator==(const RA &o) const { return p == o.p; }
      bool operator!=(const RA &o) const { return p != o.p; }
      bool operator<(const RA &o) const { return p < o.p; }
   };

   // ---------------------------------------------------------------- exact-size storage for objects under test
   template<class C> struct Box
   {
      void *mem;
      bool alive;
      // with over-aligned elements: objects that need less than 16 are put where they have only what they need
      enum { ODD = ELEM_ALIGN > 8 && alignof(C) < 16 ? 8 : 0 };
      Box(): mem(0), alive(false) {}
      void raw()
      {
         release();
         char *p = (char *)malloc(sizeof(C) + ODD);
         if (ODD) __asan_poison_memory_region(p, ODD);
         mem = p + ODD;
         memset(mem, 0xA5, sizeof(C));
      }
      void release() { if (mem) { if (ODD) __asan_unpoison_memory_region((char *)mem - ODD, ODD); free((char *)mem - ODD); mem = 0; } }
      C *operator->() { return (C *)mem; }
      C &operator*() { return *(C *)mem; }
      const C &c() const { return *(const C *)mem; }
      template<class... A> void make(A &&...a)
      {
         raw();
         Sut s;
         ::new (mem) C(static_cast<A &&>(a)...);
         alive = true;
      }
      void kill()
      {
         if (alive) { Sut s; ((C *)mem)->~C(); alive = false; }
         release();
      }
      ~Box() { release(); }
   };

   // ---------------------------------------------------------------- canonical form
   struct Canon
   {
      struct Region { uintptr_t base; size_t size; int id; };
      std::vector<Region> reg;          // sorted by base
      std::vector<int> order;           // discovery order (index into reg)
      std::vector<std::pair<uintptr_t, size_t> > roots;
      uint64_t h1 = 0x243F6A8885A308D3ull, h2 = 0x13198A2E03707344ull;
      const std::map<int, int> *rank = 0;  // element values are replaced by their rank
      bool dump = false;
      std::string text;

      void put(uint64_t x)
      {
         h1 ^= x; h1 *= 0x9FB21C651E98DF25ull; h1 ^= h1 >> 29; h1 *= 0xBF58476D1CE4E5B9ull; h1 ^= h1 >> 32;
         h2 += x * 0xD6E8FEB86659FD93ull; h2 ^= h2 >> 31; h2 *= 0x94D049BB133111EBull; h2 ^= h2 >> 27; h2 += 0x632BE59BD9B4E019ull;
         if (dump) { char b[32]; snprintf(b, sizeof b, "%llx ", (unsigned long long)x); text += b; }
      }
      std::vector<std::pair<uintptr_t, uintptr_t> > masks; // unused storage, its contents are ignored
      void mask(const void *p, const void *e) { if (p < e) masks.push_back(std::make_pair((uintptr_t)p, (uintptr_t)e)); }
      bool masked(uintptr_t a) const
      {
         for (size_t i = 0; i < masks.size(); ++i) if (a >= masks[i].first && a < masks[i].second) return true;
         return false;
      }
      void root(const void *p, size_t n) { roots.push_back(std::make_pair((uintptr_t)p, n)); }
      void value(uint64_t x) { extra.push_back(x); }
      std::vector<uint64_t> extra;

      int lookup(uintptr_t w, bool end_ok)
      {
         size_t lo = 0, hi = reg.size();
         while (lo < hi) { size_t m = (lo + hi) / 2; if (reg[m].base <= w) lo = m + 1; else hi = m; }
         if (!lo) return -1;
         Region &r = reg[lo - 1];
         if (w < r.base + r.size || (end_ok && w == r.base + r.size)) return (int)lo - 1;
         return -1;
      }
      int ival(int v) const
      {
         if (!rank) return v;
         std::map<int, int>::const_iterator i = rank->find(v);
         return i == rank->end() ? v : 0x10000 + i->second;
      }
      void run()
      {
         Ledger &L = ledger();
         for (unsigned i = 0; i < L.n; ++i) { Region r = { L.blk[i].base, L.blk[i].size, -1 }; reg.push_back(r); }
         for (size_t i = 0; i < roots.size(); ++i) { Region r = { roots[i].first, roots[i].second, -1 }; reg.push_back(r); }
         std::sort(reg.begin(), reg.end(), [](const Region &a, const Region &b) { return a.base < b.base; });
         for (size_t i = 0; i < roots.size(); ++i)
         {
            int k = lookup(roots[i].first, true);
            reg[k].id = (int)order.size();
            order.push_back(k);
         }
         for (size_t q = 0; q < order.size(); ++q)
         {
            Region r = reg[order[q]];
            put(0xB10C000000000000ull | r.size);
            uintptr_t a = r.base;
            size_t left = r.size;
            while (left >= 8)
            {
               uint64_t w; memcpy(&w, (void *)a, 8);
               if (!masks.empty())
                  for (int b = 0; b < 8; ++b) if (masked(a + b)) ((unsigned char *)&w)[b] = 0xEE;
               if (left >= 16 && (w >> 32) == Elem::MAGIC)
               {
                  uint64_t s; memcpy(&s, (void *)(a + 8), 8);
                  if (s == a)
                  {
                     put(0xE1E3000000000000ull | (uint32_t)ival((int)(uint32_t)w));
                     a += 16; left -= 16;
                     continue;
                  }
               }
               int k = lookup(w, true);
               if (k >= 0)
               {
                  if (reg[k].id < 0) { reg[k].id = (int)order.size(); order.push_back(k); }
                  put(0xF000000000000000ull | ((uint64_t)reg[k].id << 32) | (w - reg[k].base));
               }
               else if ((w >> 40) >= 0x50 && (w >> 40) <= 0x7f)
                  put(0xBADBADBADBADBADull); // a pointer to something that is no longer there
               else
                  put(w);
               a += 8; left -= 8;
            }
            while (left) { put(masked(a) ? 0xEE : *(unsigned char *)a); ++a; --left; }
         }
         unsigned lost = 0; uint64_t lostsize = 0;
         for (size_t i = 0; i < reg.size(); ++i) if (reg[i].id < 0) { ++lost; lostsize += reg[i].size; }
         put(0x1057000000000000ull | lost); put(lostsize);
         for (size_t i = 0; i < extra.size(); ++i) put(extra[i]);
      }
   };

   // ---------------------------------------------------------------- configuration
   struct Cfg
   {
      std::map<std::string, std::string> kv;
      std::string get(const char *k, const char *d = "") const
      {
         std::map<std::string, std::string>::const_iterator i = kv.find(k);
         return i == kv.end() ? d : i->second;
      }
      long num(const char *k, long d) const
      {
         std::map<std::string, std::string>::const_iterator i = kv.find(k);
         return i == kv.end() ? d : strtol(i->second.c_str(), 0, 0);
      }
      bool has(const char *k, const char *item) const // comma separated list contains item
      {
         std::string s = "," + get(k) + ",";
         return s.find("," + std::string(item) + ",") != std::string::npos;
      }
   };

   inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

   inline std::string jstr(const std::string &s)
   {
      std::string r = "\"";
      for (size_t i = 0; i < s.size(); ++i)
      {
         unsigned char c = s[i];
         if (c == '"' || c == '\\') { r += '\\'; r += c; }
         else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
         else r += c;
      }
      return r + "\"";
   }
   inline std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
   inline std::string strf(const char *fmt, ...)
   {
      char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
      return b;
   }

   // ---------------------------------------------------------------- watch dog
   static int hang_limit = 10; // seconds of processor time for one transition
   inline void on_tick(int)
   {
      static unsigned long last = 0; static int same = 0;
      if (g().beat == last) { if (++same >= hang_limit) stop_marker(1); }
      else { last = g().beat; same = 0; }
   }
   inline void start_watchdog()
   {
      struct sigaction sa; memset(&sa, 0, sizeof sa);
      sa.sa_handler = on_tick;
      sigaction(SIGVTALRM, &sa, 0);
      struct itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
      setitimer(ITIMER_VIRTUAL, &it, 0);
   }

   // ---------------------------------------------------------------- what an operation may cost
   struct Spent
   {
      long al, cp, ct, as, dt, cm, mk, wg;
      Spent(): al(g().allocs), cp(g().copies), ct(g().ctors), as(g().assigns), dt(g().dtors), cm(g().cmps), mk(g().made), wg(g().weighed) {}
      Spent operator-(const Spent &o) const { Spent r; r.al = al - o.al; r.cp = cp - o.cp; r.ct = ct - o.ct; r.as = as - o.as; r.dt = dt - o.dt; r.cm = cm - o.cm; r.mk = mk - o.mk; r.wg = wg - o.wg; return r; }
   };
   // allocations of one operation, and the blocks held after it
   inline void economy(const char *op, const Spent &e, long limit, long blocks_lo, long blocks_hi)
   {
      if (!(g().classes & ALLOC)) return;
      MC_CHECK(ALLOC, e.al <= limit, "%s made %ld allocation(s), at most %ld are needed", op, e.al, limit);
      MC_CHECK(ALLOC, (long)ledger().n >= blocks_lo && (long)ledger().n <= blocks_hi, "%s: %ld memory block(s) are held, expected %ld..%ld", op, (long)ledger().n, blocks_lo, blocks_hi);
   }

   // elements created, copied or assigned and comparisons made by one operation; a few temporaries are nobody's business
   enum { TEMPORARIES = 8 };
   inline void effort(const char *op, const Spent &e, long made, long weighed)
   {
      if (!(g().classes & WORK)) return;
      MC_CHECK(WORK, e.mk <= made + TEMPORARIES, "%s created, copied or assigned %ld elements, at most %ld are needed", op, e.mk, made);
      MC_CHECK(WORK, e.wg <= weighed, "%s made %ld comparisons, at most %ld are needed", op, e.wg, weighed);
   }

   // every byte of the objects under test and of the memory they own
   struct Snapshot
   {
      std::vector<std::pair<uintptr_t, std::string> > part;
      long blocks; Spent sp; long live;
      template<class Sys> explicit Snapshot(Sys &s)
      {
         Canon c;
         s.canon(c);
         Ledger &L = ledger();
         for (unsigned i = 0; i < L.n; ++i) part.push_back(std::make_pair(L.blk[i].base, std::string((const char *)L.blk[i].base, L.blk[i].size)));
         for (size_t i = 0; i < c.roots.size(); ++i) part.push_back(std::make_pair(c.roots[i].first, std::string((const char *)c.roots[i].first, c.roots[i].second)));
         blocks = L.n; live = g().live_elems;
      }
      void same(const char *what, bool strict = false) const
      {
         const Spent e = Spent() - sp;
         if (strict) MC_CHECK(PURE, !e.cp && !e.ct && !e.dt, "%s created, copied or destroyed elements", what);
         MC_CHECK(PURE, (long)ledger().n == blocks && (!strict || !e.al), "%s allocated or released memory", what);
         MC_CHECK(PURE, !e.as && g().live_elems == live, "%s assigned or lost elements", what);
         if ((long)ledger().n != blocks) return;
         for (size_t i = 0; i < part.size(); ++i)
            if (memcmp((const void *)part[i].first, part[i].second.data(), part[i].second.size())) { fail(PURE, "%s changed the object or its memory", what); return; }
      }
   };
   template<class T> inline void sink(const T &x) { const void *volatile p = &x; (void)p; }
   template<class I> void run_through(I i, I e) { for (long n = 0; i != e && n < 1000000; ++i, ++n) sink(*i); }
   template<class Sys> auto call_queries(Sys &s, int) -> decltype(s.queries(), void()) { s.queries(); }
   template<class Sys> void call_queries(Sys &, long) {}

   // ---------------------------------------------------------------- explorer
   struct Key { uint64_t a, b; bool operator==(const Key &o) const { return a == o.a && b == o.b; } };
   struct KeyHash { size_t operator()(const Key &k) const { return k.a; } };

   // Sys interface:
   //   Sys(const Cfg &, const Hist *whole)  whole: the complete history about to be executed (or 0)
   //   void ops(std::vector<Op> &)          operations enabled in the current (model) state
   //   void apply(const Op &)               execute on the real object and the model, judge results
   //   void check()                         full observation
   //   void canon(Canon &)                  roots
   //   void destroy()                       destroy the objects
   //   std::string str(const Op &)
   template<class Sys> struct Explorer
   {
      const Cfg &cfg;
      struct Node { uint32_t parent; uint32_t depth; Op op; bool leaf; Key key; };
      std::vector<Node> nodes;
      std::unordered_map<Key, uint32_t, KeyHash> seen;
      long transitions = 0, replayed = 0, traces = 0, trace_steps = 0, pruned = 0, maxdepth = 0, oplen = 0;
      std::map<int, long> opcount;
      std::vector<std::string> samples;
      std::string foreign_sample;
      bool closed = false, viol = false;
      std::string stop_reason;
      int vclass = 0; std::string vmsg; Hist vhist;

      explicit Explorer(const Cfg &c): cfg(c) {}

      void path(uint32_t n, Hist &h) const
      {
         h.clear();
         for (; n; n = nodes[n].parent) h.push_back(nodes[n].op);
         std::reverse(h.begin(), h.end());
      }
      void publish(const Hist &h, const Op *extra)
      {
         Shared *s = g().shared;
         ++g().beat;
         if (!s) return;
         size_t n = h.size();
         if (n + 1 > HISTMAX) abort();
         if (n) memcpy(s->ops, &h[0], n * sizeof(Op));
         if (extra) s->ops[n++] = *extra;
         s->n = (uint32_t)n;
      }
      void clear_flags() { g().failed = g().foreign = false; g().fclass = 0; }
      // the full observation; it must not change anything
      void observe(Sys &s)
      {
         if (!(g().classes & PURE)) { s.check(); return; }
         Snapshot fresh(s); // a change that only the first observation makes must be seen too
         s.check(); // learns addresses
         if (g().failed || g().foreign) return;
         fresh.same("the first observation");
         Snapshot a(s);
         call_queries(s, 0);
         a.same("a query");
         Snapshot b(s);
         s.check();
         b.same("iteration, a lookup or another observation");
      }
      Key key_of(Sys &s)
      {
         Canon c;
         s.canon(c);
         c.run();
         Key k = { c.h1, c.h2 };
         return k;
      }
      void finish(Sys &s)
      {
         s.destroy();
         if (ledger().n) fail(MEM, "%u memory block(s) still allocated after the object(s) were destroyed", ledger().n);
         if (g().live_elems > 0) fail(LIFE, "%ld element(s) never destroyed", g().live_elems);
         if (g().live_elems < 0) fail(LIFE, "%ld element(s) destroyed too often", -g().live_elems);
      }
      void reset_runtime()
      {
         Ledger &L = ledger();
         for (unsigned i = 0; i < L.n; ++i) free((void *)L.blk[i].base);
         if (L.n) { L.n = 0; L.rehash(); }
         g().live_elems = 0; g().live_bytes = 0; g().sut = 0;
      }
      bool record(const Hist &h)
      {
         if (!g().failed) return false;
         viol = true; vclass = g().fclass; vmsg = g().fmsg; vhist = h;
         return true;
      }
      std::string text(Sys &s, const Hist &h)
      {
         std::string r;
         for (size_t i = 0; i < h.size(); ++i) { if (i) r += "; "; r += s.str(h[i]); }
         return r;
      }
      std::string text(const Hist &h) { Sys s(cfg, &h); std::string r = text(s, h); s.destroy(); return r; }

      bool run()
      {
         const long maxd = cfg.num("depth", 1000000), maxstates = cfg.num("max_states", 3000000);
         const double t0 = now(), tlimit = cfg.num("time", 600);
         std::vector<Op> ops;
         Hist h;
         clear_flags();
         publish(h, 0);
         {
            Sys s(cfg, 0);
            observe(s);
            Node n; n.parent = 0; n.depth = 0; n.leaf = true; n.key = key_of(s);
            nodes.push_back(n);
            seen[n.key] = 0;
            finish(s);
            if (record(h)) return false;
            reset_runtime();
         }
         bool cut = false;
         for (uint32_t cur = 0; cur < nodes.size(); ++cur)
         {
            if ((long)nodes[cur].depth >= maxd) { cut = true; continue; }
            path(cur, h);
            clear_flags();
            publish(h, 0);
            {
               Sys s(cfg, &h);
               for (size_t i = 0; i < h.size(); ++i) s.apply(h[i]);
               ops.clear();
               s.ops(ops);
               s.destroy();
               reset_runtime();
            }
            for (size_t k = 0; k < ops.size(); ++k)
            {
               if ((transitions & 255) == 0 && (now() - t0 > tlimit)) { stop_reason = "time"; cut = true; break; }
               h.push_back(ops[k]);
               if (!step(cur, h)) return false;
               h.pop_back();
               if ((long)nodes.size() > maxstates) { stop_reason = "max_states"; cut = true; break; }
            }
            if (!stop_reason.empty()) break;
         }
         closed = !cut;
         return validate(t0, tlimit * 2);
      }
      bool step(uint32_t cur, Hist &h)
      {
         const Op op = h.back();
         clear_flags();
         publish(h, 0);
         Sys s(cfg, &h);
         for (size_t i = 0; i + 1 < h.size(); ++i) s.apply(h[i]), ++replayed;
         s.check(); // the model learns the addresses of the elements here
         clear_flags();
         s.apply(op);
         ++transitions; ++opcount[op.c];
         if (!g().failed && !g().foreign) observe(s);
         bool bad = g().failed || g().foreign;
         Key k = { 0, 0 };
         if (!bad) k = key_of(s);
         if (!bad) finish(s);
         if (record(h)) return false;
         if (g().foreign) { ++pruned; if (foreign_sample.empty()) foreign_sample = g().foreignmsg + " after " + text(s, h); reset_runtime(); return true; }
         reset_runtime();
         std::pair<std::unordered_map<Key, uint32_t, KeyHash>::iterator, bool> ins = seen.insert(std::make_pair(k, (uint32_t)nodes.size()));
         if (ins.second)
         {
            Node n; n.parent = cur; n.depth = nodes[cur].depth + 1; n.op = op; n.leaf = true; n.key = k;
            nodes[cur].leaf = false;
            if ((long)n.depth > maxdepth) maxdepth = n.depth;
            nodes.push_back(n);
         }
         return true;
      }
      // run every maximal history of the BFS tree again, fully observed at each
      // step; the same states must be met in the same order
      bool validate(double t0, double tlimit)
      {
         Hist h;
         const long lim = cfg.num("validate", 20000);
         long leaves = 0;
         for (uint32_t i = 0; i < nodes.size(); ++i) leaves += nodes[i].leaf;
         long stride = leaves > lim ? (leaves + lim - 1) / lim : 1, idx = 0;
         for (uint32_t i = 0; i < nodes.size(); ++i)
         {
            if (!nodes[i].leaf) continue;
            if (idx++ % stride) continue;
            if (now() - t0 > tlimit) break;
            path(i, h);
            std::vector<uint32_t> chain;
            for (uint32_t n = i; n; n = nodes[n].parent) chain.push_back(n);
            clear_flags();
            publish(h, 0);
            Sys s(cfg, &h);
            for (size_t j = 0; j < h.size() && !g().failed && !g().foreign; ++j)
            {
               ++g().beat;
               s.apply(h[j]);
               observe(s);
               ++trace_steps;
               if (!g().failed && !g().foreign && !(key_of(s) == nodes[chain[h.size() - 1 - j]].key))
               {
                  fprintf(stderr, "HARNESS: canonical state differs on re-execution: %s\n", text(s, h).c_str());
                  stop_reason = "nondeterminism";
                  s.destroy(); reset_runtime();
                  return true;
               }
            }
            if (!g().failed && !g().foreign) finish(s);
            if (record(h)) return false;
            reset_runtime();
            ++traces;
            if (samples.size() < 3 && (traces & (traces - 1)) == 0 && h.size() > 1) samples.push_back(text(h)), reset_runtime();
         }
         if (samples.empty() && nodes.size() > 1) { path((uint32_t)nodes.size() - 1, h); samples.push_back(text(h)); reset_runtime(); }
         return true;
      }

      // replay one history, observing after every step
      bool replay(const Hist &h)
      {
         clear_flags();
         Sys s(cfg, &h);
         publish(h, 0);
         observe(s);
         for (size_t j = 0; j < h.size() && !g().failed; ++j) // as in step()
         {
            printf("  %zu: %s\n", j + 1, s.str(h[j]).c_str());
            fflush(stdout);
            clear_flags();
            s.apply(h[j]);
            if (!g().failed) observe(s);
         }
         if (!g().failed) finish(s);
         if (g().failed)
         {
            printf("  => [%s] %s\n", class_name(g().fclass), g().fmsg.c_str());
            return false;
         }
         printf("  => no violation\n");
         return true;
      }
   };

   inline std::string hex(const Hist &h)
   {
      std::string r;
      for (size_t i = 0; i < h.size(); ++i)
      {
         const unsigned char *p = (const unsigned char *)&h[i];
         for (size_t k = 0; k < sizeof(Op); ++k) r += strf("%02x", p[k]);
         r += ' ';
      }
      return r;
   }
   inline Hist unhex(const std::string &s)
   {
      Hist h; size_t i = 0;
      while (i < s.size())
      {
         while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) ++i;
         if (i + 2 * sizeof(Op) > s.size()) break;
         Op op; unsigned char *p = (unsigned char *)&op;
         for (size_t k = 0; k < sizeof op; ++k) p[k] = (unsigned char)strtoul(s.substr(i + 2 * k, 2).c_str(), 0, 16);
         h.push_back(op);
         i += 2 * sizeof(Op);
      }
      return h;
   }

   template<class Sys> int drive(const Cfg &cfg)
   {
      Explorer<Sys> ex(cfg);
      if (cfg.kv.count("replay"))
      {
         g().replaying = true;
         start_watchdog();
         return ex.replay(unhex(cfg.get("replay"))) ? 0 : 1;
      }
      if (cfg.kv.count("decode"))
      {
         Hist h = unhex(cfg.get("decode"));
         printf("%s\n", ex.text(h).c_str());
         return 0;
      }
      hang_limit = cfg.num("hang", hang_limit);
      start_watchdog();
      double t0 = now();
      bool ok = ex.run();
      std::string hs; 
      if (!ok) { ex.reset_runtime(); hs = hex(ex.vhist); }
      FILE *f = fopen(cfg.get("out", "/dev/stdout").c_str(), "w");
      if (!f) { perror("out"); return 2; }
      fprintf(f, "{\"ok\": %s, \"states\": %zu, \"transitions\": %ld, \"replayed_ops\": %ld, \"traces\": %ld, \"trace_steps\": %ld, \"pruned\": %ld, \"maxdepth\": %ld, \"closed\": %s, \"stop\": %s, \"wall\": %.2f",
              ok ? "true" : "false", ex.nodes.size(), ex.transitions, ex.replayed, ex.traces, ex.trace_steps, ex.pruned, ex.maxdepth, ex.closed ? "true" : "false", jstr(ex.stop_reason).c_str(), now() - t0);
      fprintf(f, ", \"soft\": %ld", g().soft);
      fprintf(f, ", \"foreign\": %s", jstr(ex.foreign_sample).c_str());
      fprintf(f, ", \"ops\": {");
      bool first = true;
      for (std::map<int, long>::iterator i = ex.opcount.begin(); i != ex.opcount.end(); ++i, first = false)
         fprintf(f, "%s%s: %ld", first ? "" : ", ", jstr(Sys::opname(i->first)).c_str(), i->second);
      fprintf(f, "}, \"samples\": [");
      for (size_t i = 0; i < ex.samples.size(); ++i) fprintf(f, "%s%s", i ? ", " : "", jstr(ex.samples[i]).c_str());
      fprintf(f, "], \"known\": {");
      first = true;
      for (std::map<std::string, long>::iterator i = g().known_hits.begin(); i != g().known_hits.end(); ++i, first = false)
         fprintf(f, "%s%s: %ld", first ? "" : ", ", jstr(i->first).c_str(), i->second);
      fprintf(f, "}");
      if (!ok)
         fprintf(f, ", \"class\": %s, \"message\": %s, \"hist\": %s", jstr(class_name(ex.vclass)).c_str(), jstr(ex.vmsg).c_str(), jstr(hs).c_str());
      fprintf(f, "}\n");
      fclose(f);
      if (g().shared) g().shared->marker = 3;
      return ok ? 0 : 1;
   }

   inline Cfg parse(int argc, char **argv)
   {
      Cfg cfg;
      for (int i = 1; i < argc; ++i)
      {
         char *eq = strchr(argv[i], '=');
         if (!eq) { fprintf(stderr, "argument: %s\n", argv[i]); exit(2); }
         cfg.kv[std::string(argv[i], eq - argv[i])] = eq + 1;
      }
      if (cfg.kv.count("classes"))
      {
         int m = 0;
         for (const ClassName *p = class_names; p->n; ++p) if (cfg.has("classes", p->n)) m |= p->c;
         g().classes = m;
      }
      std::string k = cfg.get("known");
      while (!k.empty())
      {
         size_t c = k.find(',');
         g().known_on[k.substr(0, c)] = "";
         k = c == std::string::npos ? "" : k.substr(c + 1);
      }
      if (cfg.kv.count("hist"))
      {
         int fd = open(cfg.get("hist").c_str(), O_RDWR | O_CREAT, 0600);
         if (fd < 0 || ftruncate(fd, sizeof(Shared))) { perror("hist"); exit(2); }
         g().shared = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
         g().shared->magic = 0x4d43; g().shared->n = 0; g().shared->marker = 0;
      }
      ledger();
      return cfg;
   }

   // ---------------------------------------------------------------- sequence model
   struct Item { int v; const void *addr; Item(int x = 0, const void *a = 0): v(x), addr(a) {} };
   typedef std::vector<Item> Seq;
   inline std::string seq_str(const Seq &s)
   {
      std::string r = "[";
      for (size_t i = 0; i < s.size(); ++i) r += strf(i ? ",%d" : "%d", s[i].v);
      return r + "]";
   }

   // one traversal, front to back; records addresses not known yet
   template<class It> void walk(const char *what, It i, It e, Seq &m, bool addrs)
   {
      size_t n = 0;
      for (; n < m.size(); ++n, ++i)
      {
         if (!(i != e)) { fail(VALUE, "%s: ends after %zu of %zu elements; expected %s", what, n, m.size(), seq_str(m).c_str()); return; }
         if (i == e) { fail(VALUE, "%s: == and != of iterators disagree", what); return; }
         int v = V<typename std::remove_cv<typename std::remove_reference<decltype(*i)>::type>::type>::get(*i);
         if (v != m[n].v) { fail(VALUE, "%s: element %zu is %d, expected %d in %s", what, n, v, m[n].v, seq_str(m).c_str()); return; }
         const void *a = &*i;
         if (addrs)
         {
            if (!m[n].addr) m[n].addr = a;
            else if (m[n].addr != a) fail(STABLE, "%s: element %zu (%d) is not the same object any more", what, n, v);
         }
      }
      if (i != e) fail(VALUE, "%s: more than the expected %zu elements %s", what, m.size(), seq_str(m).c_str());
      else if (!(i == e)) fail(VALUE, "%s: == and != of iterators disagree at the end", what);
   }

   // every operation of the iterators p (and their const counterparts c) to consecutive positions of one container;
   // d: there is an element at the position
   template<class It> auto arrow(const It &i) -> decltype(&*i) { if constexpr (std::is_pointer<It>::value) return i; else return i.operator->(); }
   template<bool BIDI, class It, class P> void cursor(const char *nm, const std::vector<It> &p, const std::vector<char> &d, const std::vector<P> &a)
   {
      const int n = p.size();
      for (int i = 0; i < n; ++i) if (thin_pos(i, n))
      {
         Sut su;
         It x(p[i]);
         MC_CHECK(ITOP, x == p[i] && !(x != p[i]), "%s: a copy of iterator %d differs", nm, i);
         if (d[i])
         {
            MC_CHECK(ITOP, &*x == a[i] && arrow(x) == a[i], "%s: * and -> of iterator %d disagree", nm, i);
         }
         if (i + 1 < n)
         {
            It &r = ++x;
            MC_CHECK(ITOP, &r == &x, "%s: prefix ++ does not return the iterator", nm);
            MC_CHECK(ITOP, x == p[i + 1] && !(x == p[i]), "%s: prefix ++ from %d is wrong", nm, i);
            It y(p[i]);
            It o(y++);
            MC_CHECK(ITOP, y == p[i + 1] && o == p[i], "%s: postfix ++ from %d is wrong", nm, i);
            if (d[i]) { It z(p[i]); MC_CHECK(ITOP, &*z++ == a[i] && z == p[i + 1], "%s: *i++ at %d is wrong", nm, i); }
            y = p[i];
            MC_CHECK(ITOP, y == p[i] && x == p[i + 1], "%s: assignment of iterator %d", nm, i);
         }
         if constexpr (BIDI)
            if (i)
            {
               It z(p[i]);
               It &r = --z;
               MC_CHECK(ITOP, &r == &z, "%s: prefix -- does not return the iterator", nm);
               MC_CHECK(ITOP, z == p[i - 1] && !(z == p[i]) && (!d[i - 1] || &*z == a[i - 1]), "%s: prefix -- from %d is wrong", nm, i);
               It y(p[i]);
               It o(y--);
               MC_CHECK(ITOP, y == p[i - 1] && o == p[i], "%s: postfix -- from %d is wrong", nm, i);
               ++y;
               MC_CHECK(ITOP, y == p[i], "%s: -- and ++ from %d do not return", nm, i);
            }
         if constexpr (std::is_default_constructible<It>::value)
         {
            It z;
            z = p[i];
            It &self = z;
            z = self;
            MC_CHECK(ITOP, z == p[i] && !(z != p[i]), "%s: assignment of iterator %d", nm, i);
         }
      }
   }
   template<class A, class B> void cursor_eq(const char *nm, const std::vector<A> &p, const std::vector<B> &q)
   {
      const int n = p.size();
      for (int i = 0; i < n; ++i) if (thin_pos(i, n))
         for (int j = 0; j < n; ++j) if (n < 12 || !j || j == n - 1 || (j >= i - 1 && j <= i + 1))
         {
            Sut su;
            MC_CHECK(ITOP, (p[i] == q[j]) == (i == j) && (p[i] != q[j]) == (i != j), "%s: == or != of positions %d and %d is wrong", nm, i, j);
         }
   }
   template<bool BIDI, class It, class CIt> void cursors(const char *nm, const std::vector<It> &p, const std::vector<CIt> &c, const std::vector<char> &d)
   {
      if (!(g().classes & ITOP)) return;
      Harness h;
      std::vector<decltype(&*p[0])> a; std::vector<decltype(&*c[0])> ca;
      for (size_t i = 0; i < p.size(); ++i)
      {
         if (d[i]) { a.push_back(&*p[i]); ca.push_back(&*c[i]); MC_CHECK(ITOP, (const void *)a[i] == (const void *)ca[i], "%s: iterator and const_iterator %zu are at different elements", nm, i); }
         else { a.push_back(0); ca.push_back(0); }
         CIt x(p[i]), y(c[i]);
         y = p[i];
         MC_CHECK(ITOP, x == c[i] && y == c[i], "%s: conversion to const_iterator at %zu", nm, i);
      }
      cursor<BIDI>(nm, p, d, a);
      cursor<BIDI>((std::string(nm) + " const").c_str(), c, d, ca);
      cursor_eq(nm, p, p); cursor_eq((std::string(nm) + " const, const").c_str(), c, c);
      cursor_eq((std::string(nm) + " non-const, const").c_str(), p, c); cursor_eq((std::string(nm) + " const, non-const").c_str(), c, p);
   }
   // the positions of one container as its own iterators give them (no model involved), then every operation on them
   template<class It> bool positions(It i, const It &e, std::vector<It> &p)
   {
      for (int n = 0; n < 4096; ++n, ++i)
      {
         { Harness h; p.push_back(i); }
         const bool eq = i == e, ne = i != e;
         if (eq == ne) { fail(ITOP, "== and != of iterators disagree at position %d", n); return false; }
         if (eq) return true;
      }
      return false;
   }
   template<bool BIDI, class L, class It, class CIt> void own_cursors(const char *nm, L &l, const It *before, const CIt *cbefore)
   {
      if (!(g().classes & ITOP)) return;
      const L &c = l;
      std::vector<It> p; std::vector<CIt> q, r;
      bool whole, cwhole;
      {
         Sut su;
         whole = positions<It>(l.begin(), l.end(), p); cwhole = positions<CIt>(c.begin(), c.end(), q);
         if (positions<CIt>(c.cbegin(), c.cend(), r) != cwhole) cwhole = !whole;
      }
      Harness h;
      if (whole != cwhole || p.size() != q.size() || q.size() != r.size()) { fail(ITOP, "%s: iterator and const_iterator find %zu, %zu and %zu positions", nm, p.size(), q.size(), r.size()); return; }
      if (!whole) return;
      for (size_t i = 0; i < q.size(); ++i) MC_CHECK(ITOP, q[i] == r[i], "%s: begin() and cbegin() differ %zu positions on", nm, i);
      std::vector<char> d(p.size(), 1);
      d.back() = 0;
      if (before) { p.insert(p.begin(), *before); q.insert(q.begin(), *cbefore); d.insert(d.begin(), 0); }
      cursors<BIDI>(nm, p, q, d);
   }

   inline unsigned rd(unsigned x) { return x; }
}

// global allocation functions
#ifndef MC_NO_NEW
void *operator new(size_t n) { return mc::alloc(n, 0); }
void *operator new[](size_t n) { return mc::alloc(n, 1); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return mc::alloc(n, 0); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return mc::alloc(n, 1); }
void operator delete(void *p) noexcept { mc::dealloc(p, 0); }
void operator delete[](void *p) noexcept { mc::dealloc(p, 1); }
void operator delete(void *p, size_t) noexcept { mc::dealloc(p, 0); }
void operator delete[](void *p, size_t) noexcept { mc::dealloc(p, 1); }
void operator delete(void *p, const std::nothrow_t &) noexcept { mc::dealloc(p, 0); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { mc::dealloc(p, 1); }
#endif
#endif
