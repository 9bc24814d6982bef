// ttl/type_traits.hpp: the states are types, the transitions are type constructors.
// Every type of the grammar is instantiated at compile time; the answers of ttl and of the
// standard library are tabulated and the graph of types is then explored.
#include "ttl/type_traits.hpp"
#include "mc.hpp"
#include <type_traits>
using namespace mc;

#ifndef BASES
#define BASES 1
#endif
#ifndef DEPTH
#define DEPTH 3
#endif

enum Color { red }; enum class Scoped : unsigned char { one }; struct Klass { int x; }; class Abstract { virtual void f() = 0; }; union Onion { int a; char b; };

#define CTORS(X) X(BASE) X(CONST) X(VOLATILE) X(POINTER) X(LREF) X(RREF) X(ARRAY) X(UNBOUND) X(ARRAY1) X(ARRAY300) X(ARRAY65536) X(ARRAY_HUGE)
#define E(x) x,
enum { CTORS(E) NCT };
#undef E
#define N_(x) #x,
static const char *const names[] = { CTORS(N_) };
#undef N_

#define TRAITS(X) X(remove_const) X(remove_volatile) X(remove_cv) X(remove_reference) X(is_same) X(is_const) X(is_volatile) X(is_signed) X(is_unsigned) \
   X(is_void) X(is_integral) X(is_floating_point) X(is_arithmetic) X(is_fundamental) X(is_pointer) X(is_scalar) X(is_array)
#define E(x) T_##x,
enum { TRAITS(E) NTR };
#undef E
#define N_(x) #x,
static const char *const trait_names[] = { TRAITS(N_) };
#undef N_

struct Rec { std::string name; int succ[NCT]; unsigned ttl, std, bad; };
static std::vector<Rec> types;

// is the constructor applicable?
template<class T, int C> struct Make { enum { ok = 0 }; typedef void type; };
template<class T> struct is_ref: std::is_reference<T> {};
template<class T> struct unbounded: std::false_type {};
template<class T> struct unbounded<T[]>: std::true_type {};
template<bool B, class T> struct MakeIf { enum { ok = 0 }; typedef void type; };
template<class T> struct MakeIf<true, T> { enum { ok = 1 }; typedef typename T::type type; };
template<class T> struct Id { typedef T type; };
template<class T, size_t N = 3> struct Arr { typedef T type[N]; };
template<class T> struct Unb { typedef T type[]; };
template<class T> struct Make<T, CONST>: MakeIf<!std::is_function<T>::value && !is_ref<T>::value, std::add_const<T> > {};
template<class T> struct Make<T, VOLATILE>: MakeIf<!std::is_function<T>::value && !is_ref<T>::value, std::add_volatile<T> > {};
template<class T> struct Make<T, POINTER>: MakeIf<!is_ref<T>::value, std::add_pointer<T> > {};
template<class T> struct Make<T, LREF>: MakeIf<!std::is_void<T>::value, std::add_lvalue_reference<T> > {};
#ifndef OLD_CXX // no rvalue references
template<class T> struct Make<T, RREF>: MakeIf<!std::is_void<T>::value && !is_ref<T>::value, std::add_rvalue_reference<T> > {};
#endif
template<class T> struct can_array { enum { v = !std::is_void<T>::value && !is_ref<T>::value && !std::is_function<T>::value && !unbounded<T>::value && !std::is_abstract<T>::value }; };
template<class T> struct Make<T, ARRAY>: MakeIf<can_array<T>::v, Arr<T> > {};
template<class T> struct Make<T, ARRAY1>: MakeIf<can_array<T>::v, Arr<T, 1> > {};
template<class T> struct Make<T, ARRAY300>: MakeIf<can_array<T>::v, Arr<T, 300> > {};
template<class T, bool B> struct huge { enum { v = 0 }; };
template<class T> struct huge<T, true> { enum { v = sizeof(T) <= 1200 }; };
template<class T> struct Make<T, ARRAY65536>: MakeIf<huge<T, can_array<T>::v>::v, Arr<T, 65536> > {};
template<class T> struct Make<T, ARRAY_HUGE>: MakeIf<huge<T, can_array<T>::v>::v, Arr<T, 0x100000000ul> > {};
template<class T> struct Make<T, UNBOUND>: MakeIf<can_array<T>::v, Unb<T> > {};

// bool and the types the standard adds later are not among the documented signed/unsigned types
template<class T> struct integer { enum { v = std::is_integral<T>::value && !std::is_same<typename std::remove_cv<T>::type, bool>::value }; };

template<class T> struct Answers
{
#define BIT(i, x) ((unsigned)!!(x) << (i))
#define SAME(i, tr) BIT(i, (std::is_same<typename ttl::tr<T>::type, typename std::tr<T>::type>::value))
   // is_same against the neighbours
#define NB(U) (bool(ttl::is_same<T, typename U::type>::value) == std::is_same<T, typename U::type>::value && bool(ttl::is_same<typename U::type, T>::value) == std::is_same<typename U::type, T>::value)
   static constexpr bool neighbours = ttl::is_same<T, T>::value && NB(std::remove_const<T>) && NB(std::remove_volatile<T>) && NB(std::remove_reference<T>) && NB(std::remove_pointer<T>)
      && NB(std::add_const<T>) && NB(std::add_lvalue_reference<T>) && NB(Id<int>) && NB(Id<void>);
   static constexpr bool sgn = integer<T>::v || !std::is_arithmetic<T>::value;
   static constexpr unsigned of_ttl = SAME(T_remove_const, remove_const) | SAME(T_remove_volatile, remove_volatile) | SAME(T_remove_cv, remove_cv) | SAME(T_remove_reference, remove_reference) | BIT(T_is_same, neighbours)
      | BIT(T_is_const, ttl::is_const<T>::value) | BIT(T_is_volatile, ttl::is_volatile<T>::value) | (sgn ? BIT(T_is_signed, ttl::is_signed<T>::value) | BIT(T_is_unsigned, ttl::is_unsigned<T>::value) : 0)
      | BIT(T_is_void, ttl::is_void<T>::value) | BIT(T_is_integral, ttl::is_integral<T>::value) | BIT(T_is_floating_point, ttl::is_floating_point<T>::value) | BIT(T_is_arithmetic, ttl::is_arithmetic<T>::value)
      | BIT(T_is_fundamental, ttl::is_fundamental<T>::value) | BIT(T_is_pointer, ttl::is_pointer<T>::value) | BIT(T_is_scalar, ttl::is_scalar<T>::value) | BIT(T_is_array, ttl::is_array<T>::value);
   static constexpr unsigned of_std = BIT(T_remove_const, 1) | BIT(T_remove_volatile, 1) | BIT(T_remove_cv, 1) | BIT(T_remove_reference, 1) | BIT(T_is_same, 1)
      | BIT(T_is_const, std::is_const<T>::value) | BIT(T_is_volatile, std::is_volatile<T>::value) | (sgn ? BIT(T_is_signed, std::is_signed<T>::value) | BIT(T_is_unsigned, std::is_unsigned<T>::value) : 0)
      | BIT(T_is_void, std::is_void<T>::value) | BIT(T_is_integral, std::is_integral<T>::value) | BIT(T_is_floating_point, std::is_floating_point<T>::value) | BIT(T_is_arithmetic, std::is_arithmetic<T>::value)
      | BIT(T_is_fundamental, std::is_fundamental<T>::value) | BIT(T_is_pointer, std::is_pointer<T>::value) | BIT(T_is_scalar, std::is_arithmetic<T>::value || std::is_pointer<T>::value) | BIT(T_is_array, std::is_array<T>::value);
};

static int add(const char *pretty, unsigned a, unsigned s)
{
   Rec r;
   std::string n = pretty;
   const size_t p = n.find("T = ") + 4, e = n.find("; ", p);
   r.name = n.substr(p, (e == std::string::npos ? n.rfind(']') : e) - p);
   for (int i = 0; i < NCT; ++i) r.succ[i] = -1;
   r.ttl = a; r.std = s; r.bad = a ^ s;
   types.push_back(r);
   return types.size() - 1;
}
template<class T> struct Slot { static int id; };
template<class T> int Slot<T>::id = -1;
template<class T> int visit()
{
   if (Slot<T>::id < 0) Slot<T>::id = add(__PRETTY_FUNCTION__, Answers<T>::of_ttl, Answers<T>::of_std);
   return Slot<T>::id;
}
template<class T, int D> struct Walk
{
   template<int C> static void step()
   {
      typedef Make<T, C> M;
      if constexpr (M::ok)
      {
         const int to = visit<typename M::type>();
         types[Slot<T>::id].succ[C] = to;
         Walk<typename M::type, D - 1>::run();
      }
   }
   static void run()
   {
      static bool done;
      if (done) return;
      done = true;
      visit<T>();
      if constexpr (D > 0) { step<CONST>(); step<VOLATILE>(); step<POINTER>(); step<LREF>(); step<RREF>(); step<ARRAY>(); step<UNBOUND>();
#ifdef BOUNDS
         step<ARRAY1>(); step<ARRAY300>(); step<ARRAY65536>(); step<ARRAY_HUGE>();
#endif
         }
   }
};
static std::vector<int> bases;
template<class T, int D> void base() { Walk<T, D>::run(); bases.push_back(Slot<T>::id); }

struct TraitSys
{
   const Cfg &cfg;
   int cur;
   static const char *opname(int c) { return c < NCT ? names[c] : "?"; }
   TraitSys(const Cfg &c, const Hist *): cfg(c), cur(-1) {}
   void destroy() {}
   void canon(Canon &c) { c.value(cur + 1); }
   std::string str(const Op &p) { return p.c == BASE ? "BASE " + types[bases[p.a[0]]].name : std::string(names[p.c]); }
   void ops(std::vector<Op> &r)
   {
      if (cur < 0) { for (size_t i = 0; i < bases.size(); ++i) r.push_back(Op(BASE, i)); return; }
      for (int c = CONST; c < NCT; ++c) if (types[cur].succ[c] >= 0) r.push_back(Op(c));
   }
   void apply(const Op &p) { cur = p.c == BASE ? bases[p.a[0]] : types[cur].succ[p.c]; }
   void check()
   {
      if (cur < 0) return;
      const Rec &r = types[cur];
      for (int i = 0; i < NTR; ++i)
         if (r.bad >> i & 1)
         {
            if (i == T_remove_const || i == T_remove_volatile || i == T_remove_cv || i == T_remove_reference) fail(VALUE, "%s<%s>::type is not the standard one", trait_names[i], r.name.c_str());
            else if (i == T_is_same) fail(VALUE, "is_same is wrong for %s and a type derived from it", r.name.c_str());
            else fail(VALUE, "%s<%s>::value is %d, expected %d", trait_names[i], r.name.c_str(), r.ttl >> i & 1, r.std >> i & 1);
            return;
         }
   }
};

int main(int argc, char **argv)
{
   Cfg cfg = parse(argc, argv);
#if BASES == 1
   base<void, DEPTH>(); base<bool, DEPTH>(); base<char, DEPTH>(); base<signed char, DEPTH>(); base<unsigned char, DEPTH>(); base<wchar_t, DEPTH>();
   base<short, DEPTH>(); base<unsigned short, DEPTH>(); base<int, DEPTH>(); base<unsigned, DEPTH>(); base<long, DEPTH>(); base<unsigned long, DEPTH>(); base<long long, DEPTH>(); base<unsigned long long, DEPTH>();
   base<float, DEPTH>(); base<double, DEPTH>(); base<long double, DEPTH>();
   base<Color, DEPTH>(); base<Scoped, DEPTH>(); base<Klass, DEPTH>(); base<Abstract, DEPTH>(); base<Onion, DEPTH>(); base<int (*)(char), DEPTH>(); base<void (*)(), DEPTH>();
#elif BASES == 2
   base<int, DEPTH>();
#elif BASES == 5
   base<int, DEPTH>(); base<char, DEPTH>(); base<Klass, DEPTH>();
#elif BASES == 3
   base<void, DEPTH>(); base<int (*)(char), DEPTH>(); 
#else
   base<unsigned char, DEPTH>(); base<Klass, DEPTH>(); base<Color, DEPTH>();
#endif
   return drive<TraitSys>(cfg);
}
