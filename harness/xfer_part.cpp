#include "xfer.hpp"

#include <array>
#include <cfloat>
#include <climits>
#include <complex>
#include <cstring>
#include <exception>
#include <functional>
#include <initializer_list>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include <boost/coroutine2/all.hpp>

#ifndef PART
# error PART
#endif

namespace xfer {
namespace {

typedef std::uint32_t u32;
typedef std::uint64_t u64;
namespace co = boost::coroutines2;
using eng::VALUE; using eng::STABLE;

// mostly a hash, but small numbers and edge values for some seeds
inline u64 spread( u32 v) {
    static u64 const edge[] = { ~0ull, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x7full, 0x80ull, 0x7fffull, 0x8000ull, 0xffffull, ~0ull - 1, 0xffffffff80000000ull, 0x100000000ull, 0xdeadbeefull, 0xccccccccccccccccull };
    if ( 0 == v >> 28) return v & 0x1ff;
    if ( 1 == v >> 28) return edge[v & 15];
    u64 x = v * 0x9e3779b97f4a7c15ull; x ^= x >> 29; return x;
}

// Z: T, make( v), eq( T const&, v), stable (get may be repeated), f7 (get() empties: known finding), gone( T const&) (moved-from)
template< typename Z > struct RefSlots;

// by value
template< typename Z >
struct ByValue {
    typedef typename Z::T T;
    typedef typename co::coroutine< T >::pull_type pull_t;
    typedef typename co::coroutine< T >::push_type push_t;

    static bool stable() { return Z::stable; }
    // returns false if the value has been moved out
    template< typename C > static bool eq_iter( C & c, u32 v, void const** addr) {
        typename C::iterator i = begin( c), e = end( c);
        if ( i == e || ! ( i != e) ) eng::soft( VALUE | eng::VALID, "begin() == end() although a value is available");
        auto & r = * i;
        void const* a = std::addressof( r);
        if ( std::addressof( r) != i.operator->() ) eng::soft( STABLE | eng::ITER, "operator-> and operator* name different objects");
        if ( addr) * addr = a;
        return Z::eq( r, v);
    }
    template< typename C > static bool eq_get( C & c, u32 v) { T x( c.get() ); return Z::eq( x, v); }
    template< typename C > static int second_get( C & c, u32 v) {
        T x( c.get() );
        if ( Z::eq( x, v) ) return 1;
        return Z::gone( x) ? 0 : -1;
    }
    static bool eq_held( void const* p, u32 v) { return Z::eq( * static_cast< T const* >( p), v); }

    struct Original { void * p; bool touched; };
    template< typename P >
    static void push( P & p, u32 v, int form, Original & o, eng::Choices &) { push_( p, v, form, o, std::integral_constant< bool, Z::copyable >() ); }
    template< typename P >
    static void ret( P & p, P & r) { if ( & p != & r) eng::soft( eng::CONTROL, "call operator returned another object"); }
    // the sender keeps its own value or a moved-from object, nobody else's value
    static void moved_from( T const& x, u32 v) {
        if ( ! Z::stable && ! Z::gone( x) && ! Z::eq( x, v) ) eng::soft( VALUE | eng::PAYLOAD, "after pushing an rvalue the sender's object holds another value");
    }
    template< typename P >
    static void push_( P & p, u32 v, int form, Original & o, std::true_type) {
        o.p = nullptr; o.touched = false;
        switch ( form) {
        case 0: ret( p, p( Z::make( v) ) ); break;
        case 1: { T x( Z::make( v) ); ret( p, p( std::move( x) ) ); moved_from( x, v); break; }
        case 2: { T x( Z::make( v) ); o.p = std::addressof( x); ret( p, p( x) ); o.p = nullptr;
                if ( ! o.touched && ! Z::eq( x, v) ) eng::soft( VALUE, "lvalue changed by being pushed");
                break; }
        case 3: { T const x( Z::make( v) ); ret( p, p( x) ); if ( ! Z::eq( x, v) ) eng::soft( VALUE, "const lvalue changed by being pushed"); break; }
        default: { typename P::iterator i = begin( p); T x( Z::make( v) );
                  * i = x; if ( ! Z::eq( x, v) ) eng::soft( VALUE, "lvalue changed by being assigned to an iterator"); break; }
        }
    }
    template< typename P >
    static void push_( P & p, u32 v, int form, Original & o, std::false_type) {
        o.p = nullptr;
        if ( form & 1) { T x( Z::make( v) ); ret( p, p( std::move( x) ) ); moved_from( x, v); }
        else ret( p, p( Z::make( v) ) );
    }
    static bool touch( Original & o, u32 v) { return touch_( o, v, std::integral_constant< bool, Z::assignable >() ); }
    static bool touch_( Original & o, u32 v, std::true_type) { if ( ! o.p) return false; * static_cast< T * >( o.p) = Z::make( v); o.touched = true; return true; }
    static bool touch_( Original &, u32, std::false_type) { return false; }
};

// by reference: objects live in slots
template< typename Z >
struct ByRef {
    typedef typename Z::T R;                        // U & / U const&
    typedef typename std::remove_reference< R >::type U;
    typedef typename co::coroutine< R >::pull_type pull_t;
    typedef typename co::coroutine< R >::push_type push_t;
    static bool stable() { return true; }
    template< typename C > static bool eq_iter( C & c, u32 v, void const** addr) {
        typename C::iterator i = begin( c), e = end( c);
        if ( i == e || ! ( i != e) ) eng::soft( VALUE | eng::VALID, "begin() == end() although a value is available");
        R r = * i;
        if ( std::addressof( r) != i.operator->() ) eng::soft( STABLE | eng::ITER, "operator-> and operator* name different objects");
        if ( addr) * addr = addr_( r);
        return same_( r, v);
    }
    static void const* addr_( R r) { return const_cast< void const* >( static_cast< void const volatile * >( std::addressof( r) ) ); }
    static bool same_( R r, u32 v) { return addr_( r) == addr_( Z::slot( v) ) && Z::eq( r, v); }
    template< typename C > static bool eq_get( C & c, u32 v) { R r = c.get(); return same_( r, v); }
    template< typename C > static int second_get( C & c, u32 v) { return eq_get( c, v) ? 1 : -1; }
    static bool eq_held( void const* p, u32 v) { return p == addr_( Z::slot( v) ); }
    struct Original { void * p; bool touched; };
    template< typename P >
    static void push( P & p, u32 v, int form, Original & o, eng::Choices &) {
        o.p = nullptr; o.touched = false;
        R r = Z::slot( v);
        if ( 4 == form) { typename P::iterator i = begin( p); * i = r; return; }
        P & q = p( r);
        if ( & q != & p) eng::soft( eng::CONTROL, "call operator returned another object");
    }
    static bool touch( Original &, u32) { return false; }
};

template< typename D > void dirty_stack( D depth) {
    volatile unsigned char b[700];
    for ( unsigned i = 0; i < sizeof( b); ++i) b[i] = static_cast< unsigned char >( 0xC0 + i + depth);
    if ( depth > 0) dirty_stack( depth - 1);
    if ( b[3] != static_cast< unsigned char >( 0xC3 + depth) ) std::abort();
}

template< typename Z, template< typename > class By >
struct Driver {
    typedef By< Z > B;
    typedef typename B::pull_t pull_t;
    typedef typename B::push_t push_t;

    struct Plan {
        std::vector< u32 > vals; std::vector< int > form; unsigned depth;
        typename B::Original orig;
        unsigned sent;
    };
    static void make_plan( eng::Choices & ch, Plan & p, unsigned maxn) {
        static u32 const edge[] = { 0, 1, 0x7fffffffu, 0x80000000u, 0xffffffffu };
        unsigned n = ch.size( maxn);
        p.depth = ch.below( 4); p.sent = 0; p.orig.p = nullptr; p.orig.touched = false;
        for ( unsigned i = 0; i < n; ++i) {
            unsigned k = ch.below( 8);
            u32 v = 0 == k ? edge[ch.below( 5)] : 1 == k && i ? p.vals[ch.below( i)] : ch.below( 0xffffffffu);
            p.vals.push_back( v); p.form.push_back( static_cast< int >( ch.below( 5) ) );
        }
    }
    template< typename P >
    static void send_all( P & out, Plan & p, eng::Choices & ch, unsigned depth) {
        if ( depth > 0) { w::Pattern< 97 > pat( static_cast< unsigned char >( depth) ); send_all( out, p, ch, depth - 1); return; }
        for ( unsigned i = 0; i < p.vals.size(); ++i) { p.sent = i + 1; B::push( out, p.vals[i], p.form[i], p.orig, ch); }
    }
    // unrelated coroutines come and go
    static void churn( eng::Choices & ch) {
        Plan p; make_plan( ch, p, 3);
        pull_t g( [&]( push_t & out) { send_all( out, p, ch, p.depth); });
        unsigned take = ch.below( 3);
        for ( unsigned i = 0; i < take && g; ++i) {
            if ( ! B::eq_iter( g, p.vals[i], nullptr) ) eng::soft( VALUE, "value %u of an unrelated coroutine altered", i);
            g();
        }
    }
    struct Recv {
        eng::Choices & ch; bool dense; bool disturbed_reads; pull_t * comp; Plan * cplan; unsigned cpos; Plan * src;
    };
    static void comp_check( Recv & r) {
        if ( ! * r.comp) { if ( r.cpos != r.cplan->vals.size() ) eng::soft( VALUE, "companion coroutine delivered %u of %u values", r.cpos, static_cast< unsigned >( r.cplan->vals.size() ) ); return; }
        if ( r.cpos >= r.cplan->vals.size() || ! B::eq_iter( * r.comp, r.cplan->vals[r.cpos], nullptr) ) eng::soft( VALUE, "value %u of the companion coroutine altered", r.cpos);
    }
    // inspections of one received value; c is where the coroutine object is (it may move)
    static void inspect( Recv & r, pull_t ** home, pull_t & given, u32 v, unsigned idx) {
        eng::Choices & ch = r.ch;
        pull_t * c = home ? * home : & given;
        unsigned ops = r.dense ? 2 + ch.below( 7) : ch.below( 4);
        unsigned reads = 0; bool disturbed = false; void const* held = nullptr;
        auto bad = [&]( char const* how) { eng::soft( reads ? STABLE : VALUE | STABLE, "value %u: %s yields another value than was sent (inspection %u)", idx, how, reads); };
        for ( unsigned k = 0; k < ops; ++k) {
            switch ( ch.below( 10) ) {
            case 0: if ( ! * c || ! ! ! * c) eng::soft( eng::VALID | VALUE, "value %u: coroutine tests false", idx); break;
            case 1: case 2: {
                void const* a = nullptr;
                if ( ! B::eq_iter( * c, v, & a) ) bad( "iterator");
                if ( held && a != held) eng::soft( STABLE, "value %u: iterator yields a different object than before", idx);
                held = a;
                if ( disturbed && reads) r.disturbed_reads = true;
                ++reads; break; }
            case 3: if ( B::stable() ) { if ( ! B::eq_get( * c, v) ) bad( "get()"); if ( disturbed && reads) r.disturbed_reads = true; ++reads; } break;
            case 4: if ( held) { if ( ! B::eq_held( held, v) ) bad( "held reference"); if ( disturbed) r.disturbed_reads = true; ++reads; } break;
            case 5: if ( home) {
                    pull_t * d;
                    if ( ch.chance( 1, 2) ) d = new pull_t( std::move( * c) );
                    else { d = new pull_t( []( push_t &){}); * d = std::move( * c); }
                    if ( * c) eng::soft( eng::MOVE | STABLE, "moved-from coroutine tests true");
                    delete c; c = d; * home = d; disturbed = true;
                } break;
            case 6: if ( home && r.comp) { std::swap( * c, * r.comp); pull_t * x = c; c = r.comp; r.comp = x; * home = c; disturbed = true; comp_check( r); } break;
            case 7: if ( r.comp && * r.comp) { comp_check( r); ( * r.comp)(); ++r.cpos; comp_check( r); disturbed = true; } break;
            case 8: if ( B::touch( r.src->orig, v ^ 0x5a5a5a5au) ) disturbed = true; break;
            default: if ( ch.chance( 1, 2) ) churn( ch); else dirty_stack( static_cast< int >( ch.below( 12) ) ); disturbed = true; break;
            }
        }
        if ( 0 == reads && ! B::eq_iter( * c, v, nullptr) ) bad( "iterator");
        if ( ! B::stable() && ch.chance( 2, 3) ) {
            if ( ! B::eq_get( * c, v) ) bad( "get()");
            if ( Z::f7 && ch.chance( 1, 8) ) {
                int s = B::second_get( * c, v);
                if ( 0 == s) eng::known( "F7");
                else if ( s < 0) eng::soft( STABLE, "value %u: second get() yields an arbitrary value", idx);
            }
        }
    }
    static void run( eng::Choices & ch, bool dense) {
        Plan p; make_plan( ch, p, dense ? 12 : 60);
        Plan cp; make_plan( ch, cp, 12);
        bool dir_pull = ch.chance( 1, 2), got2 = false;
        unsigned stop = ch.chance( 1, 4) ? ch.below( static_cast< u32 >( p.vals.size() ) + 1) : static_cast< u32 >( p.vals.size() ) + 1;
        eng::shape( dir_pull); eng::shape( stop); eng::shape( p.depth);
        for ( unsigned i = 0; i < p.vals.size(); ++i) { eng::shape( p.vals[i]); eng::shape( p.form[i]); }
        eng::note( "%s, %u values, receiver stops after %u, depth %u", dir_pull ? "pull_type receives" : "push_type sends", static_cast< unsigned >( p.vals.size() ), stop, p.depth);
        for ( unsigned i = 0; i < p.vals.size() && i < 20; ++i) eng::note( "  value %u: seed %08x, push form %d", i, p.vals[i], p.form[i]);
        pull_t * companion = new pull_t( [&]( push_t & out) { send_all( out, cp, ch, cp.depth); });
        Recv r = { ch, dense, false, companion, & cp, 0, & p };
        unsigned n = 0;
        if ( dir_pull) {
            pull_t * c = new pull_t( [&]( push_t & out) { send_all( out, p, ch, p.depth); });
            while ( * c && n < stop) {
                if ( n >= p.vals.size() ) eng::soft( VALUE, "received more values than were sent");
                if ( p.sent != n + 1) eng::soft( VALUE | eng::CONTROL, "sender is at value %u while value %u is received", p.sent, n);
                inspect( r, & c, * c, p.vals[n], n);
                eng::trace( p.vals[n]); ++n;
                if ( n < stop) { pull_t & x = ( * c)(); if ( & x != c) eng::soft( eng::CONTROL, "call operator returned another object"); }
            }
            if ( n < stop && n != p.vals.size() ) eng::soft( VALUE, "received %u of %u values", n, static_cast< unsigned >( p.vals.size() ) );
            delete c;
        } else {
            unsigned depth = p.depth; p.depth = ch.below( 3);
            push_t sink( [&]( pull_t & in) { receive( r, in, p, n, stop, depth); });
            if ( ! sink) eng::soft( eng::VALID, "fresh push_type tests false");
            send_checked( sink, p, ch, n, stop, p.depth);
        }
        delete r.comp;
        got2 = n >= 2;
        if ( dense ? r.disturbed_reads : got2) eng::nontrivial();
    }
    static void receive( Recv & r, pull_t & in, Plan & p, unsigned & n, unsigned stop, unsigned depth) {
        if ( depth > 0) { w::Pattern< 61 > pat( static_cast< unsigned char >( depth) ); receive( r, in, p, n, stop, depth - 1); return; }
        while ( n < stop && in) {
            if ( n >= p.vals.size() ) eng::soft( VALUE, "received more values than were sent");
            if ( p.sent != n + 1) eng::soft( VALUE | eng::CONTROL, "sender is at value %u while value %u is received", p.sent, n);
            inspect( r, nullptr, in, p.vals[n], n);
            ++n;
            if ( n < stop) in();
        }
    }
    static void send_checked( push_t & out, Plan & p, eng::Choices & ch, unsigned & n, unsigned stop, unsigned depth) {
        if ( depth > 0) { w::Pattern< 97 > pat( static_cast< unsigned char >( depth) ); send_checked( out, p, ch, n, stop, depth - 1); return; }
        for ( unsigned i = 0; i < p.vals.size(); ++i) {
            p.sent = i + 1;
            B::push( out, p.vals[i], p.form[i], p.orig, ch);
            if ( 0 == stop) { if ( out) eng::soft( eng::VALID, "push_type tests true after its function returned"); return; }
            if ( n != i + 1) eng::soft( VALUE | eng::CONTROL, "after pushing %u values %u have been received", i + 1, n);
            if ( n == stop) { if ( out) eng::soft( eng::VALID, "push_type tests true after its function returned"); return; }
            if ( ! out) eng::soft( eng::VALID, "push_type tests false while its function is suspended");
        }
    }
};

template< typename Z > void run_value( eng::Choices & ch, bool dense) { Driver< Z, ByValue >::run( ch, dense); }
template< typename Z > void run_ref( eng::Choices & ch, bool dense) { Driver< Z, ByRef >::run( ch, dense); }

// ---- types ------------------------------------------------------------------------------------
struct Flags { static bool const stable = true, copyable = true, assignable = true, f7 = false; };
template< typename X, typename T_ >
struct Plain : Flags { typedef T_ T; static bool eq( T const& t, u32 v) { T x = X::make( v); return t == x; } static bool gone( T const&) { return false; } };
// bitwise
template< typename X, typename T_ >
struct Bits : Flags { typedef T_ T; static bool eq( T const& t, u32 v) { T x = X::make( v); return 0 == std::memcmp( & t, & x, sizeof( T) ); } static bool gone( T const&) { return false; } };

#if PART == 0
template< typename I > struct ZI : Plain< ZI< I >, I > { static I make( u32 v) { return static_cast< I >( spread( v) ); } };
template<> struct ZI< bool > : Plain< ZI< bool >, bool > { static bool make( u32 v) { return spread( v) & 1; } };
struct ZFloat : Bits< ZFloat, float > { static float make( u32 v) { float f; std::memcpy( & f, & v, 4); return f; } };
struct ZDouble : Bits< ZDouble, double > { static double make( u32 v) { u64 b = spread( v); if ( 0 == ( v & 7) ) b |= 0x7ff0000000000000ull; double f; std::memcpy( & f, & b, 8); return f; } };
struct ZLD : Plain< ZLD, long double > { static long double make( u32 v) { return ( v & 1 ? -1.0L : 1.0L) * static_cast< long double >( spread( v) ) / 3.0L; } };
enum class E8 : unsigned char { A, B = 200 };
enum E32 { E_A, E_MAX = 0x7fffffff };
struct ZE8 : Plain< ZE8, E8 > { static E8 make( u32 v) { return static_cast< E8 >( spread( v) & 0xff); } };
struct ZE32 : Plain< ZE32, E32 > { static E32 make( u32 v) { return static_cast< E32 >( spread( v) & 0x7fffffff); } };
int arena[256];
struct ZPtr : Plain< ZPtr, int * > { static int * make( u32 v) { return v % 17 ? arena + v % 256 : nullptr; } };
struct ZCVPtr : Plain< ZCVPtr, void const* > { static void const* make( u32 v) { return reinterpret_cast< char const* >( arena) + v % 1024; } };
template< int N > int fn( int x) { return x + N; }
struct ZFn : Plain< ZFn, int (*)( int) > { static T make( u32 v) { static T const t[] = { fn< 0 >, fn< 1 >, fn< 2 >, nullptr }; return t[v & 3]; } };
struct Agg { int a, b, c; int f() { return 1; } int g() { return 2; } };
struct ZMem : Plain< ZMem, int Agg::* > { static T make( u32 v) { static T const t[] = { & Agg::a, & Agg::b, & Agg::c, nullptr }; return t[v & 3]; } };
struct ZMemFn : Plain< ZMemFn, int (Agg::*)() > { static T make( u32 v) { static T const t[] = { & Agg::f, & Agg::g, nullptr, & Agg::f }; return t[v & 3]; } };
struct ZNull : Plain< ZNull, std::nullptr_t > { static T make( u32) { return nullptr; } static bool eq( T const&, u32) { return true; } };
#if defined(__SIZEOF_INT128__)
__extension__ typedef unsigned __int128 u128;
struct Z128 : Plain< Z128, u128 > { static T make( u32 v) { return static_cast< u128 >( spread( v) ) << 64 | spread( ~v); } };
#endif

#elif PART == 1
template< unsigned N, unsigned A > struct alignas( A) Blob { unsigned char b[N]; };
template< unsigned N, unsigned A > struct ZBlob : Flags {
    typedef Blob< N, A > T;
    static T make( u32 v) { T t; for ( unsigned i = 0; i < N; ++i) t.b[i] = static_cast< unsigned char >( spread( v + i / 8) >> ( i % 8 * 8) ); return t; }
    static bool eq( T const& t, u32 v) {
        if ( reinterpret_cast< std::uintptr_t >( & t) % A) eng::soft( eng::ALIGN, "value of alignment %u at misaligned address", A);
        T x = make( v); return 0 == std::memcmp( t.b, x.b, N); }
    static bool gone( T const&) { return false; }
};
struct Empty {};
struct ZEmpty : Flags { typedef Empty T; static T make( u32) { return T(); } static bool eq( T const&, u32) { return true; } static bool gone( T const&) { return false; } };
struct ZArr : Plain< ZArr, std::array< int, 5 > > { static T make( u32 v) { T t; for ( unsigned i = 0; i < 5; ++i) t[i] = static_cast< int >( spread( v + i) ); return t; } };
struct ZPair : Plain< ZPair, std::pair< int, double > > { static T make( u32 v) { return T( static_cast< int >( v), v * 0.5); } };
struct ZTup : Plain< ZTup, std::tuple< char, long, short > > { static T make( u32 v) { return T( static_cast< char >( v), static_cast< long >( spread( v) ), static_cast< short >( v >> 8) ); } };
struct ZCplx : Plain< ZCplx, std::complex< double > > { static T make( u32 v) { return T( v, v * 3.0); } };
struct BF { unsigned a : 3, b : 11; unsigned long long c : 40; bool operator==( BF const& o) const { return a == o.a && b == o.b && c == o.c; } };
struct ZBF : Plain< ZBF, BF > { static T make( u32 v) { BF x; x.a = v & 7; x.b = ( v >> 3) & 2047; x.c = spread( v) & 0xffffffffffull; return x; } };
union Un { u64 a; double d; };
struct ZUn : Flags { typedef Un T; static T make( u32 v) { Un u; u.a = spread( v); return u; } static bool eq( T const& t, u32 v) { return t.a == spread( v); } static bool gone( T const&) { return false; } };
struct ConstMember { int const a; int const b; bool operator==( ConstMember const& o) const { return a == o.a && b == o.b; } };
struct ZCM : Plain< ZCM, ConstMember > { static bool const assignable = false; static T make( u32 v) { return ConstMember{ static_cast< int >( v), static_cast< int >( ~v) }; } };

#elif PART == 4
// types whose assignment, bitwise copy or brace initialisation differs from copy construction
template< bool Nx >
struct Self {           // trivial destructor, but knows its own address
    Self const* me; u32 a; u32 b;
    explicit Self( u32 v) : me( this), a( v), b( ~v) {}
    Self( Self const& o) noexcept( Nx) : me( this), a( o.a), b( o.b) { o.check(); }
    Self( Self && o) noexcept( Nx) : me( this), a( o.a), b( o.b) { o.check(); }
    Self & operator=( Self const& o) noexcept( Nx) { check(); o.check(); a = o.a; b = o.b; return * this; }
    void check() const { if ( me != this) eng::soft( VALUE | eng::PAYLOAD, "an object was relocated without its copy or move constructor"); }
};
template< bool Nx > struct ZSelf : Flags { typedef Self< Nx > T; static T make( u32 v) { return T( v); } static bool eq( T const& t, u32 v) { t.check(); return t.a == v && t.b == ~v; } static bool gone( T const&) { return false; } };
struct SelfMO {
    SelfMO * me; u32 a;
    explicit SelfMO( u32 v) : me( this), a( v) {}
    SelfMO( SelfMO && o) noexcept : me( this), a( o.a) { if ( o.me != & o) eng::soft( VALUE | eng::PAYLOAD, "an object was relocated without its move constructor"); o.a = ~o.a; }
};
struct ZSelfMO : Flags { static bool const stable = false, copyable = false, assignable = false; typedef SelfMO T; static T make( u32 v) { return T( v); } static bool eq( T const& t, u32 v) { return t.me == & t && t.a == v; } static bool gone( T const& t) { return true; } };
// proxies: assignment writes through
u32 cells[64];
u32 & cell( u32 v) { cells[v % 64] = v % 64 + 7; return cells[v % 64]; }
template< bool Nx >
struct Proxy {
    u32 * p;
    explicit Proxy( u32 & c) : p( & c) {}
    Proxy( Proxy const&) = default;
    Proxy & operator=( Proxy const& o) noexcept( Nx) { * p = * o.p; return * this; }
};
inline bool cells_ok() { for ( u32 i = 0; i < 64; ++i) if ( cells[i] && cells[i] != i + 7) return false; return true; }
template< bool Nx > struct ZProxy : Flags { static bool const assignable = false; typedef Proxy< Nx > T; static T make( u32 v) { return T( cell( v) ); } static bool eq( T const& t, u32 v) { return t.p == cells + v % 64 && cells_ok(); } static bool gone( T const&) { return false; } };
struct ZTupR : Flags { static bool const assignable = false; typedef std::tuple< u32 &, int > T; static T make( u32 v) { return T( cell( v), 3); } static bool eq( T const& t, u32 v) { return & std::get< 0 >( t) == cells + v % 64 && cells_ok(); } static bool gone( T const&) { return false; } };
struct ZPairR : Flags { static bool const assignable = false; typedef std::pair< u32 const&, u32 & > T; static T make( u32 v) { return T( cell( v + 1), cell( v) ); } static bool eq( T const& t, u32 v) { return & t.first == cells + ( v + 1) % 64 && & t.second == cells + v % 64 && cells_ok(); } static bool gone( T const&) { return false; } };
struct ZRefW : Flags { typedef std::reference_wrapper< u32 > T; static T make( u32 v) { return std::ref( cell( v) ); } static bool eq( T const& t, u32 v) { return & t.get() == cells + v % 64 && cells_ok(); } static bool gone( T const&) { return false; } };
struct RefMember { u32 & r; int const c; };
struct ZRefM : Flags { static bool const assignable = false; typedef RefMember T; static T make( u32 v) { return T{ cell( v), static_cast< int >( v) }; } static bool eq( T const& t, u32 v) { return & t.r == cells + v % 64 && t.c == static_cast< int >( v) && cells_ok(); } static bool gone( T const&) { return false; } };
std::vector< bool > & bits() { static std::vector< bool > b( 64, false); for ( u32 i = 0; i < 64; i += 3) b[i] = true; return b; }
struct ZVBool : Flags { static bool const assignable = false; typedef std::vector< bool >::reference T; static T make( u32 v) { return bits()[v % 64]; }
    static bool eq( T const& t, u32 v) {
        std::vector< bool > & b = bits(); u32 i = v % 64;
        for ( u32 k = 0; k < 64; ++k) if ( b[k] != ( 0 == k % 3) ) return false;
        b[i].flip(); bool r = static_cast< bool >( t) == b[i]; b[i].flip(); return r && static_cast< bool >( t) == b[i]; }
    static bool gone( T const&) { return false; } };
// brace initialisation wraps, parentheses copy
struct Json { u32 a; int depth; std::vector< Json > kids;
    explicit Json( u32 v) : a( v), depth( 0) {} Json( std::initializer_list< Json > l) : a( 0), depth( 1), kids( l) {} };
struct ZJson : Flags { static bool const stable = true; typedef Json T; static T make( u32 v) { return T( v); } static bool eq( T const& t, u32 v) { return 0 == t.depth && t.a == v && t.kids.empty(); } static bool gone( T const&) { return false; } };
// greedy constructor template: a non-const lvalue is wrapped rather than copied
struct Greedy { u32 a; bool wrapped;
    template< typename X, typename = typename std::enable_if< ! std::is_same< typename std::decay< X >::type, Greedy >::value || ( std::is_lvalue_reference< X >::value && ! std::is_const< typename std::remove_reference< X >::type >::value ) >::type >
    explicit Greedy( X && x) : a( num( x) ), wrapped( is( x) ) {}
    Greedy( Greedy const& o) : a( o.a), wrapped( o.wrapped) {} Greedy( Greedy && o) : a( o.a), wrapped( o.wrapped) {}
    Greedy & operator=( Greedy const&) = default;
    static u32 num( u32 v) { return v; } static u32 num( Greedy const& g) { return g.a; } static bool is( u32) { return false; } static bool is( Greedy const&) { return true; } };
struct ZGreedy : Flags { typedef Greedy T; static T make( u32 v) { return T( static_cast< u32 >( v) ); } static bool eq( T const& t, u32 v) { return ! t.wrapped && t.a == v; } static bool gone( T const&) { return false; } };
// copies and moves are told apart: a copy from a const lvalue, a move from an rvalue
struct Kind { u32 a; unsigned char how; explicit Kind( u32 v) : a( v), how( 0) {} Kind( Kind const& o) : a( o.a), how( 1) {} Kind( Kind && o) : a( o.a), how( 2) {} Kind & operator=( Kind const& o) { a = o.a; how = 1; return * this; } };
struct ZKind : Flags { typedef Kind T; static T make( u32 v) { return T( v); } static bool eq( T const& t, u32 v) { return t.a == v; } static bool gone( T const&) { return false; } };
struct VB0 { virtual ~VB0() {} u32 a; explicit VB0( u32 v) : a( v) {} };
struct VB1 : virtual VB0 { explicit VB1( u32 v) : VB0( v) {} }; struct VB2 : virtual VB0 { std::string s; explicit VB2( u32 v) : VB0( v), s( 3, 'x') {} };
struct Diamond : VB1, VB2 { explicit Diamond( u32 v) : VB0( v), VB1( v), VB2( v) {} Diamond( Diamond const&) = default; Diamond & operator=( Diamond const&) = delete; };
struct ZDiamond : Flags { static bool const assignable = false; typedef Diamond T; static T make( u32 v) { return T( v); } static bool eq( T const& t, u32 v) { VB1 const& x = t; VB0 const& y = static_cast< VB2 const& >( t); return x.a == v && y.a == v && & x.a == & y.a && t.s == "xxx" && dynamic_cast< Diamond const* >( & y) == & t; } static bool gone( T const&) { return false; } };
// counted objects: without members, small, large, over-aligned
struct Counted { Counted() noexcept { ++counted; } Counted( Counted const&) noexcept { ++counted; } Counted & operator=( Counted const&) = default; ~Counted() { --counted; } };
struct ZCount0 : Flags { typedef Counted T; static T make( u32) { return T(); } static bool eq( T const&, u32) { return true; } static bool gone( T const&) { return false; } };
template< unsigned N, unsigned A > struct alignas( A) CountedN : private Counted { unsigned char b[N]; explicit CountedN( u32 v) { for ( unsigned i = 0; i < N; ++i) b[i] = static_cast< unsigned char >( v + i); } };
template< unsigned N, unsigned A > struct ZCountN : Flags { typedef CountedN< N, A > T; static T make( u32 v) { return T( v); }
    static bool eq( T const& t, u32 v) { if ( reinterpret_cast< std::uintptr_t >( & t) % A) eng::soft( eng::ALIGN, "value of alignment %u at misaligned address", A); for ( unsigned i = 0; i < N; ++i) if ( t.b[i] != static_cast< unsigned char >( v + i) ) return false; return true; } static bool gone( T const&) { return false; } };
struct ZExc : Flags { typedef std::exception_ptr T; static bool const stable = false; static T make( u32 v) { return std::make_exception_ptr( v); } static bool eq( T const& t, u32 v) { if ( ! t) return false; try { std::rethrow_exception( t); } catch ( u32 x) { return x == v; } catch ( ...) {} return false; } static bool gone( T const& t) { return ! t; } };

#elif PART == 2
struct Movable : Flags { static bool const stable = false, f7 = true; };
inline std::string text( u32 v) { if ( 7 == v % 13) return std::string(); std::string s = std::to_string( v); while ( s.size() < 20 + v % 40) s += static_cast< char >( 'a' + v % 26); return s; }
struct ZStr : Movable { typedef std::string T; static T make( u32 v) { return text( v); } static bool eq( T const& t, u32 v) { return t == text( v); } static bool gone( T const& t) { return t.empty(); } };
struct ZSso : Movable { typedef std::string T; static T make( u32 v) { return std::to_string( v); } static bool eq( T const& t, u32 v) { return t == std::to_string( v); } static bool gone( T const& t) { return t.empty(); } };
struct ZVec : Movable { typedef std::vector< int > T; static T make( u32 v) { return T( v % 50, static_cast< int >( v) ); } static bool eq( T const& t, u32 v) { return t == make( v); } static bool gone( T const& t) { return t.empty(); } };
struct ZUP : Movable { typedef std::unique_ptr< u32 > T; static bool const copyable = false, f7 = false; static T make( u32 v) { return T( 3 == v % 9 ? nullptr : new u32( v) ); } static bool eq( T const& t, u32 v) { return 3 == v % 9 ? ! t : t && * t == v; } static bool gone( T const& t) { return ! t; } };
struct ZSP : Movable { typedef std::shared_ptr< u32 > T; static T make( u32 v) { return 3 == v % 9 ? T() : std::make_shared< u32 >( v); } static bool eq( T const& t, u32 v) { return 3 == v % 9 ? ! t : t && * t == v; } static bool gone( T const& t) { return ! t; } };
struct ZFun : Movable { typedef std::function< u32() > T; static T make( u32 v) { std::string s( 60, 'q'); return [v,s](){ return v + static_cast< u32 >( s.size() ); }; } static bool eq( T const& t, u32 v) { return t && t() == v + 60; } static bool gone( T const& t) { return ! t; } };
struct ZMap : Movable { typedef std::map< u32, std::string > T; static T make( u32 v) { T m; for ( u32 i = 0; i < 1 + v % 5; ++i) m[v + i] = text( v + i); return m; } static bool eq( T const& t, u32 v) { return t == make( v); } static bool gone( T const& t) { return t.empty(); } };
struct ZTupS : Movable { typedef std::tuple< std::string, int > T; static T make( u32 v) { return T( text( v), static_cast< int >( v) ); } static bool eq( T const& t, u32 v) { return t == make( v); } static bool gone( T const& t) { return std::get< 0 >( t).empty(); } };
template< typename P > struct ZPay : Movable { typedef P T; static T make( u32 v) { return T( v & 0xfffu); } static bool eq( T const& t, u32 v) { return t.read( "receiver") == ( v & 0xfffu); } static bool gone( T const& t) { return t.read( "receiver") == w::MOVED; } };
template< typename P > struct ZPayM : ZPay< P > { static bool const copyable = false, f7 = false; };
// only copies, never moves
struct CopyOnly { u32 a; std::string s; explicit CopyOnly( u32 v) : a( v), s( text( v) ) {} CopyOnly( CopyOnly const& o) : a( o.a), s( o.s) {} CopyOnly & operator=( CopyOnly const& o) { a = o.a; s = o.s; return * this; } };
struct ZCO : Flags { typedef CopyOnly T; static T make( u32 v) { return T( v); } static bool eq( T const& t, u32 v) { return t.a == v && t.s == text( v); } static bool gone( T const&) { return false; } };
// overloaded address-of, comma, greedy constructor and own operator new
struct Odd {
    u32 a;
    explicit Odd( u32 v) : a( v) {}
    Odd( Odd const& o) : a( o.a) {}
    Odd( Odd && o) : a( o.a) { o.a = ~o.a; }
    Odd & operator=( Odd const& o) { a = o.a; return * this; }
    Odd * operator&() const { eng::fail( VALUE, "overloaded operator& used"); }
    void operator,( Odd const&) const {}
    static void * operator new( std::size_t) { std::abort(); }
    static void operator delete( void *) { std::abort(); }
};
struct ZOdd : Movable { typedef Odd T; static T make( u32 v) { return T( v); } static bool eq( T const& t, u32 v) { return t.a == v; } static bool gone( T const&) { return true; } };
struct VBase { virtual ~VBase() {} virtual u32 id() const = 0; };
struct Poly : VBase { u32 a; std::string s; explicit Poly( u32 v) : a( v), s( text( v) ) {} u32 id() const override { return s == text( a) ? a : ~a; } };
struct ZPoly : Movable { static bool const f7 = true; typedef Poly T; static T make( u32 v) { return T( v); } static bool eq( T const& t, u32 v) { return static_cast< VBase const& >( t).id() == v; } static bool gone( T const& t) { return t.id() == ~t.a; } };
struct MoveEx { std::unique_ptr< u32 > p; std::vector< int > v; MoveEx( MoveEx &&) = default; MoveEx & operator=( MoveEx &&) = default; explicit MoveEx( u32 x) : p( new u32( x) ), v( 3, static_cast< int >( x) ) {} };
struct ZME : Movable { static bool const copyable = false, f7 = false; typedef MoveEx T; static T make( u32 v) { return T( v); } static bool eq( T const& t, u32 v) { return t.p && * t.p == v && t.v == std::vector< int >( 3, static_cast< int >( v) ); } static bool gone( T const& t) { return ! t.p; } };
struct ZVUP : Movable { static bool const copyable = false, f7 = false; typedef std::pair< int, std::unique_ptr< std::string > > T; static T make( u32 v) { return T( static_cast< int >( v), std::unique_ptr< std::string >( new std::string( text( v) ) ) ); } static bool eq( T const& t, u32 v) { return t.first == static_cast< int >( v) && t.second && * t.second == text( v); } static bool gone( T const& t) { return ! t.second; } };

#else
template< typename U > struct SlotsOf { static U & get( u32 v) { static U s[32]; return s[v % 32]; } };
struct RefFlags : Flags {};
template< typename U > struct ZRI : RefFlags { typedef U & T; typedef typename std::remove_cv< U >::type P; static T slot( u32 v) { return SlotsOf< P >::get( v); } static bool eq( U const&, u32) { return true; } };
struct AbsA { virtual ~AbsA() {} virtual int f() const = 0; };
struct AbsB { virtual ~AbsB() {} int pad; };
struct Der : AbsB, AbsA { int f() const override { return 42; } };
struct ZRAbs : RefFlags { typedef AbsA & T; static T slot( u32 v) { return SlotsOf< Der >::get( v); } static bool eq( AbsA const& a, u32) { return 42 == a.f(); } };
typedef int Arr[4];
struct ZRArr : RefFlags { typedef Arr & T; static T slot( u32 v) { static Arr s[8]; return s[v % 8]; } static bool eq( Arr const&, u32) { return true; } };
struct Amp { int a; Amp * operator&() const { eng::fail( VALUE, "overloaded operator& used"); } };
struct ZRAmp : RefFlags { typedef Amp & T; static T slot( u32 v) { static Amp s[8]; return s[v % 8]; } static bool eq( Amp const&, u32) { return true; } };
struct NoCopy { NoCopy() : x( 7) {} NoCopy( NoCopy const&) = delete; NoCopy & operator=( NoCopy const&) = delete; int x; };
struct Incomplete; Incomplete & incomplete_slot( u32);
struct ZRInc : RefFlags { typedef Incomplete & T; static T slot( u32 v) { return incomplete_slot( v); } static bool eq( Incomplete const&, u32) { return true; } };
#endif

}

#define V(z) { Entry e = { #z, & run_value< z > }; out.push_back( e); }
#define R(z) { Entry e = { #z, & run_ref< z > }; out.push_back( e); }

#if PART == 0
void part0( std::vector< Entry > & out) {
    V( ZI< bool >) V( ZI< char >) V( ZI< short >) V( ZI< int >) V( ZI< unsigned long long >) V( ZI< char32_t >) V( ZFloat) V( ZDouble) V( ZLD)
    V( ZE8) V( ZE32) V( ZPtr) V( ZCVPtr) V( ZFn) V( ZMem) V( ZMemFn) V( ZNull)
#if defined(__SIZEOF_INT128__)
    V( Z128)
#endif
}
#elif PART == 1
typedef ZBlob< 1, 1 > B1; typedef ZBlob< 3, 1 > B3; typedef ZBlob< 7, 1 > B7; typedef ZBlob< 12, 4 > B12; typedef ZBlob< 24, 8 > B24; typedef ZBlob< 64, 64 > B64; typedef ZBlob< 255, 1 > B255; typedef ZBlob< 4096, 8 > B4096; typedef ZBlob< 10000, 16 > B10000;
typedef ZBlob< 16, 16 > A16; typedef ZBlob< 32, 32 > A32; typedef ZBlob< 128, 128 > A128; typedef ZBlob< 5, 256 > A256; typedef ZBlob< 100, 4096 > A4096;
void part1( std::vector< Entry > & out) {
    V( B1) V( B3) V( B7) V( B12) V( B24) V( B64) V( B255) V( B4096) V( B10000) V( A16) V( A32) V( A128) V( A256) V( A4096) V( ZEmpty) V( ZArr) V( ZPair) V( ZTup) V( ZCplx) V( ZBF) V( ZUn) V( ZCM)
}
#elif PART == 2
typedef ZPay< w::Tracked > ZTracked; typedef ZPay< w::Big > ZBig; typedef ZPayM< w::MoveOnly > ZMoveOnly;
void part2( std::vector< Entry > & out) {
    V( ZStr) V( ZSso) V( ZVec) V( ZUP) V( ZSP) V( ZFun) V( ZMap) V( ZTupS) V( ZTracked) V( ZBig) V( ZMoveOnly) V( ZCO) V( ZOdd) V( ZPoly) V( ZME) V( ZVUP)
}
#elif PART == 4
typedef ZCountN< 1, 1 > ZCount1; typedef ZCountN< 40, 8 > ZCount40; typedef ZCountN< 5000, 1 > ZCount5000; typedef ZCountN< 100, 128 > ZCountA;
typedef ZSelf< true > ZSelfN; typedef ZSelf< false > ZSelfT; typedef ZProxy< true > ZProxyN; typedef ZProxy< false > ZProxyT;
void part4( std::vector< Entry > & out) {
    V( ZSelfN) V( ZSelfT) V( ZSelfMO) V( ZProxyN) V( ZProxyT) V( ZTupR) V( ZPairR) V( ZRefW) V( ZRefM) V( ZVBool) V( ZJson) V( ZGreedy) V( ZKind) V( ZDiamond) V( ZExc) V( ZCount0) V( ZCount1) V( ZCount40) V( ZCount5000) V( ZCountA)
}
#else
void part3( std::vector< Entry > & out) {
    R( ZRI< int >) R( ZRI< int const >) R( ZRI< volatile int >) R( ZRI< std::string >) R( ZRI< std::string const >) R( ZRI< std::unique_ptr< int > >) R( ZRI< NoCopy >) R( ZRI< char >) R( ZRI< double const >) R( ZRAbs) R( ZRArr) R( ZRAmp) R( ZRInc)
}
namespace { struct Incomplete { long x[3]; }; Incomplete & incomplete_slot( u32 v) { static Incomplete s[16]; return s[v % 16]; } }
#endif

}
