// Exception harness: a zoo of exception types thrown in many ways through trees of coroutines of all kinds.
// Oracle: at most one exception is in flight; every handler must see exactly that one, at the call that last entered the
// function it left, and no call may end normally while one is in flight.
#include "world.hpp"

#include <exception>
#include <functional>
#include <ios>
#include <map>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <utility>
#include <vector>

#include <boost/coroutine2/all.hpp>

namespace {

typedef std::uint32_t u32;
typedef std::uint64_t u64;
namespace co = boost::coroutines2;
using eng::EXC;

eng::Choices * CH;
long tracked;                          // exception objects alive
struct Flight { bool on; unsigned kind; u32 v; u32 from; } G;

// ---- exception types -----------------------------------------------------------------------------
struct Tracked {
    u32 a, b;
    explicit Tracked( u32 v) : a( v), b( ~v) { ++tracked; }
    Tracked( Tracked const& o) : a( o.a), b( o.b) { if ( a != ~b) eng::fail( EXC, "exception object damaged"); ++tracked; }
    ~Tracked() { if ( a != ~b) eng::fail( EXC, "exception object damaged or destroyed twice"); b = a; --tracked; }
    bool is( u32 v) const { return a == v && b == ~v; }
};
struct Empty {};
struct Mono : Tracked { std::unique_ptr< u32 > p; explicit Mono( u32 v) : Tracked( v), p( new u32( v) ) {} Mono( Mono && o) : Tracked( o), p( std::move( o.p) ) {} };
struct Big : Tracked { unsigned char c[5000]; explicit Big( u32 v) : Tracked( v) { for ( unsigned i = 0; i < sizeof( c); ++i) c[i] = static_cast< unsigned char >( v + i); } bool is( u32 v) const { for ( unsigned i = 0; i < sizeof( c); ++i) if ( c[i] != static_cast< unsigned char >( v + i) ) return false; return Tracked::is( v); } };
struct alignas( 16) Aligned : Tracked { u64 x, y; explicit Aligned( u32 v) : Tracked( v), x( v), y( ~x) {} bool is( u32 v) const { return 0 == reinterpret_cast< std::uintptr_t >( this) % 16 && Tracked::is( v) && x == v && y == ~x; } };
struct Poly : Tracked { explicit Poly( u32 v) : Tracked( v) {} Poly( Poly const&) = default; virtual ~Poly() {} virtual int who() const { return 1; } };
struct Derived : Poly { std::string s; explicit Derived( u32 v) : Poly( v), s( 40 + v % 7, 'd') {} int who() const override { return 2; } bool is( u32 v) const { return Poly::is( v) && s == std::string( 40 + v % 7, 'd') && 2 == who(); } };
struct V0 { u32 z; explicit V0( u32 v) : z( v) {} virtual ~V0() {} };
struct V1 : virtual V0 { explicit V1( u32 v) : V0( v) {} };
struct V2 : virtual V0 { explicit V2( u32 v) : V0( v) {} };
struct Diamond : V1, V2, Tracked { explicit Diamond( u32 v) : V0( v), V1( v), V2( v), Tracked( v) {} bool is( u32 v) const { return z == v && Tracked::is( v); } };
// not accessible as std::exception
struct Hidden : private std::exception, Tracked { explicit Hidden( u32 v) : Tracked( v) {} };
struct StdDerived : std::runtime_error, Tracked { explicit StdDerived( u32 v) : std::runtime_error( "derived " + std::to_string( v) ), Tracked( v) {} bool is( u32 v) const { return Tracked::is( v) && "derived " + std::to_string( v) == what(); } };
// derived from two standard exceptions: not catchable as std::exception (ambiguous)
struct Twice : std::runtime_error, std::bad_alloc, Tracked { explicit Twice( u32 v) : std::runtime_error( std::to_string( v) ), Tracked( v) {} bool is( u32 v) const { return Tracked::is( v) && std::to_string( v) == std::runtime_error::what(); } };
struct Final final : Tracked { explicit Final( u32 v) : Tracked( v) {} };
template< typename X > struct Tmpl : Tracked { X x; explicit Tmpl( u32 v) : Tracked( v), x( static_cast< X >( v) ) {} bool is( u32 v) const { return Tracked::is( v) && x == static_cast< X >( v); } };
enum class Code : unsigned short { A, B = 60000 };
// copying it after it was thrown is a fault
struct NoCopyLater : Tracked { bool thrown; explicit NoCopyLater( u32 v) : Tracked( v), thrown( false) {} NoCopyLater( NoCopyLater const& o) : Tracked( o), thrown( true) { if ( o.thrown) eng::fail( EXC, "a thrown exception object is copied"); } };
struct OwnsCoro : Tracked {
    std::shared_ptr< co::coroutine< u32 >::pull_type > p;
    explicit OwnsCoro( u32 v) : Tracked( v), p( std::make_shared< co::coroutine< u32 >::pull_type >( [v]( co::coroutine< u32 >::push_type & out) { Tracked t( v); for ( u32 i = 0; ; ++i) out( v + i); }) ) {}
    bool is( u32 v) const { if ( ! Tracked::is( v) || ! p || ! * p) return false; return * begin( * p) >= v; }
};
struct Base0 { virtual ~Base0() {} u32 q; };
struct Sub0 : Base0 {};
Sub0 subs[8];
int fn0( int x) { return x; } int fn1( int x) { return x + 1; }
struct NestErr { u32 n; explicit NestErr( u32 v) : n( v) {} virtual ~NestErr() {} };
struct Inner { unsigned kind; u32 v; };
std::vector< Inner > nested;
bool matches( unsigned kind, u32 v);

struct Kind { char const* name; void (* raise)( u32); bool (* is)( u32); };
// in a handler: is the handled exception a T (exactly) with value v
template< typename Z >
bool is_( u32 v) {
    try { throw; }
    // pointers by value: clang does not support references to them for rethrown exceptions
    catch ( typename std::conditional< std::is_pointer< typename Z::T >::value, typename Z::T, typename Z::T & >::type t) { return Z::eq( t, v); }
    catch ( ...) { return false; }
}
template< typename Z > void raise_( u32 v) { throw Z::make( v); }
template< typename T_ > struct Cls { typedef T_ T; static T make( u32 v) { return T( v); } static bool eq( T const& t, u32 v) { return typeid( t) == typeid( T) && t.is( v); } };
template< typename T_ > struct Num { typedef T_ T; static T make( u32 v) { return static_cast< T >( v); } static bool eq( T const& t, u32 v) { return t == static_cast< T >( v); } };
template< typename T_ > struct Std { typedef T_ T; static T make( u32 v) { return T( "message " + std::to_string( v) ); } static bool eq( T const& t, u32 v) { return typeid( t) == typeid( T) && "message " + std::to_string( v) == t.what(); } };
template< typename T_ > struct Plain { typedef T_ T; static T make( u32) { return T(); } static bool eq( T const& t, u32) { return typeid( t) == typeid( T); } };
struct ZStr { typedef std::string T; static T make( u32 v) { return std::string( v % 90, 's'); } static bool eq( T const& t, u32 v) { return t == make( v); } };
struct ZChars { typedef char const* T; static T make( u32 v) { static char const* t[] = { "a", "b", "", "long text" }; return t[v & 3]; } static bool eq( T const& t, u32 v) { return t == make( v); } };
struct ZPtr { typedef u32 * T; static T make( u32 v) { static u32 x[16]; return v % 5 ? x + v % 16 : nullptr; } static bool eq( T const& t, u32 v) { return t == make( v); } };
struct ZBasePtr { typedef Base0 * T; static Sub0 * make( u32 v) { return subs + v % 8; } static bool eq( T const& t, u32 v) { return t == make( v); } };
struct ZFn { typedef int (* T)( int); static T make( u32 v) { return v & 1 ? fn1 : fn0; } static bool eq( T const& t, u32 v) { return t == make( v); } };
struct ZNull { typedef std::nullptr_t T; static T make( u32) { return nullptr; } static bool eq( T const&, u32) { return true; } };
struct ZCode { typedef Code T; static T make( u32 v) { return static_cast< Code >( v & 0xffff); } static bool eq( T const& t, u32 v) { return t == make( v); } };
struct ZSys { typedef std::system_error T; static T make( u32 v) { return T( std::error_code( static_cast< int >( 1 + v % 100), std::generic_category() ), "sys" ); } static bool eq( T const& t, u32 v) { return t.code() == std::error_code( static_cast< int >( 1 + v % 100), std::generic_category() ) && typeid( t) == typeid( T); } };
struct ZIos { typedef std::ios_base::failure T; static T make( u32 v) { return T( "ios " + std::to_string( v) ); } static bool eq( T const& t, u32 v) { return std::string( t.what() ).find( "ios " + std::to_string( v) ) == 0; } };
struct ZEptr { typedef std::exception_ptr T; static T make( u32 v) { return std::make_exception_ptr( v); } static bool eq( T const& t, u32 v) { try { std::rethrow_exception( t); } catch ( u32 x) { return x == v; } catch ( ...) {} return false; } };
struct ZFunc { typedef std::function< u32() > T; static T make( u32 v) { return [v](){ return v; }; } static bool eq( T const& t, u32 v) { return t && t() == v; } };
struct ZVec { typedef std::vector< int > T; static T make( u32 v) { return T( v % 60, static_cast< int >( v) ); } static bool eq( T const& t, u32 v) { return t == make( v); } };
void raise_nested( u32 v) { std::throw_with_nested( NestErr( v) ); }
bool is_nested( u32 v) {
    try { throw; }
    catch ( NestErr const& e) {
        if ( e.n != v || v >= nested.size() ) return false;
        std::nested_exception const* n = dynamic_cast< std::nested_exception const* >( & e);
        if ( ! n || ! n->nested_ptr() ) return false;
        try { std::rethrow_exception( n->nested_ptr() ); }
        catch ( ...) { return matches( nested[v].kind, nested[v].v); }
    }
    catch ( ...) {}
    return false;
}
#define CLS( T) { #T, raise_< Cls< T > >, is_< Cls< T > > }
#define NUM( T) { #T, raise_< Num< T > >, is_< Num< T > > }
#define STD( T) { #T, raise_< Std< T > >, is_< Std< T > > }
#define PLAIN( T) { #T, raise_< Plain< T > >, is_< Plain< T > > }
#define Z( n, X) { n, raise_< X >, is_< X > }
Kind const zoo[] = {
    NUM( int), STD( std::runtime_error), CLS( Tracked), CLS( Derived), CLS( Poly), CLS( Mono), CLS( Big), CLS( Aligned), CLS( Diamond), CLS( Hidden), CLS( StdDerived), CLS( Twice), CLS( Final),
    CLS( Tmpl< short >), CLS( Tmpl< double >), CLS( NoCopyLater), CLS( OwnsCoro),
    NUM( unsigned long), NUM( bool), NUM( double), NUM( char), PLAIN( Empty), PLAIN( std::exception), PLAIN( std::bad_alloc), PLAIN( std::bad_cast), PLAIN( std::bad_exception), PLAIN( std::bad_function_call), PLAIN( std::bad_typeid),
    STD( std::logic_error), STD( std::out_of_range), STD( std::invalid_argument), STD( std::overflow_error), STD( std::domain_error),
    Z( "std::string", ZStr), Z( "char const*", ZChars), Z( "pointer", ZPtr), Z( "pointer to derived", ZBasePtr), Z( "pointer to function", ZFn), Z( "nullptr", ZNull), Z( "enumeration", ZCode), Z( "std::system_error", ZSys),
    Z( "std::ios_base::failure", ZIos), Z( "std::exception_ptr", ZEptr), Z( "std::function", ZFunc), Z( "std::vector", ZVec),
};
unsigned const ZOO = sizeof( zoo) / sizeof( zoo[0]), NESTED = ZOO;
bool matches( unsigned kind, u32 v) { return NESTED == kind ? is_nested( v) : zoo[kind].is( v); }
char const* kind_name( unsigned k) { return NESTED == k ? "nested" : zoo[k].name; }

// ---- coroutines ----------------------------------------------------------------------------------
struct Node;
struct Suspend { virtual ~Suspend() {} virtual void now() = 0; };
void body( Node &, Suspend &);
u32 next_id, next_v;
struct Node {
    u32 id; unsigned depth; int handlers; bool done, entered, forced;
    explicit Node( unsigned d) : id( ++next_id), depth( d), handlers( 0), done( false), entered( false), forced( false) {}
    virtual ~Node() {}
    virtual void start() = 0; virtual void resume() = 0; virtual bool valid() = 0; virtual void relocate() = 0; virtual void drop() = 0;
};
template< typename T > struct El { static T make( u32 v) { return T( v); } };
template< > struct El< std::string > { static std::string make( u32 v) { return std::to_string( v); } };
template< > struct El< std::unique_ptr< u32 > > { static std::unique_ptr< u32 > make( u32 v) { return std::unique_ptr< u32 >( new u32( v) ); } };
template< > struct El< u32 & > { static u32 & make( u32 v) { static u32 x[8]; return x[v % 8]; } };
template< typename T > struct PullN : Node {
    typedef typename co::coroutine< T >::pull_type P; typedef typename co::coroutine< T >::push_type Q;
    struct S : Suspend { Q & q; u32 n; explicit S( Q & x) : q( x), n( 0) {} void now() override { q( El< T >::make( n++) ); } };
    std::unique_ptr< P > p;
    explicit PullN( unsigned d) : Node( d) {}
    void start() override { Node * me = this; p.reset( new P( [me]( Q & q) { S s( q); body( * me, s); }) ); }
    void resume() override { ( * p)(); }
    bool valid() override { return p && static_cast< bool >( * p); }
    void relocate() override { P x( std::move( * p) ); p.reset( new P( std::move( x) ) ); }
    void drop() override { p.reset(); }
};
template< > struct PullN< void > : Node {
    typedef co::coroutine< void >::pull_type P; typedef co::coroutine< void >::push_type Q;
    struct S : Suspend { Q & q; explicit S( Q & x) : q( x) {} void now() override { q(); } };
    std::unique_ptr< P > p;
    explicit PullN( unsigned d) : Node( d) {}
    void start() override { Node * me = this; p.reset( new P( [me]( Q & q) { S s( q); body( * me, s); }) ); }
    void resume() override { ( * p)(); }
    bool valid() override { return p && static_cast< bool >( * p); }
    void relocate() override { P x( []( Q &){}); x = std::move( * p); p.reset( new P( std::move( x) ) ); }
    void drop() override { * p = P( []( Q &){}); p.reset(); }
};
template< typename T > struct PushN : Node {
    typedef typename co::coroutine< T >::pull_type P; typedef typename co::coroutine< T >::push_type Q;
    struct S : Suspend { P & p; explicit S( P & x) : p( x) {} void now() override { p(); } };
    std::unique_ptr< Q > q; u32 n;
    explicit PushN( unsigned d) : Node( d), n( 0) {}
    void start() override { Node * me = this; q.reset( new Q( [me]( P & p) { S s( p); body( * me, s); }) ); }
    void resume() override { ( * q)( El< T >::make( n++) ); }
    bool valid() override { return q && static_cast< bool >( * q); }
    void relocate() override { Q x( std::move( * q) ); q.reset( new Q( std::move( x) ) ); }
    void drop() override { * q = Q( []( P &){}); q.reset(); }
};
template< > struct PushN< void > : Node {
    typedef co::coroutine< void >::pull_type P; typedef co::coroutine< void >::push_type Q;
    struct S : Suspend { P & p; explicit S( P & x) : p( x) {} void now() override { p(); } };
    std::unique_ptr< Q > q;
    explicit PushN( unsigned d) : Node( d) {}
    void start() override { Node * me = this; q.reset( new Q( [me]( P & p) { S s( p); body( * me, s); }) ); }
    void resume() override { ( * q)(); }
    bool valid() override { return q && static_cast< bool >( * q); }
    void relocate() override { Q x( std::move( * q) ); q.reset( new Q( std::move( x) ) ); }
    void drop() override { q.reset(); }
};
Node * make_node( unsigned k, unsigned d) {
    switch ( k) {
    case 0: return new PullN< u32 >( d); case 1: return new PushN< u32 >( d); case 2: return new PullN< void >( d); case 3: return new PushN< void >( d);
    case 4: return new PullN< std::string >( d); case 5: return new PushN< std::string >( d); case 6: return new PullN< u32 & >( d); case 7: return new PushN< u32 & >( d);
    case 8: return new PullN< std::unique_ptr< u32 > >( d); default: return new PushN< std::unique_ptr< u32 > >( d);
    }
}
unsigned const NODES = 10, MAXDEPTH = 6;

// ---- events --------------------------------------------------------------------------------------
struct Held { std::exception_ptr p; unsigned kind; u32 v; };
std::vector< Held > held;
unsigned budget, thrown, crossed, handled;
int uncaught() {
#if defined( __cpp_lib_uncaught_exceptions) || __cplusplus >= 201703L
    return std::uncaught_exceptions();
#else
    return std::uncaught_exception() ? 1 : 0;
#endif
}
void launch( unsigned k, u32 v) {
    if ( G.on) eng::fail( EXC | eng::CONTROL, "code runs while an exception propagates");
    G.on = true; G.kind = k; G.v = v; G.from = 0; ++thrown;
    eng::trace( 0x7000 + k); eng::label( kind_name( k) );
}
// inside of a handler: the exception in flight has arrived
void arrived( u32 at) {
    if ( ! G.on) eng::fail( EXC, "%u: an exception arrives that was never thrown, or once more", at);
    if ( ! matches( G.kind, G.v) ) eng::fail( EXC, "%u: another exception arrives than %s with value %u", at, kind_name( G.kind), G.v);
    G.on = false; ++handled;
    eng::trace( 0x8000 + at); eng::trace( G.kind); eng::trace( G.v);
}
template< unsigned N > __attribute__((noinline)) void deep( unsigned k, u32 v, unsigned n) {
    volatile unsigned char b[N]; for ( unsigned i = 0; i < N; i += 8) b[i] = static_cast< unsigned char >( n);
    Tracked local( n);
    if ( n > 0) deep< N >( k, v, n - 1); else zoo[k].raise( v);
    if ( b[0] != n) std::abort();
}
struct ThrowInDtor { unsigned k; u32 v; ~ThrowInDtor() noexcept( false) { zoo[k].raise( v); } };
struct ThrowInCtor { Tracked a; std::unique_ptr< u32 > b; ThrowInCtor( unsigned k, u32 v) try : a( v), b( new u32( v) ) { zoo[k].raise( v); } catch ( ...) { throw; } };
void ftb( unsigned k, u32 v) try { zoo[k].raise( v); } catch ( ...) { throw; }
void do_throw( Node & n) {
    eng::Choices & ch = * CH;
    unsigned k = ch.below( ZOO), way = ch.below( 8); u32 v = ch.chance( 1, 4) ? ch.below( 3) : 1000 * n.id + ++next_v;
    eng::note( "%u: throws %s, value %u, way %u", n.id, kind_name( k), v, way);
    eng::shape( 300 + k); eng::shape( way);
    launch( k, v);
    switch ( way) {
    case 0: case 1: zoo[k].raise( v); break;
    case 2: deep< 200 >( k, v, 1 + ch.below( 12) ); break;
    case 3: { std::exception_ptr p; try { zoo[k].raise( v); } catch ( ...) { p = std::current_exception(); } std::rethrow_exception( p); }
    case 4: { ThrowInDtor t = { k, v }; (void)t; break; }
    case 5: { ThrowInCtor t( k, v); break; }
    case 6: ftb( k, v); break;
    default: try { throw 1.5f; } catch ( float) { zoo[k].raise( v); }
    }
    std::abort();
}
void check_held( Held const& h) {
    try { std::rethrow_exception( h.p); }
    catch ( ...) { if ( ! matches( h.kind, h.v) ) eng::fail( EXC, "a kept exception (%s, value %u) has changed", kind_name( h.kind), h.v); }
}
typedef std::vector< std::unique_ptr< Node > > Kids;
void act( Node & n, Suspend * s, Kids & kids, unsigned d);

// during a call into node k
struct CallGuard {
    Node & k; u32 by; bool ok; int unc;
    CallGuard( Node & x, u32 b) : k( x), by( b), ok( false), unc( uncaught() ) {}
    void normal() {
        ok = true;
        if ( G.on) eng::fail( EXC, "%u: the call of coroutine %u ends normally although %s left it", by, k.id, kind_name( G.kind) );
        if ( uncaught() != unc) eng::fail( EXC, "%u: number of uncaught exceptions changed during a call that ended normally", by);
        if ( k.done == k.valid() ) eng::fail( EXC | eng::VALID, "coroutine %u tests %s", k.id, k.valid() ? "true after its function ended" : "false while its function is suspended");
    }
    ~CallGuard() {
        if ( ok) return;
        if ( ! G.on) eng::fail( EXC, "%u: the call of coroutine %u throws without cause", by, k.id);
        if ( G.from != k.id) eng::fail( EXC, "%u: an exception that left coroutine %u surfaces at a call of coroutine %u", by, G.from, k.id);
        if ( ! k.done || k.valid() ) eng::fail( EXC | eng::VALID, "coroutine %u is not complete after an exception left it", k.id);
        ++crossed;
    }
};
// catching policies
enum Pol { SWALLOW, RETHROW, TRANSLATE, HOLD, NEST, LATER, POLS };
// called in a handler
void handle( Node & n, Kids & kids, unsigned pol) {
    arrived( n.id);
    unsigned k = G.kind; u32 v = G.v;
    struct H { int & h; explicit H( int & x) : h( x) { ++h; } ~H() { --h; } };
    switch ( pol) {
    case RETHROW: G.on = true; G.from = 0; throw;
    case TRANSLATE: do_throw( n); break;
    case HOLD: { Held h = { std::current_exception(), k, v }; held.push_back( h); break; }
    case NEST: if ( nested.size() < 50) { Inner i = { k, v }; nested.push_back( i); u32 x = static_cast< u32 >( nested.size() ) - 1; launch( NESTED, x); raise_nested( x); } break;
    case LATER: {
        H h( n.handlers);
        act( n, nullptr, kids, n.depth + 3);
        if ( ! matches( k, v) ) eng::fail( EXC, "%u: the exception being handled was replaced", n.id);
        std::exception_ptr p = std::current_exception();
        try { std::rethrow_exception( p); } catch ( ...) { if ( ! matches( k, v) ) eng::fail( EXC, "%u: current_exception is not the one being handled", n.id); }
        break; }
    default: break;
    }
}
void call( Node & n, Kids & kids, Node & k, bool start) {
    eng::Choices & ch = * CH;
    unsigned how = ch.below( POLS + 2);
    eng::note( "%u: %s coroutine %u%s", n.id, start ? "creates" : "calls", k.id, how < POLS ? " (handler)" : "");
    if ( how >= POLS) { CallGuard g( k, n.id); if ( start) k.start(); else k.resume(); g.normal(); return; }
    unsigned hand = static_cast< unsigned >( n.handlers);
    try { CallGuard g( k, n.id); if ( start) k.start(); else k.resume(); g.normal(); }
    catch ( boost::context::detail::forced_unwind const&) { eng::fail( EXC | eng::UNWIND, "forced_unwind leaves a call"); }
    catch ( ...) { handle( n, kids, how); }
    if ( hand != static_cast< unsigned >( n.handlers) ) std::abort();
}
void act( Node & n, Suspend * s, Kids & kids, unsigned d) {
    eng::Choices & ch = * CH;
    Tracked local( d);
    unsigned ops = 1 + ch.size( 8);
    for ( unsigned o = 0; o < ops; ++o) {
        if ( 0 == budget) return;
        --budget;
        unsigned op = ch.below( 14);
        eng::shape( n.id * 16 + op);
        switch ( op) {
        case 0: case 1: case 2:                         // suspend
            if ( ! s || n.handlers > 0) break;
            eng::note( "%u: suspends", n.id);
            try { s->now(); }
            catch ( boost::context::detail::forced_unwind const&) { n.forced = true; throw; }
            catch ( ...) { eng::fail( EXC, "coroutine %u: an exception surfaces at a suspension", n.id); }
            if ( G.on) eng::fail( EXC | eng::CONTROL, "coroutine %u is resumed while an exception propagates", n.id);
            break;
        case 3: case 4: {                               // create
            if ( n.depth >= MAXDEPTH || kids.size() >= 6) break;
            std::unique_ptr< Node > k( make_node( ch.below( NODES), n.depth + 1) );
            Node & r = * k;
            if ( ch.chance( 1, 2) ) { kids.push_back( std::move( k) ); call( n, kids, r, true); }
            else { call( n, kids, r, true); kids.push_back( std::move( k) ); }
            break; }
        case 5: case 6: case 7: case 8: {               // call
            std::vector< Node * > c;
            for ( std::unique_ptr< Node > & k : kids) if ( k->valid() ) c.push_back( k.get() );
            if ( c.empty() ) break;
            call( n, kids, * c[ch.below( static_cast< u32 >( c.size() ) )], false);
            break; }
        case 9: {                                       // destroy, move
            if ( kids.empty() ) break;
            unsigned i = ch.below( static_cast< u32 >( kids.size() ) );
            if ( kids[i]->valid() && ch.chance( 1, 2) ) { eng::note( "%u: moves coroutine %u", n.id, kids[i]->id); kids[i]->relocate(); break; }
            // no kid is active here: only its creator calls it
            eng::note( "%u: destroys coroutine %u", n.id, kids[i]->id);
          
            std::unique_ptr< Node > k( std::move( kids[i]) ); kids.erase( kids.begin() + i);
            if ( k->valid() && ch.chance( 1, 2) ) k->drop();
            k.reset();
            break; }
        case 10: {                                      // frame
            if ( d > 12) break;
            unsigned f = ch.below( POLS + 2);
            if ( f >= POLS) { act( n, s, kids, d + 1); break; }
            try { act( n, s, kids, d + 1); }
            catch ( boost::context::detail::forced_unwind const&) { throw; }
            catch ( ...) { handle( n, kids, f); }
            break; }
        case 11: case 12: do_throw( n); break;
        default:                                        // kept exceptions
            if ( held.empty() ) { ops = o; break; }
            { unsigned i = ch.below( static_cast< u32 >( held.size() ) );
              check_held( held[i]);
              unsigned w = ch.below( 3);
              if ( 0 == w) { held.erase( held.begin() + i); break; }
              if ( 1 == w) { eng::note( "%u: throws a kept exception", n.id); launch( held[i].kind, held[i].v); std::exception_ptr p = held[i].p; if ( ch.chance( 1, 2) ) held.erase( held.begin() + i); std::rethrow_exception( std::move( p) ); } }
            break;
        }
    }
}
struct BodyGuard {
    Node & n; int unc;
    explicit BodyGuard( Node & x) : n( x), unc( uncaught() ) {}
    ~BodyGuard() {
        n.done = true;
        if ( n.forced) return;
        if ( G.on) G.from = n.id;
    }
};
void body( Node & n, Suspend & s) {
    if ( n.entered) eng::fail( EXC | eng::CONTROL, "function entered twice");
    n.entered = true;
    BodyGuard g( n);
    Kids kids;
    act( n, & s, kids, 0);
    eng::note( "%u: ends", n.id);
}
struct MainNode : Node { MainNode() : Node( 0) {} void start() override {} void resume() override {} bool valid() override { return true; } void relocate() override {} void drop() override {} };

}

namespace eng {
static void run( Choices & ch, Options const&) {
    w::reset();
    CH = & ch; held.clear(); nested.clear(); tracked = 0; next_id = 0; next_v = 0; thrown = crossed = handled = 0;
    G.on = false; G.kind = 0; G.v = 0; G.from = 0;
    budget = 10 + ch.size( 120);
    {
        MainNode m; Kids kids;
        while ( budget > 0) {
            try { act( m, nullptr, kids, 0); }
            catch ( boost::context::detail::forced_unwind const&) { fail( EXC | UNWIND, "forced_unwind escaped"); }
            catch ( ...) { arrived( 0); }
            if ( G.on) fail( EXC, "an exception is lost");
            if ( std::current_exception() ) fail( EXC, "an exception is left as being handled");
            if ( uncaught() ) fail( EXC, "uncaught exceptions are left");
        }
        trace( next_id);
    }
    for ( Held const& h : held) check_held( h);
    held.clear();
    if ( 0 != tracked) fail( EXC | UNWIND, "%ld exception objects or locals are left", tracked);
    if ( thrown >= 1 && crossed >= 1 && handled >= 1) nontrivial();
}
Harness const harness = { "exc", run,
    "a case runs a tree of coroutines (5 element kinds, both directions, nesting 6) whose functions and the main context draw operations: suspend, create, call (with or without handler), move, destroy, "
    "enter frames with handlers of 6 policies (swallow, rethrow, translate, keep, nest, handle while other coroutines run), throw one of 45 exception types in 7 ways (directly, from deep frames, through exception_ptr, "
    "from destructors, constructors, function-try-blocks, handlers), rethrow kept exceptions elsewhere. Oracle: the one exception in flight with type, value and the coroutine it left; balance of exception objects. "
    "Non-trivial: an exception was thrown, crossed the boundary of a coroutine and was handled." };
}
