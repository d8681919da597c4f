// Stack allocator harness: coroutines over the allocators of the library and user allocators.
#include <sys/mman.h>
#include <sys/wait.h>
#include <malloc.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "world.hpp"

#include <functional>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <utility>
#include <vector>

// every page mapping requested by a stack allocator is counted
namespace allocs {
inline long & mapped() { static long n = 0; return n; }
}
extern "C" inline void * verif_mmap( void * a, size_t n, int p, int f, int d, off_t o) { void * r = mmap( a, n, p, f, d, o); if ( MAP_FAILED != r) allocs::mapped() += static_cast< long >( n); return r; }
extern "C" inline int verif_munmap( void * a, size_t n) { allocs::mapped() -= static_cast< long >( n); return munmap( a, n); }
#define mmap verif_mmap
#define munmap verif_munmap
#include <boost/coroutine2/all.hpp>
#undef mmap
#undef munmap

#if defined(__has_feature)
# if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#  define SANITIZED 1
# endif
#endif
#if defined(__SANITIZE_ADDRESS__)
# define SANITIZED 1
#endif

namespace {

typedef std::uint32_t u32;
typedef std::uint64_t u64;
namespace co = boost::coroutines2;
using eng::ALLOC;
bool warming;
#define NOTE( ...) do { if ( ! warming) eng::note( __VA_ARGS__); } while ( false)
#define SHAPE( x) do { if ( ! warming) eng::shape( x); } while ( false)
#define TRACE( x) do { if ( ! warming) eng::trace( x); } while ( false)
#define LABEL( x) do { if ( ! warming) eng::label( x); } while ( false)

#ifdef SANITIZED
std::size_t const MARGIN = 48 * 1024, MINSIZE = 96 * 1024;
#else
std::size_t const MARGIN = 16 * 1024, MINSIZE = 32 * 1024;
#endif

char * frame() { return static_cast< char * >( __builtin_frame_address( 0) ); }

// ---- user allocators ---------------------------------------------------------------------------
struct Range { char * lo; std::size_t size; };
struct Pad { std::size_t front, back; };
// what a user allocator shares between its copies
struct Shared {
    std::map< char *, std::size_t > live;     // sp -> size
    std::size_t size; unsigned taken;
    explicit Shared( std::size_t s) : size( s), taken( 0) {}
    boost::context::stack_context get() {
        boost::context::stack_context c;
        char * p = static_cast< char * >( ::malloc( size) );
        if ( ! p) throw std::bad_alloc();
        c.size = size; c.sp = p + size;
        live[p + size] = size; ++taken;
        return c;
    }
    void put( boost::context::stack_context & c) {
        std::map< char *, std::size_t >::iterator i = live.find( static_cast< char * >( c.sp) );
        if ( i == live.end() ) eng::fail( ALLOC | eng::STACK, "a stack is returned to an allocator that did not provide it, or twice");
        if ( i->second != c.size) eng::fail( ALLOC | eng::STACK, "a stack is returned with size %lu instead of %lu", static_cast< unsigned long >( c.size), static_cast< unsigned long >( i->second) );
        live.erase( i);
        ::free( static_cast< char * >( c.sp) - c.size);
    }
    // the allocated range p lies in
    bool find( char * p, Range & r) {
        std::map< char *, std::size_t >::iterator i = live.upper_bound( p);
        if ( i == live.end() ) return false;
        r.lo = i->first - i->second; r.size = i->second;
        return p >= r.lo;
    }
};
void used_empty() { eng::fail( ALLOC, "an allocator object is used after it was moved from"); }
// the moved-from object is unusable
struct Emptied {
    std::shared_ptr< Shared > s;
    explicit Emptied( std::shared_ptr< Shared > const& x) : s( x) {}
    Emptied( Emptied const&) = default; Emptied( Emptied &&) = default;
    boost::context::stack_context allocate() { if ( ! s) used_empty(); return s->get(); }
    void deallocate( boost::context::stack_context & c) noexcept { if ( ! s) used_empty(); s->put( c); }
};
// const members only, no assignment, copied only
struct Constant {
    Shared & s;
    explicit Constant( Shared & x) : s( x) {}
    Constant( Constant const& o) : s( o.s) {}
    boost::context::stack_context allocate() const { return s.get(); }
    void deallocate( boost::context::stack_context & c) const { s.put( c); }
};
// move only: belongs to one coroutine
struct Unique {
    std::unique_ptr< std::shared_ptr< Shared > > s;
    explicit Unique( std::shared_ptr< Shared > const& x) : s( new std::shared_ptr< Shared >( x) ) {}
    boost::context::stack_context allocate() { if ( ! s) used_empty(); return ( * s)->get(); }
    void deallocate( boost::context::stack_context & c) { if ( ! s) used_empty(); ( * s)->put( c); }
};
// no state of its own, final
struct Bare final {
    static Shared *& s() { static Shared * p; return p; }
    boost::context::stack_context allocate() { return s()->get(); }
    void deallocate( boost::context::stack_context & c) { s()->put( c); }
};
// derived from an allocator of the library, whose functions it hides
struct Derived : co::fixedsize_stack {
    std::shared_ptr< Shared > s;
    explicit Derived( std::shared_ptr< Shared > const& x) : co::fixedsize_stack( 4096), s( x) {}
    boost::context::stack_context allocate() { return s->get(); }
    void deallocate( boost::context::stack_context & c) noexcept { s->put( c); }
};
// large, over-aligned, notices when its bytes are copied instead of itself
struct alignas( 64) Bulky {
    Shared & s; Bulky * self; u32 fill[700];
    explicit Bulky( Shared & x) : s( x), self( this) { for ( u32 i = 0; i < 700; ++i) fill[i] = i * 7; }
    Bulky( Bulky const& o) : s( o.s), self( this) { o.check(); for ( u32 i = 0; i < 700; ++i) fill[i] = o.fill[i]; }
    ~Bulky() { check(); self = nullptr; }
    void check() const {
        if ( self != this) eng::fail( ALLOC, "an allocator object is used that was never constructed, or destroyed before");
        if ( reinterpret_cast< std::uintptr_t >( this) % 64) eng::fail( ALLOC | eng::ALIGN, "allocator object misaligned");
        for ( u32 i = 0; i < 700; ++i) if ( fill[i] != i * 7) eng::fail( ALLOC, "allocator object damaged");
    }
    boost::context::stack_context allocate() { check(); return s.get(); }
    void deallocate( boost::context::stack_context & c) { check(); s.put( c); }
};
// overloaded address-of and comma, conversion to bool, polymorphic, nothing is noexcept
struct Odd {
    std::shared_ptr< Shared > s;
    explicit Odd( std::shared_ptr< Shared > const& x) : s( x) {}
    Odd( Odd const& o) noexcept( false) : s( o.s) {}
    virtual ~Odd() {}
    Odd * operator&() { used_empty(); return nullptr; }
    Odd const* operator&() const { used_empty(); return nullptr; }
    template< typename X > void operator,( X &&) const { used_empty(); }
    virtual boost::context::stack_context allocate() noexcept( false) { return s->get(); }
    virtual void deallocate( boost::context::stack_context & c) noexcept( false) { s->put( c); }
};
// wraps an allocator of the library and remembers what it provided
template< typename A >
struct Spy {
    A a; std::shared_ptr< Shared > s;
    Spy( A const& x, std::shared_ptr< Shared > const& y) : a( x), s( y) {}
    boost::context::stack_context allocate() {
        boost::context::stack_context c = a.allocate();
        if ( c.size < s->size) eng::fail( ALLOC, "stack of %lu bytes provided, %lu requested", static_cast< unsigned long >( c.size), static_cast< unsigned long >( s->size) );
        s->live[static_cast< char * >( c.sp)] = c.size; ++s->taken;
        return c;
    }
    void deallocate( boost::context::stack_context & c) {
        std::map< char *, std::size_t >::iterator i = s->live.find( static_cast< char * >( c.sp) );
        if ( i == s->live.end() || i->second != c.size) eng::fail( ALLOC | eng::STACK, "a stack is returned that was not provided");
        s->live.erase( i);
        a.deallocate( c);
    }
};

// ---- what a coroutine function does ------------------------------------------------------------
struct Ctx {
    u32 id; std::size_t limit;          // bytes that may be used
    std::size_t use; bool hold, stop, boom; unsigned nest;
    char * top, * low; u64 steps, sum;
    std::function< void( Ctx &) > nested;
    Ctx() : id( 0), limit( 0), use( 0), hold( false), stop( false), boom( false), nest( 0), top( nullptr), low( nullptr), steps( 0), sum( 0) {}
};
std::vector< Ctx * > active;            // started, not destroyed
Ctx * find_ctx( u32 id) { for ( Ctx * c : active) if ( c->id == id) return c; return nullptr; }
void overlap( Ctx & c) {
    for ( Ctx * d : active) if ( d != & c && d->top && c.low <= d->top && d->low <= c.top)
        eng::fail( ALLOC | eng::STACK, "the stacks of two live coroutines overlap");
}
struct Boom { u32 id; };
struct Count { u64 & n; explicit Count( u64 & x) : n( x) { ++n; } ~Count() { --n; } };
u64 frames_alive;

template< typename S >
__attribute__((noinline)) void deep( Ctx & c, S & suspend, std::size_t use) {
    Count count( frames_alive);
    volatile unsigned char b[200];
    for ( unsigned i = 0; i < sizeof( b); ++i) b[i] = static_cast< unsigned char >( c.id + use + i);
    char * here = frame();
    if ( here < c.low) c.low = here;
    std::size_t used = c.top > here ? static_cast< std::size_t >( c.top - here) : 0;
    if ( used < use) deep( c, suspend, use);
    else { overlap( c); if ( c.hold) { suspend(); } if ( c.boom) { c.boom = false; throw Boom{ c.id }; } }
    for ( unsigned i = 0; i < sizeof( b); ++i) if ( b[i] != static_cast< unsigned char >( c.id + use + i) ) eng::fail( ALLOC | eng::FRAME, "stack content of a suspended coroutine changed");
}
template< typename S >
void body( Ctx & c, S & suspend) {
    Count count( frames_alive);
    c.top = c.low = frame();
    active.push_back( & c);
    struct Out { Ctx & c; ~Out() { for ( std::size_t i = 0; i < active.size(); ++i) if ( active[i] == & c) { active.erase( active.begin() + static_cast< long >( i) ); break; } c.top = nullptr; } } out{ c };
    overlap( c);
    while ( ! c.stop) {
        ++c.steps;
        if ( c.use) deep( c, suspend, c.use);
        else if ( c.boom) { c.boom = false; throw Boom{ c.id }; }
        if ( c.nest) { unsigned n = c.nest; c.nest = 0; for ( unsigned i = 0; i < n; ++i) c.nested( c); }
        suspend();
    }
}

// ---- kinds of coroutines ------------------------------------------------------------------------
template< typename T > struct Vals;
template<> struct Vals< int > { static int get( u64 n) { return static_cast< int >( n * 7); } static u64 sum( int x) { return static_cast< u64 >( static_cast< unsigned >( x) ); } };
template<> struct Vals< std::string > { static std::string get( u64 n) { return std::string( 30 + n % 9, static_cast< char >( 'a' + n % 26) ); } static u64 sum( std::string const& s) { return s.size() * 131 + static_cast< u64 >( s[0]); } };
struct Wide { u64 a[500]; };
template<> struct Vals< Wide > { static Wide get( u64 n) { Wide w; for ( u64 & x : w.a) x = n; return w; } static u64 sum( Wide const& w) { for ( u64 x : w.a) if ( x != w.a[0]) return 0; return w.a[0] + 1; } };
template<> struct Vals< int & > { static int & get( u64 n) { static int s[16]; s[n % 16] = static_cast< int >( n % 16); return s[n % 16]; } static u64 sum( int & x) { return static_cast< u64 >( & x == & get( static_cast< u64 >( x) ) ) * 100 + static_cast< u64 >( x); } };

struct Coro { virtual ~Coro() {} virtual bool resume() = 0; virtual void relocate() = 0; virtual bool valid() = 0; virtual bool started() = 0; };
template< typename T >
struct Pull : Coro {
    typedef typename co::coroutine< T >::pull_type P; typedef typename co::coroutine< T >::push_type Q;
    std::unique_ptr< P > p; Ctx & c; u64 got;
    struct Fn { Ctx * c; void operator()( Q & out) { u64 n = 0; auto s = [&]{ out( Vals< T >::get( n++) ); }; body( * c, s); } };
    void read() {
        if ( ! * p) return;
        u64 want = Vals< T >::sum( Vals< T >::get( got) );
        if ( Vals< T >::sum( * begin( * p) ) != want) eng::fail( ALLOC | eng::VALUE, "value %lu altered", static_cast< unsigned long >( got) );
        ++got; c.sum += want; }
    template< typename A > Pull( Ctx & x, A && a) : c( x), got( 0) { p.reset( new P( std::forward< A >( a), Fn{ & x }) ); read(); }
    explicit Pull( Ctx & x) : c( x), got( 0) { p.reset( new P( Fn{ & x }) ); read(); }
    bool valid() override { return static_cast< bool >( * p); }
    bool started() override { return true; }
    bool resume() override { ( * p)(); read(); return valid(); }
    void relocate() override { P x( std::move( * p) ); p.reset( new P( std::move( x) ) ); }
};
template<>
struct Pull< void > : Coro {
    typedef co::coroutine< void >::pull_type P; typedef co::coroutine< void >::push_type Q;
    std::unique_ptr< P > p;
    struct Fn { Ctx * c; void operator()( Q & out) { auto s = [&]{ out(); }; body( * c, s); } };
    template< typename A > Pull( Ctx & x, A && a) { p.reset( new P( std::forward< A >( a), Fn{ & x }) ); }
    explicit Pull( Ctx & x) { p.reset( new P( Fn{ & x }) ); }
    bool valid() override { return static_cast< bool >( * p); }
    bool started() override { return true; }
    bool resume() override { ( * p)(); return valid(); }
    void relocate() override { P x( std::move( * p) ); p.reset( new P( std::move( x) ) ); }
};
template< typename T >
struct Push : Coro {
    typedef typename co::coroutine< T >::pull_type P; typedef typename co::coroutine< T >::push_type Q;
    std::unique_ptr< Q > q; u64 n;
    struct Fn { Ctx * c; void operator()( P & in) {
        u64 k = 0;
        auto read = [&]{ if ( Vals< T >::sum( * begin( in) ) != Vals< T >::sum( Vals< T >::get( k) ) ) eng::fail( ALLOC | eng::VALUE, "value %lu altered", static_cast< unsigned long >( k) ); c->sum += Vals< T >::sum( Vals< T >::get( k) ); ++k; };
        read();
        auto s = [&]{ in(); read(); }; body( * c, s); } };
    template< typename A > Push( Ctx & x, A && a) : n( 0) { q.reset( new Q( std::forward< A >( a), Fn{ & x }) ); }
    explicit Push( Ctx & x) : n( 0) { q.reset( new Q( Fn{ & x }) ); }
    bool valid() override { return static_cast< bool >( * q); }
    bool started() override { return n > 0; }
    bool resume() override { ( * q)( Vals< T >::get( n++) ); return valid(); }
    void relocate() override { Q x( std::move( * q) ); q.reset( new Q( std::move( x) ) ); }
};
template<>
struct Push< void > : Coro {
    typedef co::coroutine< void >::pull_type P; typedef co::coroutine< void >::push_type Q;
    std::unique_ptr< Q > q; bool st;
    struct Fn { Ctx * c; void operator()( P & in) { auto s = [&]{ in(); }; body( * c, s); } };
    template< typename A > Push( Ctx & x, A && a) : st( false) { q.reset( new Q( std::forward< A >( a), Fn{ & x }) ); }
    explicit Push( Ctx & x) : st( false) { q.reset( new Q( Fn{ & x }) ); }
    bool valid() override { return static_cast< bool >( * q); }
    bool started() override { return st; }
    bool resume() override { st = true; ( * q)(); return valid(); }
    void relocate() override { Q x( std::move( * q) ); q.reset( new Q( std::move( x) ) ); }
};
unsigned const KINDS = 8;
template< typename... A > Coro * make_kind( unsigned k, Ctx & c, A &&... a) {
    switch ( k) {
    case 0: return new Pull< int >( c, std::forward< A >( a)...);
    case 1: return new Push< int >( c, std::forward< A >( a)...);
    case 2: return new Pull< void >( c, std::forward< A >( a)...);
    case 3: return new Push< void >( c, std::forward< A >( a)...);
    case 4: return new Pull< std::string >( c, std::forward< A >( a)...);
    case 5: return new Push< Wide >( c, std::forward< A >( a)...);
    case 6: return new Pull< int & >( c, std::forward< A >( a)...);
    default: return new Push< int & >( c, std::forward< A >( a)...);
    }
}

// ---- families -----------------------------------------------------------------------------------
enum Fam { DEFAULT, FIXED, POOLED, PROTECTED, EMPTIED, CONSTANT, UNIQUE, SPYFIXED, SPYPROT, SPYPOOL, BARE, DERIVED, BULKY, ODD, FAMS };
char const* const fam_name[] = { "default", "fixedsize_stack", "pooled_fixedsize_stack", "protected_fixedsize_stack", "user allocator (moved-from unusable)", "user allocator (const)", "user allocator (move-only)", "recorded fixedsize_stack", "recorded protected_fixedsize_stack", "recorded pooled_fixedsize_stack", "user allocator (stateless)", "user allocator (derived from fixedsize_stack)", "user allocator (large)", "user allocator (overloaded operators)" };

// pass: 0 lvalue, 1 const lvalue (if usable), 2 temporary, 3 moved copy, 4 lvalue that is destroyed before the coroutine is used
template< typename A > Coro * make_with( unsigned k, Ctx & c, A & a, unsigned pass) {
    switch ( pass) {
    case 0: return make_kind( k, c, a);
    case 2: return make_kind( k, c, A( a) );
    case 4: {
        alignas( 64) static unsigned char m[sizeof( A)];
        struct Gone { A * a; ~Gone() { a->~A(); ::memset( m, 0xDD, sizeof( m) ); } } g = { ::new ( static_cast< void * >( m) ) A( a) };
        return make_kind( k, c, * g.a); }
    default: { A b( a); return make_kind( k, c, std::move( b) ); }
    }
}
struct World {
    std::size_t size;
    std::shared_ptr< Shared > sh[FAMS];
    std::unique_ptr< co::fixedsize_stack > fixed; std::unique_ptr< co::pooled_fixedsize_stack > pooled; std::unique_ptr< co::protected_fixedsize_stack > prot;
    std::unique_ptr< Emptied > emptied; std::unique_ptr< Constant > constant;
    std::unique_ptr< Spy< co::fixedsize_stack > > sf; std::unique_ptr< Spy< co::protected_fixedsize_stack > > sp; std::unique_ptr< Spy< co::pooled_fixedsize_stack > > so;
    struct Kill { template< typename X > void operator()( X * x) const { x->~X(); } };
    std::unique_ptr< Derived > derived; std::unique_ptr< Bulky, Kill > bulky; std::unique_ptr< Odd > odd;
    void * bulky_mem() { alignas( 64) static unsigned char m[sizeof( Bulky)]; return m; }
    World( std::size_t s, std::size_t next) : size( s) {
        for ( unsigned i = 0; i < FAMS; ++i) sh[i] = std::make_shared< Shared >( s);
        fixed.reset( new co::fixedsize_stack( s) ); pooled.reset( new co::pooled_fixedsize_stack( s, next) ); prot.reset( new co::protected_fixedsize_stack( s) );
        emptied.reset( new Emptied( sh[EMPTIED]) ); constant.reset( new Constant( * sh[CONSTANT]) );
        sf.reset( new Spy< co::fixedsize_stack >( * fixed, sh[SPYFIXED]) ); sp.reset( new Spy< co::protected_fixedsize_stack >( * prot, sh[SPYPROT]) ); so.reset( new Spy< co::pooled_fixedsize_stack >( * pooled, sh[SPYPOOL]) );
        Bare::s() = sh[BARE].get(); derived.reset( new Derived( sh[DERIVED]) ); bulky.reset( new ( bulky_mem()) Bulky( * sh[BULKY]) ); odd.reset( new Odd( sh[ODD]) );
    }
    std::size_t usable( Fam f) const { return ( DEFAULT == f ? co::default_stack::traits_type::default_size() : size) - MARGIN; }
    Coro * make( Fam f, unsigned k, Ctx & c, unsigned pass) {
        switch ( f) {
        case DEFAULT: return pass & 1 ? make_kind( k, c) : make_kind( k, c, co::default_stack() );
        case FIXED: return make_with( k, c, * fixed, pass);
        case POOLED: return make_with( k, c, * pooled, pass);
        case PROTECTED: return make_with( k, c, * prot, pass);
        case EMPTIED: { Coro * r = make_with( k, c, * emptied, pass); if ( ! emptied->s) eng::fail( ALLOC, "an allocator passed as lvalue was moved from"); return r; }
        case CONSTANT: return 1 == pass ? make_kind( k, c, static_cast< Constant const& >( * constant) ) : make_with( k, c, * constant, pass);
        case UNIQUE: return make_kind( k, c, Unique( sh[UNIQUE]) );
        case SPYFIXED: return make_with( k, c, * sf, pass);
        case SPYPROT: return make_with( k, c, * sp, pass);
        case SPYPOOL: return make_with( k, c, * so, pass);
        case BARE: { Bare b; return make_with( k, c, b, pass); }
        case DERIVED: return make_with( k, c, * derived, pass);
        case BULKY: return make_with( k, c, * bulky, pass);
        default: return make_with( k, c, * odd, pass);
        }
    }
};

std::size_t heap() {
#ifdef SANITIZED
    return 0;
#else
    struct mallinfo2 m = mallinfo2();
    return m.uordblks + m.hblkhd;
#endif
}

struct Slot { std::unique_ptr< Coro > co; std::unique_ptr< Ctx > c; Fam fam; bool done; u64 expect_steps; };

// distance between the top of a recorded stack and the first frame of the function
void overhead( World & w, Fam f, Ctx & c, unsigned kind) {
    if ( f < EMPTIED || ! c.top) return;
    Range r;
    if ( ! w.sh[f]->find( c.top, r) ) eng::fail( ALLOC | eng::STACK, "the function does not run on a stack of its allocator");
#ifndef SANITIZED
    std::size_t o = static_cast< std::size_t >( r.lo + r.size - c.top), bound = 3072 + ( 5 == kind ? 4 * sizeof( Wide) : 0) + ( BULKY == f ? 2 * sizeof( Bulky) : 0);
    if ( o > bound) eng::fail( ALLOC, "%lu bytes of a stack of %lu bytes are lost before the function is entered", static_cast< unsigned long >( o), static_cast< unsigned long >( r.size) );
#else
    (void)kind;
#endif
}

// ---- overflow of a protected stack, in a child process ------------------------------------------
#ifndef SANITIZED
void on_segv( int, siginfo_t * si, void *) {
    // is the address in a mapping without access rights
    unsigned long a = reinterpret_cast< unsigned long >( si->si_addr);
    FILE * f = fopen( "/proc/self/maps", "r");
    if ( ! f) _exit( 5);
    char line[512];
    while ( fgets( line, sizeof( line), f) ) {
        unsigned long lo, hi; char r;
        if ( 3 == sscanf( line, "%lx-%lx %c", & lo, & hi, & r) && a >= lo && a < hi) _exit( '-' == r ? 42 : 6);
    }
    _exit( 7);
}
void overflow( World & w, unsigned kind, Fam fam) {
    int st = 0;
    pid_t pid = ::fork();
    if ( pid < 0) return;
    if ( 0 == pid) {
        ::alarm( 20);
        static char alt[64 * 1024];
        stack_t ss; ::memset( & ss, 0, sizeof( ss) ); ss.ss_sp = alt; ss.ss_size = sizeof( alt);
        ::sigaltstack( & ss, nullptr);
        struct sigaction sa; ::memset( & sa, 0, sizeof( sa) ); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
        ::sigaction( SIGSEGV, & sa, nullptr); ::sigaction( SIGBUS, & sa, nullptr);
        Ctx c; c.id = 77; c.limit = 0;
        active.clear();
        Coro * x = w.make( fam, kind, c, 0);
        if ( ! x->started() ) x->resume();
        c.use = w.size + 3 * 4096;
        x->resume();
        _exit( 3);
    }
    while ( ::waitpid( pid, & st, 0) < 0) {}
    if ( WIFEXITED( st) && 42 == WEXITSTATUS( st) ) { LABEL( "overflow trapped by the guard page"); return; }
    if ( WIFEXITED( st) && 3 == WEXITSTATUS( st) ) eng::fail( ALLOC, "running over the end of a protected stack of %lu bytes does not fault", static_cast< unsigned long >( w.size) );
    eng::fail( ALLOC, "running over the end of a protected stack does not hit a guard page (%s %d)", WIFEXITED( st) ? "exit" : "signal", WIFEXITED( st) ? WEXITSTATUS( st) : WTERMSIG( st) );
}
#endif

void scenario( eng::Choices & ch) {
    // sizes: multiples of a page and not
    std::size_t size = MINSIZE + ch.below( 40) * 4096 + ( ch.chance( 1, 2) ? 16 * ch.below( 256) : 0);
    if ( ch.chance( 1, 16) ) { size += 1024 * 1024 * ( 1 + ch.below( 8) ); LABEL( "stacks of more than 1 MiB"); }
    World w( size, 1 + ch.below( 4) );
    unsigned const N = 5;
    Slot s[N]; for ( Slot & x : s) { x.done = true; x.fam = DEFAULT; x.expect_steps = 0; }
    unsigned ops = 2 + ch.size( 40), made = 0, deeps = 0;
    unsigned fams_used = 0;
    u32 next_id = 1;
    bool focus = ch.chance( 1, 2); Fam focus_fam = static_cast< Fam >( ch.below( FAMS) );
    u64 frames0 = frames_alive;
    NOTE( "stack size %lu", static_cast< unsigned long >( size) );
    SHAPE( size);
    auto release = [&]( Slot & x) {
        if ( ! x.co) return;
        x.co.reset();
        if ( x.c->top) eng::fail( ALLOC | eng::UNWIND, "a destroyed coroutine has not been unwound");
        for ( Ctx * c : active) if ( c == x.c.get() ) eng::fail( ALLOC | eng::UNWIND, "a destroyed coroutine has not been unwound");
        x.c.reset();
    };
    for ( unsigned o = 0; o < ops; ++o) {
        unsigned i = ch.below( N);
        Slot & x = s[i];
        unsigned op = x.co ? 1 + ch.below( 9) : 0;
        SHAPE( i * 16 + op);
        if ( 0 == op || 9 == op) {
            release( x);
            x.fam = focus ? focus_fam : static_cast< Fam >( ch.below( FAMS) );
            unsigned kind = ch.below( KINDS), pass = ch.below( 5);
            x.c.reset( new Ctx); x.c->id = next_id++; x.done = false;
            Fam f = x.fam; World * pw = & w;
            x.c->nested = [pw,f]( Ctx & outer) {
                Ctx in; in.id = outer.id + 1000; in.use = 3000;
                std::unique_ptr< Coro > n( pw->make( f, static_cast< unsigned >( outer.steps) % KINDS, in, 0) );
                for ( int k = 0; k < 3; ++k) n->resume();
                overhead( * pw, f, in, 5);
                outer.sum += in.sum;
            };
            NOTE( "%u: create kind %u with %s, passed as %u", i, kind, fam_name[f], pass);
            SHAPE( kind * 128 + static_cast< unsigned >( f) * 8 + pass);
            LABEL( fam_name[f]);
            unsigned before = w.sh[f]->taken;
            x.co.reset( w.make( f, kind, * x.c, pass) );
            if ( f >= EMPTIED && w.sh[f]->taken != before + 1) eng::fail( ALLOC | eng::STACK, "creating a coroutine took %u stacks from its allocator", w.sh[f]->taken - before);
            if ( ! x.co->valid() ) eng::fail( ALLOC | eng::VALID, "fresh coroutine tests false");
            overhead( w, f, * x.c, kind);
            ++made; fams_used |= 1u << f;
            TRACE( kind); TRACE( x.c->sum);
            continue;
        }
        switch ( op) {
        case 1: case 2: case 3: case 4: case 5: {
            if ( x.done) { release( x); break; }
            x.c->use = 1 == op ? 0 : ch.below( static_cast< u32 >( w.usable( x.fam) ) );
            x.c->hold = 3 == op || 4 == op;
            x.c->stop = 5 == op && ch.chance( 1, 2);
            x.c->boom = 2 == op && ch.chance( 1, 6);
            bool boom = x.c->boom; u64 id = x.c->id;
            NOTE( "%u: resume, uses %lu bytes%s%s%s", i, static_cast< unsigned long >( x.c->use), x.c->hold ? ", suspends in the deepest frame" : "", x.c->stop ? ", then ends" : "", boom ? ", throws from the deepest frame" : "");
            if ( x.c->use > 8192) ++deeps;
            bool caught = false;
            try { x.co->resume(); } catch ( Boom const& b) { caught = true; if ( ! boom || b.id != id) eng::fail( ALLOC | eng::EXC, "unexpected exception"); }
            // the function may be suspended in a deep frame and see the command only after its next resumption
            if ( x.c->top == nullptr) { x.done = true; if ( x.co->valid() ) eng::fail( ALLOC | eng::VALID, "coroutine tests true after its function ended"); if ( ! caught && ! x.c->stop) eng::fail( ALLOC | eng::CONTROL, "function ended unexpectedly"); }
            else { if ( ! x.co->valid() ) eng::fail( ALLOC | eng::VALID, "coroutine tests false while its function is suspended"); if ( caught) eng::fail( ALLOC | eng::EXC, "function is suspended after an exception"); overhead( w, x.fam, * x.c, 5); }
            x.c->stop = false; x.c->boom = false;
            TRACE( x.c->sum); TRACE( x.c->steps); TRACE( caught);
            break; }
        case 6: NOTE( "%u: move", i); x.co->relocate(); break;
        case 7: if ( ! x.done) { x.c->nest = 1 + ch.below( 3); x.c->use = 0; x.c->hold = false; NOTE( "%u: resume with %u nested coroutines", i, x.c->nest); x.co->resume(); TRACE( x.c->sum); } break;
        default: NOTE( "%u: destroy", i); release( x); break;
        }
    }
#ifndef SANITIZED
    if ( ch.chance( 1, 24) ) { unsigned k = ch.below( KINDS); NOTE( "overflow of a protected stack, kind %u", k); overflow( w, k, ch.chance( 1, 2) ? PROTECTED : SPYPROT); }
#endif
    for ( Slot & x : s) release( x);
    // many coroutines one after another on the same allocator
    if ( ch.chance( 1, 8) ) {
        Fam f = static_cast< Fam >( ch.below( FAMS) );
        unsigned n = 20 + ch.below( 40);
        NOTE( "%u coroutines in sequence with %s", n, fam_name[f]);
        std::size_t h = 0; long m = 0;
        for ( unsigned k = 0; k < n; ++k) {
            if ( 16 == k) { h = heap(); m = allocs::mapped(); }
            Ctx c; c.id = 5000 + k; c.use = 500;
            std::unique_ptr< Coro > x( w.make( f, k % KINDS, c, k % 5) );
            x->resume();
            if ( k % 3 == 0) { c.stop = true; x->resume(); }
        }
        // later ones live on the memory of earlier ones
        if ( heap() > h + size / 2 || allocs::mapped() > m) eng::fail( ALLOC | eng::STACK, "memory grows by %lu bytes while %u coroutines follow one another on an allocator", static_cast< unsigned long >( heap() - h), n - 16);
    }
    if ( ! active.empty() || frames_alive != frames0) eng::fail( ALLOC | eng::UNWIND, "frames of destroyed coroutines are left");
    for ( unsigned f = 0; f < FAMS; ++f) if ( ! w.sh[f]->live.empty() ) eng::fail( ALLOC | eng::STACK, "%s: %u stacks were not returned", fam_name[f], static_cast< unsigned >( w.sh[f]->live.size() ) );
    if ( made >= 2 && deeps >= 1) eng::nontrivial();
}

}

namespace eng {
static void run( Choices & ch, Options const&) {
    w::reset();
    active.clear();
    static bool warm = false;
    if ( ! warm) { warm = true; warming = true; std::vector< u32 > none; Choices c( none); scenario( c); warming = false; }   // one-time allocations
    long m0 = allocs::mapped(); std::size_t h0 = heap();
    scenario( ch);
    if ( allocs::mapped() != m0) fail( ALLOC | STACK, "%ld bytes of mapped stacks are left", allocs::mapped() - m0);
    std::size_t h1 = heap();
    if ( h1 > h0 + MINSIZE - 4096) fail( ALLOC | STACK, "%lu bytes of heap are left", static_cast< unsigned long >( h1 - h0) );
}
Harness const harness = { "alloc", run,
    "a case draws a stack size (page multiples and others) and a sequence of operations on up to 5 coroutines of 8 kinds: creation without allocator, with fixedsize_stack, pooled_fixedsize_stack, "
    "protected_fixedsize_stack, recording wrappers of these and user allocators (const, move-only, unusable after move, stateless, derived from a library allocator, large and over-aligned, with overloaded operators), passed as lvalue (also one that is destroyed at once), const lvalue, temporary or moved object; resumption with recursion "
    "down to a drawn depth of the stack, suspension or exception in the deepest frame; nested creation; moves; destruction; long sequences on one allocator; overflow of a protected stack in a child process. "
    "Oracle: ranges provided by the allocator, disjoint frame ranges, patterns in all frames, balance of mapped and heap memory, stack reuse of pools, fault address in a guard page. "
    "Non-trivial: at least 2 coroutines and one use of more than 8 KiB of a stack." };
}
