// Memory harness: the same script is run on stacks with different base address, size and previous
// contents; canaries around every stack, alignment of everything that is placed on it.
#include "world.hpp"

#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include <sys/mman.h>
#if defined(__SSE2__)
# include <emmintrin.h>
#endif

#include <boost/coroutine2/all.hpp>

namespace {

typedef std::uint32_t u32;
typedef std::uint64_t u64;
namespace co = boost::coroutines2;
using eng::ALIGN;

// ---- arena -----------------------------------------------------------------------------------
std::size_t const SLOT = 640 * 1024, SLOTS = 4, EDGE = 8192;
char * arena() {
    static char * a = nullptr;
    if ( ! a) {
        a = static_cast< char * >( ::mmap( nullptr, SLOT * SLOTS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) );
        if ( MAP_FAILED == static_cast< void * >( a) ) std::abort();
    }
    return a;
}
struct Env { std::size_t off[SLOTS], size[SLOTS]; unsigned fill; u64 fseed; };
struct Slot { bool used; char * lo; std::size_t size; boost::context::stack_context sctx; bool bad; };
Slot slots[SLOTS];
Env const* env;
unsigned allocs, deallocs;

void fill_range( char * p, std::size_t n) {
    u64 r = env->fseed | 1;
    static unsigned char const bytes[] = { 0x00, 0xFF, 0x01, 0xA5, 0x7F };
    if ( env->fill < 5) { std::memset( p, bytes[env->fill], n); return; }
    if ( 5 == env->fill) for ( std::size_t i = 0; i + 8 <= n; i += 8) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; std::memcpy( p + i, & r, 8); }
    else for ( std::size_t i = 0; i + 8 <= n; i += 8) { u64 v = reinterpret_cast< u64 >( p + n / 2); std::memcpy( p + i, & v, 8); }  // plausible pointers
}
// what is expected around a stack: a pattern that depends on the offset in the slot
char const* guard() {
    static char * g = nullptr;
    if ( ! g) {
        g = static_cast< char * >( std::malloc( SLOT) );
        if ( ! g) std::abort();
        u64 r = 88172645463325252ull;
        for ( std::size_t i = 0; i < SLOT; ++i) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; g[i] = static_cast< char >( r >> 21); }
    }
    return g;
}
void check_outside( unsigned i, char const* when) {
    char * b = arena() + i * SLOT;
    Slot & s = slots[i];
    std::size_t lo = static_cast< std::size_t >( s.lo - b), hi = lo + s.size;
    char const* g = guard();
    if ( std::memcmp( b, g, lo) ) for ( std::size_t i = lo; i-- > 0; ) if ( b[i] != g[i]) eng::fail( ALIGN | eng::STACK, "%s: memory %lu bytes below the stack was written", when, static_cast< unsigned long >( lo - i) );
    if ( std::memcmp( b + hi, g + hi, SLOT - hi) ) for ( std::size_t i = hi; i < SLOT; ++i) if ( b[i] != g[i]) eng::fail( ALIGN | eng::STACK, "%s: memory %lu bytes behind the stack was written", when, static_cast< unsigned long >( i - hi) );
}
struct Arena {
    unsigned id;
    explicit Arena( unsigned i) : id( i) {}
    boost::context::stack_context allocate() {
        for ( unsigned i = 0; i < SLOTS; ++i) {
            if ( slots[i].used) continue;
            Slot & s = slots[i];
            char * b = arena() + i * SLOT;
            s.used = true; s.size = env->size[i]; s.lo = b + EDGE + env->off[i];
            std::size_t lo = static_cast< std::size_t >( s.lo - b), hi = lo + s.size;
            std::memcpy( b, guard(), lo); std::memcpy( b + hi, guard() + hi, SLOT - hi);
            fill_range( s.lo, s.size);
            s.sctx = boost::context::stack_context();
            s.sctx.size = s.size; s.sctx.sp = s.lo + s.size;
            ++allocs;
            return s.sctx;
        }
        std::abort();
    }
    void deallocate( boost::context::stack_context & c) {
        for ( unsigned i = 0; i < SLOTS; ++i) if ( slots[i].used && slots[i].sctx.sp == c.sp) {
            if ( slots[i].sctx.size != c.size) eng::fail( eng::STACK, "stack returned with another size");
            check_outside( i, "at deallocation");
            ++deallocs;
            slots[i].used = false;
            // what was on the stack must not be used any more
            std::memset( slots[i].lo, 0xE7, slots[i].size);
            return;
        }
        eng::fail( eng::STACK, "a stack is returned that is not in use");
    }
};
char const* in_slot( void const* p) { for ( unsigned i = 0; i < SLOTS; ++i) if ( slots[i].used && p >= slots[i].lo && p < slots[i].lo + slots[i].size) return slots[i].lo; return nullptr; }

// ---- observation of one execution --------------------------------------------------------------
std::vector< u64 > * log_;
void obs( u64 v) { log_->push_back( v); }

template< unsigned N, unsigned A >
struct alignas( A) Val {
    unsigned char b[N];
    static void at( void const* p, char const* what) { if ( reinterpret_cast< std::uintptr_t >( p) % A) eng::fail( ALIGN, "%s: object of alignment %u and size %u at address %% %u == %u", what, A, N, A, static_cast< unsigned >( reinterpret_cast< std::uintptr_t >( p) % A) ); }
    explicit Val( u32 v) { at( this, "construction"); for ( unsigned i = 0; i < N; ++i) b[i] = static_cast< unsigned char >( v >> ( i % 4 * 8) ^ i); }
    Val( Val const& o) { at( this, "copy construction"); at( & o, "copy source"); std::memcpy( b, o.b, N); }
    Val & operator=( Val const& o) { std::memcpy( b, o.b, N); return * this; }
    ~Val() { at( this, "destruction"); std::memset( b, 0x99, N); }
    u64 sum() const { at( this, "use"); u64 h = 5; for ( unsigned i = 0; i < N; ++i) h = h * 131 + b[i]; return h; }
};

// local objects of all usual alignments: the ABI guarantees must hold at every function entry
template< typename D > void locals( D) {
    alignas( 16) volatile unsigned char a[32]; alignas( 64) volatile unsigned char c[64]; volatile long double ld = 1.5L; volatile double d = 2.5;
    a[0] = 1; c[0] = 2;
    if ( reinterpret_cast< std::uintptr_t >( a) % 16 || reinterpret_cast< std::uintptr_t >( c) % 64 || reinterpret_cast< std::uintptr_t >( & ld) % alignof( long double) )
        eng::fail( ALIGN, "local object misaligned on the coroutine stack");
    obs( static_cast< u64 >( ld * 2) + static_cast< u64 >( d * 2) );
#if defined(__SSE2__)
    // memory operands that fault when the stack is misaligned
    __m128i x = _mm_load_si128( reinterpret_cast< __m128i const* >( const_cast< unsigned char const* >( a) ) );
    volatile int r = _mm_cvtsi128_si32( x); (void)r;
    volatile __m128d y = _mm_set1_pd( d); (void)y;
#endif
    char buf[64]; std::snprintf( buf, sizeof( buf), "%.3f", static_cast< double >( d) + 0.25); obs( static_cast< u64 >( buf[0]) << 8 | static_cast< unsigned char >( buf[2]) );
}
// uses the stack down to a given depth
unsigned char deep( std::size_t n) {
    volatile unsigned char b[512];
    for ( unsigned i = 0; i < sizeof( b); i += 16) b[i] = static_cast< unsigned char >( n / 512 + i);
    unsigned char r = b[( n / 7) % 512 & ~15u];
    if ( n > 800) r = static_cast< unsigned char >( r + deep( n - 800) );
    if ( b[0] != static_cast< unsigned char >( n / 512) ) eng::fail( ALIGN | eng::FRAME, "stack frame corrupted");
    return r;
}

struct Boom { u32 v; };
struct Plan { std::vector< u32 > vals; std::vector< unsigned > act; int end; std::size_t use; unsigned stop; bool nested; };

template< unsigned A, unsigned N >
struct alignas( A) Fun {
    unsigned char b[N];
    void at( char const* what) const { if ( reinterpret_cast< std::uintptr_t >( this) % A) eng::fail( ALIGN | eng::FUNCTOR, "%s: function object of alignment %u misaligned", what, A); for ( unsigned i = 0; i < N; ++i) if ( b[i] != static_cast< unsigned char >( i + A) ) eng::fail( ALIGN | eng::FUNCTOR, "%s: function object corrupted", what); }
    Plan const* p; void (* f)( Plan const&, void *);
    Fun( Plan const* q, void (* g)( Plan const&, void *) ) : p( q), f( g) { for ( unsigned i = 0; i < N; ++i) b[i] = static_cast< unsigned char >( i + A); }
    Fun( Fun const& o) : p( o.p), f( o.f) { std::memcpy( b, o.b, N); at( "copy"); o.at( "copy source"); }
    Fun( Fun && o) : p( o.p), f( o.f) { std::memcpy( b, o.b, N); at( "move"); o.at( "move source"); }
    ~Fun() { at( "destruction"); b[0] = static_cast< unsigned char >( A + 77); }
    template< typename P > void operator()( P & x) { at( "call"); f( * p, & x); at( "return"); }
};

struct Track { u64 v; explicit Track( u64 x) : v( x) {} ~Track() { obs( 0xD000 + v); } };

template< typename V, bool O >
struct Script {
    typedef typename co::coroutine< V >::pull_type pull_t;
    typedef typename co::coroutine< V >::push_type push_t;

    static void act( unsigned a, Plan const& p) {
        switch ( a) {
        case 1: locals( 0); break;
        case 2: obs( deep( p.use) ); break;
        case 3: try { throw Boom{ 5 }; } catch ( Boom const& b) { obs( b.v); } break;
        case 4: { std::string s( 100, 'k'); obs( s.size() ); break; }
        default: break;
        }
    }
    static void producer( Plan const& p, void * x) {
        push_t & out = * static_cast< push_t * >( x);
        Track t( 1);
        locals( 0);
        if ( ! in_slot( __builtin_frame_address( 0) ) ) eng::fail( ALIGN | eng::STACK, "the function does not run on the stack of its allocator");
        for ( unsigned i = 0; i < p.vals.size(); ++i) {
            Track u( 10 + i);
            act( p.act[i], p);
            out( V( p.vals[i]) );
            obs( 100 + i);
        }
        if ( 1 == p.end) throw Boom{ 77 };
    }
    static void consumer( Plan const& p, void * x) {
        pull_t & in = * static_cast< pull_t * >( x);
        Track t( 2);
        locals( 0);
        if ( ! in_slot( __builtin_frame_address( 0) ) ) eng::fail( ALIGN | eng::STACK, "the function does not run on the stack of its allocator");
        unsigned i = 0;
        while ( in) {
            Track u( 10 + i);
            V const& v = * begin( in);
            obs( v.sum() );
            act( p.act[i % p.act.size()], p);
            if ( ++i > p.stop) break;
            in();
        }
        if ( 1 == p.end) throw Boom{ 78 };
    }
    template< typename F > static void go_pull( Plan const& p, unsigned depth) {
        F f( & p, & producer);
        std::unique_ptr< pull_t > c;
        try { c.reset( new pull_t( Arena( depth), f) ); } catch ( Boom const& b) { obs( b.v); return; }
        unsigned i = 0;
        while ( * c) {
            V const& v = * begin( * c);
            obs( v.sum() );
            if ( p.nested && 0 == depth && 1 == i) go_pull< F >( p, depth + 1);
            if ( i++ == p.stop) break;
            pull_t moved( std::move( * c) );
            * c = std::move( moved);
            try { ( * c)(); } catch ( Boom const& b) { obs( b.v); }
        }
        obs( * c ? 1 : 0);
        if ( i & 1) { V v( c && * c ? V( c->get() ) : V( 1u) ); obs( v.sum() ); }
        c.reset();
        obs( 999);
    }
    template< typename F > static void go_push( Plan const& p, unsigned depth) {
        std::unique_ptr< push_t > c;
        { F f( & p, & consumer); c.reset( new push_t( Arena( depth), std::move( f) ) ); }
        for ( unsigned i = 0; i < p.vals.size() && * c; ++i) {
            V v( p.vals[i]);
            try { if ( i & 1) ( * c)( v); else ( * c)( std::move( v) ); } catch ( Boom const& b) { obs( b.v); }
            if ( p.nested && 0 == depth && 1 == i) go_push< F >( p, depth + 1);
        }
        obs( * c ? 1 : 0);
        c.reset();
        obs( 998);
    }
    template< typename F > static void go( bool pull, Plan const& p) { if ( pull) go_pull< F >( p, 0); else go_push< F >( p, 0); }
    static void run( bool pull, unsigned fun, Plan const& p) {
        // every second element type has the other two function objects (the product is only compile time)
        if ( fun & 1) go< typename std::conditional< O, Fun< 64, 10 >, Fun< 16, 100 > >::type >( pull, p);
        else go< typename std::conditional< O, Fun< 8, 8 >, Fun< 256, 1500 > >::type >( pull, p);
    }
};
typedef void (* Run)( bool, unsigned, Plan const&);
struct Type { char const* name; std::size_t size, align; Run run; };
#define TY(n,a) { "size " #n " alignment " #a, sizeof( Val< n, a >), a, & Script< Val< n, a >, ( n + a / 2) % 2 >::run }
Type const types[] = { TY( 1, 1), TY( 2, 2), TY( 5, 1), TY( 4, 4), TY( 8, 8), TY( 24, 8), TY( 16, 16), TY( 33, 1), TY( 100, 4), TY( 32, 32), TY( 64, 64), TY( 65, 64), TY( 128, 128), TY( 7, 128), TY( 256, 256),
                       TY( 1, 512), TY( 600, 1024), TY( 3, 4096), TY( 2000, 8), TY( 7777, 2) };
unsigned const NTYPES = sizeof( types) / sizeof( types[0]);

#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define MEM_BIG 1
# endif
#endif
#if defined(__SANITIZE_ADDRESS__)
# define MEM_BIG 1
#endif
#ifdef MEM_BIG
std::size_t const BASE = 96 * 1024;
#else
std::size_t const BASE = 20 * 1024;
#endif

void draw_env( eng::Choices & ch, Env & e, std::size_t need) {
    for ( unsigned i = 0; i < SLOTS; ++i) {
        static unsigned const gran[] = { 4096, 256, 64, 16, 16, 8, 1, 1 };
        unsigned g = gran[ch.below( 8)];
        e.off[i] = ch.below( static_cast< u32 >( 8192 / g) ) * g;
        e.size[i] = need + ch.below( static_cast< u32 >( 65536 / g) ) * g;
        if ( e.size[i] + e.off[i] + 2 * EDGE > SLOT) std::abort();
    }
    e.fill = ch.below( 7);
    e.fseed = ch.below( 0xffffffffu);
}
std::vector< u64 > execute( Env const& e, Type const& t, bool pull, unsigned fun, Plan const& p) {
    std::vector< u64 > l;
    l.reserve( 4096);
    log_ = & l; env = & e; allocs = deallocs = 0;
    std::memset( static_cast< void * >( slots), 0, sizeof( slots) );
    t.run( pull, fun, p);
    if ( allocs != deallocs) eng::fail( eng::STACK, "%u stacks allocated, %u returned", allocs, deallocs);
    return l;
}

}

namespace eng {
static void run( Choices & ch, Options const&) {
    w::reset();
    Type const& t = types[ch.below( NTYPES)];
    bool pull = ch.chance( 1, 2);
    unsigned fun = ch.below( 2);
    Plan p;
    unsigned n = ch.size( 12);
    for ( unsigned i = 0; i < n; ++i) { p.vals.push_back( ch.below( 0xffffffffu) ); p.act.push_back( ch.below( 6) ); }
    if ( p.act.empty() ) p.act.push_back( 0);
    p.end = static_cast< int >( ch.below( 2) );
    p.stop = ch.below( 14);
    p.nested = ch.chance( 1, 4);
    p.use = ch.below( 120 * 1024);
    std::size_t need = BASE + 5 * t.size + 2 * t.align + 9000 + p.use + ( p.use / 800) * 
#ifdef MEM_BIG
        900;
#else
        200;
#endif
    shape( static_cast< u64 >( & t - types) ); shape( pull); shape( fun); shape( p.end); shape( p.stop); shape( p.use);
    for ( unsigned i = 0; i < n; ++i) { shape( p.vals[i]); shape( p.act[i]); }
    note( "%s_type of %s, function object %u, %u values, stop after %u, %s, uses %lu bytes of stack%s", pull ? "pull" : "push", t.name, fun, n, p.stop, p.end ? "throws" : "returns", static_cast< unsigned long >( p.use), p.nested ? ", nested" : "");
    std::vector< std::vector< u64 > > logs;
    unsigned runs = 2 + ch.below( 2);
    for ( unsigned r = 0; r < runs; ++r) {
        Env e; draw_env( ch, e, need);
        shape( e.off[0]); shape( e.size[0]); shape( e.fill);
        note( "run %u: stack of %lu bytes at offset %lu, previous contents %u", r, static_cast< unsigned long >( e.size[0]), static_cast< unsigned long >( e.off[0]), e.fill);
        logs.push_back( execute( e, t, pull, fun, p) );
        if ( logs[r] != logs[0]) {
            std::size_t i = 0; while ( i < logs[r].size() && i < logs[0].size() && logs[r][i] == logs[0][i]) ++i;
            fail( ALIGN, "the result depends on address, size or previous contents of the stack (observation %lu differs)", static_cast< unsigned long >( i) );
        }
    }
    for ( u64 v : logs[0]) trace( v);
    label( t.name);
    if ( n >= 1 && logs[0].size() > 6) nontrivial();
}
Harness const harness = { "mem", run,
    "a case draws an element type (20 combinations of size 1..7777 and alignment 1..4096), function object (alignment 8..256), direction, values, actions of the function between transfers (aligned locals and SSE accesses, "
    "deep recursion over the whole stack, exceptions), end of the run, nesting, and 2-3 environments: stack base (down to byte granularity), size, previous contents (constant bytes, random, pointers into the stack). "
    "Oracle: canaries outside of the stack, alignment of every object placed on it, location of frames, equal observations in all environments. Non-trivial: at least one value transferred." };
}
