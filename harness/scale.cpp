// Scale harness: few coroutines used very often, many coroutines in sequence, many at the same time, deep chains,
// deep frames, endless moves, large values. Oracle: closed forms (positions, counts, balances).
#include "world.hpp"

#include <algorithm>
#include <array>
#include <cstdlib>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

#include <boost/coroutine2/all.hpp>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
# define SLOW 1
#elif defined(__has_feature)
# if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#  define SLOW 1
# endif
#endif
#if ! defined(SLOW)
static long blocks;     // live blocks of the free store
void * operator new( std::size_t n) { void * p = std::malloc( n ? n : 1); if ( ! p) std::abort(); ++blocks; return p; }
void operator delete( void * p) noexcept { if ( p) { --blocks; std::free( p); } }
void operator delete( void * p, std::size_t) noexcept { if ( p) { --blocks; std::free( p); } }
#else
static long blocks;
#endif

namespace {

typedef std::uint32_t u32;
typedef std::uint64_t u64;
namespace co = boost::coroutines2;
using namespace eng;

// ---- instrumented parts ------------------------------------------------------------------------
long locals, objs, excs, functors, stacks_;
u32 last_dtor;          // ids of the locals of one frame chain are destroyed in descending order
bool descending;
struct Local {
    u32 id, guard;
    explicit Local( u32 i) : id( i), guard( ~i) { ++locals; }
    Local( Local const&) = delete;
    ~Local() {
        if ( guard != ~id) fail( FRAME | UNWIND, "local object %u damaged or destroyed twice", id);
        if ( descending) { if ( id >= last_dtor) fail( UNWIND, "local object %u destroyed after %u", id, last_dtor); last_dtor = id; }
        guard = id; --locals;
    }
    void verify() const { if ( guard != ~id) fail( FRAME, "local object %u damaged", id); }
};
struct Ex {
    u32 id, guard;
    explicit Ex( u32 i) : id( i), guard( ~i) { ++excs; }
    Ex( Ex const& o) : id( o.id), guard( o.guard) { ++excs; }
    ~Ex() { --excs; guard = id; }
};
struct Obj {
    u32 v, guard; Obj const* self;
    explicit Obj( u32 x) : v( x), guard( ~x), self( this) { ++objs; }
    Obj( Obj const& o) : v( o.v), guard( o.guard), self( this) { o.alive(); ++objs; }
    Obj( Obj && o) : v( o.v), guard( o.guard), self( this) { o.alive(); o.v = 0; o.guard = ~0u; ++objs; }
    Obj & operator=( Obj const&) = delete;
    ~Obj() { alive(); self = nullptr; --objs; }
    void alive() const { if ( self != this) fail( PAYLOAD, "use of an object that is not alive"); }
    u32 get() const { alive(); if ( guard != ~v) fail( VALUE, "value damaged"); return v; }
};
std::size_t ssize;
std::vector< char * > & cache() { static std::vector< char * > * c = new std::vector< char * >; return * c; }     // never destroyed: used at the end of the program
std::size_t cached;
struct Alloc {
    u32 tag;
    boost::context::stack_context allocate() {
        if ( 0x5ac4 != tag) fail( STACK, "allocator damaged");
        if ( cached != ssize) { for ( char * p : cache() ) std::free( p); cache().clear(); cached = ssize; }
        char * p;
        if ( cache().empty() ) { p = static_cast< char * >( std::malloc( ssize) ); if ( ! p) { std::fprintf( stderr, "out of memory\n"); std::_Exit( 0); } }
        else { p = cache().back(); cache().pop_back(); }
        ++stacks_;
        boost::context::stack_context s; s.sp = p + ssize; s.size = ssize;
        return s;
    }
    void deallocate( boost::context::stack_context & s) {
        if ( 0x5ac4 != tag) fail( STACK, "allocator damaged");
        if ( s.size != ssize) fail( STACK, "stack of another size given back");
        if ( 0 == stacks_--) fail( STACK, "more stacks given back than taken");
        cache().push_back( static_cast< char * >( s.sp) - ssize);
    }
};
// function objects: counted captures
struct Cap { u32 tag; Cap() : tag( 0xca9) { ++functors; } Cap( Cap const& o) : tag( o.tag) { ++functors; } ~Cap() { if ( 0xca9 != tag) fail( FUNCTOR, "captured object damaged"); tag = 0; --functors; } void ok() const { if ( 0xca9 != tag) fail( FUNCTOR, "captured object damaged"); } };

// ---- element kinds -----------------------------------------------------------------------------
template< typename C > u32 ref_get( C & p) { u32 & r = p.get(); return r++; }
struct KInt { typedef u32 T; enum { valued = 1 }; static char const* name() { return "int"; }
    template< typename P > static void send( P & p, u32 v) { p( v); }
    template< typename P > static u32 recv( P & p, u32) { return p.get(); }
    static u32 it( u32 v, u32) { return v; } };
struct KObj { typedef Obj T; enum { valued = 1 }; static char const* name() { return "object"; }
    template< typename P > static void send( P & p, u32 v) { if ( v & 1) { Obj o( v); p( o); if ( o.get() != v) fail( PAYLOAD | VALUE, "pushed lvalue changed"); } else p( Obj( v) ); }
    template< typename P > static u32 recv( P & p, u32 e) { if ( e & 2) { Obj o( p.get() ); return o.get(); } return ( * begin( p) ).get(); }
    static u32 it( Obj const& o, u32) { return o.get(); } };
struct KRef { typedef u32 & T; enum { valued = 1 }; static char const* name() { return "reference"; }
    template< typename P > static void send( P & p, u32 v) { u32 x = v; p( x); if ( x != v + 1) fail( VALUE, "receiver got another object than the one sent"); }
    template< typename P > static u32 recv( P & p, u32) { u32 & r = p.get(); return r++; }
    static u32 it( u32 & r, u32) { return r++; } };
struct KStr { typedef std::string T; enum { valued = 1 }; static char const* name() { return "string"; }
    template< typename P > static void send( P & p, u32 v) { std::string s( 1 + v % 40, static_cast< char >( 'a' + v % 26) ); s += std::to_string( v); if ( v & 1) p( s); else p( std::move( s) ); }
    static u32 dec( std::string const& s) { std::size_t i = s.find_first_of( "0123456789"); if ( std::string::npos == i) fail( VALUE, "string damaged"); u32 v = static_cast< u32 >( std::strtoul( s.c_str() + i, nullptr, 10) ); if ( i != 1 + v % 40 || s[0] != static_cast< char >( 'a' + v % 26) ) fail( VALUE, "string damaged"); return v; }
    template< typename P > static u32 recv( P & p, u32) { return dec( * begin( p) ); }
    static u32 it( std::string const& s, u32) { return dec( s); } };
struct KVoid { typedef void T; enum { valued = 0 }; static char const* name() { return "void"; }
    template< typename P > static void send( P & p, u32) { p(); }
    template< typename P > static u32 recv( P &, u32 e) { return e; } };

template< typename K > struct Types { typedef typename co::coroutine< typename K::T >::pull_type pull; typedef typename co::coroutine< typename K::T >::push_type push; };

int sel;        // how the stack is obtained
co::pooled_fixedsize_stack * pool;
template< typename C, typename F > C make( F && f) {
    switch ( sel) {
    case 1: return C( std::forward< F >( f) );
    case 2: return C( * pool, std::forward< F >( f) );
    case 3: return C( co::fixedsize_stack( ssize), std::forward< F >( f) );
    case 4: return C( co::protected_fixedsize_stack( ssize), std::forward< F >( f) );
    default: { Alloc a = { 0x5ac4 }; return C( a, std::forward< F >( f) ); }
    }
}

u32 val( u32 i) { return ( i * 2654435761u) & 0x3fffffff; }
#define CHECK(c,a,...) do { if ( ! ( c) ) fail( a, __VA_ARGS__); } while ( 0)

// ---- S1: one coroutine, very many transfers ----------------------------------------------------
struct LongP { u32 n, stop; unsigned end, style, inner, movep; };     // end: 0 return, 1 throw, 2 abandoned at stop
template< typename K > struct ForEach {
    template< typename P, typename F > static void run( P & p, u32 & i, F f) { for ( auto && x : p) { u32 e = val( i); CHECK( K::it( x, e) == e, VALUE, "value %u is another one", i); ++i; if ( f( i) ) break; } }
    template< typename P, typename F > static void iter( P & p, u32 & i, F f) { auto it = begin( p), en = end( p); while ( it != en) { u32 e = val( i); CHECK( K::it( * it, e) == e, VALUE, "value %u is another one", i); ++i; if ( f( i) ) break; ++it; } }
};
template< > struct ForEach< KVoid > {
    template< typename P, typename F > static void run( P & p, u32 & i, F f) { while ( p) { ++i; if ( f( i) ) break; p(); } }
    template< typename P, typename F > static void iter( P & p, u32 & i, F f) { run( p, i, f); }
};
// one transfer on the sending side
template< typename K > struct SendIt { template< typename P > static void it( P & p, u32 v) { auto x = begin( p); ( void) x; K::send( p, v); } };
template< > struct SendIt< KInt > { template< typename P > static void it( P & p, u32 v) { auto x = begin( p); * x = v; ++x; } };
template< > struct SendIt< KVoid > { template< typename P > static void it( P & p, u32) { p(); } };
void inner_exc( u32 i) { try { throw Ex( i); } catch ( Ex const& e) { CHECK( e.id == i && e.guard == ~i, EXC, "another exception inside"); } }

template< typename K > void long_pull( LongP const& c) {
    typedef typename Types< K >::pull pull; typedef typename Types< K >::push push;
    u32 sent = 0, got = 0; u32 thrown = 0;
    {
        Cap cap; LongP const* q = & c; u32 * s = & sent;
        bool started = false;
        try {
            pull p( make< pull >( [cap,q,s]( push & o) {
                Local l( 7); cap.ok();
                for ( u32 i = 0; i < q->n; ++i) {
                    ++* s;
                    if ( q->inner && 0 == i % q->inner) inner_exc( i);
                    CHECK( o, VALID, "push_type tests false inside its function, transfer %u", i);
                    if ( 2 == q->style) SendIt< K >::it( o, val( i) ); else K::send( o, val( i) );
                    l.verify();
                }
                cap.ok();
                if ( 1 == q->end) throw Ex( q->n);
            }) );
            started = true;
            CHECK( sent == std::min( c.n, 1u), CONTROL, "constructor ran the function to transfer %u", sent);
            auto stop = [&]( u32 i) { CHECK( sent == i, CONTROL, "after %u transfers %u have been sent", i, sent); return 2 == c.end && i >= c.stop; };
            if ( 0 == c.style)
                while ( p) { CHECK( ! ! p, VALID, "operator!"); u32 e = val( got); CHECK( K::recv( p, e) == e, VALUE, "value %u is another one", got); ++got;
                    if ( c.movep && 0 == got % c.movep) { pull t( std::move( p) ); CHECK( ! p, VALID | MOVE, "moved-from tests true"); p = std::move( t); CHECK( ! t, VALID | MOVE, "moved-from tests true"); }
                    if ( stop( got) ) break; p(); }
            else if ( 1 == c.style) ForEach< K >::run( p, got, stop);
            else ForEach< K >::iter( p, got, stop);
            if ( 2 == c.end && got >= c.stop && c.n) { CHECK( p, VALID, "suspended after %u transfers, tests false", got); CHECK( 1 == locals, UNWIND, "local destroyed early"); }
            else { CHECK( ! p, VALID, "complete, tests true"); CHECK( 1 != c.end, EXC, "exception of the function lost after %u transfers", got); CHECK( 0 == locals, UNWIND, "local lives on after the end"); }
        } catch ( Ex const& e) { thrown = 1; CHECK( 1 == c.end && e.id == c.n && e.guard == ~c.n, EXC, "another exception"); CHECK( started == ( 0 != c.n), EXC, "exception out of the wrong call"); }
    }
    CHECK( thrown == ( 1 == c.end ? 1u : 0u), EXC, "exception of the function lost");
    u32 e = 2 == c.end ? std::min( c.n, std::max( c.stop, 1u) ) : c.n;
    CHECK( got == e, VALUE | VALID, "%u of %u values arrived", got, e);
}
template< typename K > void long_push( LongP const& c) {
    typedef typename Types< K >::pull pull; typedef typename Types< K >::push push;
    // the function takes n values and ends (end 0), throws (1), or is abandoned after stop values (2)
    u32 got = 0, sent = 0; u32 thrown = 0;
    {
        Cap cap; LongP const* q = & c; u32 * g = & got;
        push s( make< push >( [cap,q,g]( pull & in) {
            Local l( 7); cap.ok();
            CHECK( in, VALID, "pull_type tests false on entry");
            auto stop = [&]( u32 i) { if ( q->inner && 0 == i % q->inner) inner_exc( i); l.verify(); return i >= q->n; };
            if ( 0 == q->style) while ( in) { u32 e = val( * g); CHECK( K::recv( in, e) == e, VALUE, "value %u is another one", * g); ++* g; if ( stop( * g) ) break; in(); }
            else if ( 1 == q->style) ForEach< K >::run( in, * g, stop);
            else ForEach< K >::iter( in, * g, stop);
            cap.ok();
            if ( 1 == q->end) throw Ex( q->n);
        }) );
        CHECK( 0 == got && 0 == locals, CONTROL, "constructor ran the function");
        CHECK( s, VALID, "new push_type tests false");
        try {
            while ( s && ! ( 2 == c.end && sent >= c.stop) ) {
                u32 v = val( sent); ++sent;
                if ( 2 == c.style) SendIt< K >::it( s, v); else K::send( s, v);
                CHECK( got == sent, CONTROL | VALUE, "%u values sent, %u received", sent, got);
                if ( c.movep && 0 == sent % c.movep) { push t( std::move( s) ); CHECK( ! s, VALID | MOVE, "moved-from tests true"); s = std::move( t); }
            }
        } catch ( Ex const& e) { thrown = 1; CHECK( 1 == c.end && e.id == c.n && e.guard == ~c.n, EXC, "another exception"); CHECK( ! s, VALID | EXC, "failed, tests true"); }
        if ( 2 == c.end && c.stop < c.n) CHECK( s && locals == ( c.stop ? 1 : 0), VALID | UNWIND, "suspended after %u transfers, tests false or frames gone", sent);
        else if ( 2 != c.end) { CHECK( ! s, VALID, "complete, tests true"); CHECK( 0 == locals, UNWIND, "local lives on after the end"); }
    }
    CHECK( thrown == ( 1 == c.end ? 1u : 0u), EXC, "exception of the function lost");
    u32 e = 2 == c.end ? std::min( c.n, c.stop) : c.n;
    CHECK( got == e && sent == e, VALUE | VALID, "%u of %u values arrived, %u sent", got, e, sent);
}

// ---- S2: very many coroutines in sequence ------------------------------------------------------
struct ChurnP { u32 n, salt; unsigned modes; };
u32 h( u32 a, u32 b) { u32 x = ( a ^ ( b * 0x9e3779b9u) ) * 0x85ebca6bu; x ^= x >> 15; x *= 0xc2b2ae35u; return x ^ ( x >> 13); }
template< typename K > void churn( ChurnP const& c) {
    typedef typename Types< K >::pull pull; typedef typename Types< K >::push push;
    u32 ran = 0, want = 0, thrown = 0, wthrown = 0;
    for ( u32 i = 0; i < c.n; ++i) {
        u32 r = h( i, c.salt), t = r & 3, end = ( r >> 2) % 4, dir = ( r >> 4) & 1;       // end: 0,3 return, 1 throw, 2 abandon
        if ( ! ( c.modes >> end & 1) ) end = 0;
        if ( ! ( c.modes >> ( 4 + dir) & 1) ) dir = ! dir;
        u32 * rp = & ran; Cap cap;
        try {
            if ( dir) {
                ++want; if ( 1 == end) ++wthrown;
                pull p( make< pull >( [cap,rp,t,end,i]( push & o) { Local l( i); ++* rp; for ( u32 k = 0; k < t; ++k) K::send( o, val( i + k) ); cap.ok(); if ( 1 == end) throw Ex( i); if ( 2 == end) { K::send( o, val( i + t) ); fail( UNWIND, "abandoned function resumed"); } }) );
                for ( u32 k = 0; k < t; ++k) { CHECK( p, VALID, "coroutine %u ends early", i); u32 e = val( i + k); CHECK( K::recv( p, e) == e, VALUE, "coroutine %u: another value", i); p(); }
                CHECK( static_cast< bool >( p) == ( 2 == end), VALID, "coroutine %u: wrong validity at the end", i);
                CHECK( 1 != end, EXC, "coroutine %u: exception lost", i);
            } else {
                if ( t + ( 2 == end)) ++want; if ( 1 == end && t) ++wthrown;
                push s( make< push >( [cap,rp,t,end,i]( pull & in) { Local l( i); ++* rp; for ( u32 k = 0; ; ++k) { CHECK( in, VALID, "tests false inside"); u32 e = val( i + k); CHECK( K::recv( in, e) == e, VALUE, "coroutine %u: another value", i); if ( k + 1 == t && 2 != end) break; in(); } cap.ok(); if ( 1 == end) throw Ex( i); }) );
                for ( u32 k = 0; k < t; ++k) { CHECK( s, VALID, "coroutine %u ends early", i); K::send( s, val( i + k) ); }
                if ( 2 == end) K::send( s, val( i + t) );
                CHECK( static_cast< bool >( s) == ( 2 == end || 0 == t), VALID, "coroutine %u: wrong validity at the end", i);
                CHECK( 1 != end || ! t, EXC, "coroutine %u: exception lost", i);
            }
        } catch ( Ex const& e) { ++thrown; CHECK( 1 == end && e.id == i, EXC, "coroutine %u: another exception", i); }
        CHECK( ran == want, CONTROL | FUNCTOR, "coroutine %u: function ran %s", i, ran < want ? "never" : "twice");
        CHECK( thrown == wthrown, EXC, "coroutine %u: exception lost or thrown twice", i);
        CHECK( 0 == locals, UNWIND, "coroutine %u: local object lives on", i);
        CHECK( 0 == stacks_, STACK, "coroutine %u: stack not given back", i);
        CHECK( 0 == objs, PAYLOAD, "coroutine %u: value not destroyed", i);
        CHECK( 1 == functors, FUNCTOR, "coroutine %u: %ld function objects left", i, functors - 1);
        CHECK( 0 == excs, EXC | PAYLOAD, "coroutine %u: exception objects left", i);
    }
}

// ---- S3: very many at the same time ------------------------------------------------------------
template< typename K, bool Pull > struct Live {
    typedef typename Types< K >::pull pull; typedef typename Types< K >::push push;
    typedef typename std::conditional< Pull, pull, push >::type C;
    struct St { u32 id, pos, len; };
    static C start( St * s) {
        Cap cap;
        return mk( cap, s, std::integral_constant< bool, Pull >() );
    }
    static pull mk( Cap const& cap, St * s, std::true_type) { return make< pull >( [cap,s]( push & o) { Local l( s->id); for ( u32 i = 0; i < s->len; ++i) K::send( o, val( s->id * 1000 + i) ); cap.ok(); l.verify(); }); }
    static push mk( Cap const& cap, St * s, std::false_type) { return make< push >( [cap,s]( pull & in) { Local l( s->id); for ( u32 i = 0; ; ++i) { CHECK( in, VALID, "tests false inside"); u32 e = val( s->id * 1000 + i); CHECK( K::recv( in, e) == e, VALUE | PIPE, "coroutine %u got a value of another one", s->id); if ( i + 1 == s->len) break; in(); } cap.ok(); l.verify(); }); }
    static void step( pull & p, St & s) { if ( s.pos == s.len) { CHECK( ! p, VALID, "complete, tests true"); return; } CHECK( p, VALID, "coroutine %u ended early", s.id); u32 e = val( s.id * 1000 + s.pos); CHECK( K::recv( p, e) == e, VALUE | PIPE, "coroutine %u got a value of another one", s.id); p(); ++s.pos; }
    static void step( push & p, St & s) { if ( s.pos == s.len) { CHECK( ! p, VALID, "complete, tests true"); return; } CHECK( p, VALID, "coroutine %u ended early", s.id); K::send( p, val( s.id * 1000 + s.pos) ); ++s.pos; }
    static void run( u32 n, u32 ops, u32 salt, bool shuffled) {
        {
            std::vector< std::unique_ptr< St > > st; std::vector< C > v; std::vector< u32 > who;
            for ( u32 i = 0; i < n; ++i) { st.emplace_back( new St{ i, 0, 1 + h( i, salt) % 9 }); v.push_back( start( st.back().get() ) ); who.push_back( i); }
            for ( u32 k = 0; k < ops; ++k) {
                u32 r = h( k, salt + 1), a = r % n;
                switch ( ( r >> 20) % 12) {
                case 0: if ( shuffled) { u32 b = h( r, salt) % n; if ( a != b) { std::swap( v[a], v[b]); std::swap( who[a], who[b]); } break; }
                        // fall through
                case 1: if ( shuffled) { St & s = * st[who[a]]; v[a] = start( ( s.pos = 0, & s) ); break; }       // replaced by a new one
                        // fall through
                default: step( v[a], * st[who[a]]); break;
                }
            }
            for ( u32 k = 0; k < n; ++k) step( v[k], * st[who[k]]);
            if ( shuffled) for ( u32 k = n; k > 1; --k) { u32 b = h( k, salt + 2) % k; if ( b != k - 1) { std::swap( v[k - 1], v[b]); } v.pop_back(); }
        }
    }
};

// ---- S4: chains: every coroutine runs inside the function of another ---------------------------
struct NestP { u32 depth, n; unsigned end; u32 stop; };
template< typename K > struct Nest {
    typedef typename Types< K >::pull pull; typedef typename Types< K >::push push;
    static void gen( push & o, u32 d, NestP const* c) {
        Local l( c->depth - d);
        if ( 0 == d) { for ( u32 i = 0; i < c->n; ++i) K::send( o, i * 2); if ( 1 == c->end) throw Ex( c->n); }
        else {
            Cap cap;
            pull in( make< pull >( [cap,d,c]( push & x) { gen( x, d - 1, c); cap.ok(); }) );
            for ( u32 i = 0; in; in(), ++i) K::send( o, K::recv( in, i * 2 + d - 1) + 1);
        }
        l.verify();
    }
    static void generators( NestP const& c) {
        u32 got = 0; bool thrown = false;
        NestP const* q = & c;
        try {
            pull p( make< pull >( [q]( push & o) { gen( o, q->depth, q); }) );
            for ( ; p; p() ) { u32 e = got * 2 + c.depth; CHECK( K::recv( p, e) == e, VALUE | PIPE, "value %u through %u generators is another one", got, c.depth); ++got; if ( 2 == c.end && got >= c.stop) break; }
            if ( 2 == c.end && got && got == c.stop) { CHECK( locals == static_cast< long >( c.depth) + 1, UNWIND, "frames gone"); descending = true; last_dtor = 0xffffffffu; }
        } catch ( Ex const& e) { thrown = true; CHECK( 1 == c.end && e.id == c.n && e.guard == ~c.n, EXC | PIPE, "another exception through %u generators", c.depth); }
        descending = false;
        CHECK( thrown == ( 1 == c.end), EXC | PIPE, "exception lost in %u generators", c.depth);
        CHECK( got == ( 2 == c.end ? std::min( c.n, std::max( c.stop, 1u) ) : c.n), VALUE | PIPE, "%u of %u values through %u generators", got, c.n, c.depth);
    }
    struct Sink { u32 * got; };
    static void sink( pull & in, u32 d, NestP const* c, u32 * got) {
        Local l( c->depth - d);
        if ( 0 == d) { while ( in) { u32 e = * got * 2 + c->depth; CHECK( K::recv( in, e) == e, VALUE | PIPE, "value %u through %u sinks is another one", * got, c->depth); ++* got; if ( * got == c->n) break; in(); } if ( 1 == c->end) throw Ex( c->n); }
        else {
            Cap cap;
            push nx( make< push >( [cap,d,c,got]( pull & x) { sink( x, d - 1, c, got); cap.ok(); }) );
            for ( u32 i = 0; in && nx; ) { K::send( nx, K::recv( in, i * 2 + c->depth - d) + 1); ++i; if ( ! nx) break; in(); }
        }
        l.verify();
    }
    static void sinks( NestP const& c) {
        u32 got = 0, sent = 0; bool thrown = false;
        NestP const* q = & c; u32 * g = & got;
        {
            push s( make< push >( [q,g]( pull & in) { sink( in, q->depth, q, g); }) );
            try { while ( s && ! ( 2 == c.end && sent >= c.stop) ) { K::send( s, sent * 2); ++sent; CHECK( got == sent, CONTROL | PIPE, "%u values sent into %u sinks, %u received", sent, c.depth, got); } }
            catch ( Ex const& e) { thrown = true; CHECK( 1 == c.end && e.id == c.n && e.guard == ~c.n, EXC | PIPE, "another exception through %u sinks", c.depth); CHECK( ! s, VALID | EXC, "failed, tests true"); }
            if ( 2 == c.end && c.stop && c.stop < c.n) { CHECK( locals == static_cast< long >( c.depth) + 1, UNWIND, "frames gone"); descending = true; last_dtor = 0xffffffffu; }
        }
        descending = false;
        CHECK( thrown == ( 1 == c.end), EXC | PIPE, "exception lost in %u sinks", c.depth);
        CHECK( got == ( 2 == c.end ? std::min( c.n, c.stop) : c.n), VALUE | PIPE, "%u of %u values through %u sinks", got, c.n, c.depth);
    }
};
template< > struct Nest< KVoid >;       // values are needed to tell levels apart

// ---- S5: deep frames -----------------------------------------------------------------------------
template< typename K > struct Deep {
    typedef typename Types< K >::pull pull; typedef typename Types< K >::push push;
    static void down( push & o, u32 d, u32 n, u32 thr) {
        Local l( d); volatile u32 keep = d ^ 0x5555;
        K::send( o, d);
        if ( d == thr) throw Ex( d);
        if ( d + 1 < n) down( o, d + 1, n, thr);
        K::send( o, n + d);
        l.verify(); if ( keep != ( d ^ 0x5555) ) fail( FRAME, "frame %u damaged", d);
    }
    static void drain( pull & in, u32 d, u32 n, u32 thr, u32 & got) {
        Local l( d); volatile u32 keep = d ^ 0x5555;
        CHECK( in, VALID, "tests false inside");
        CHECK( K::recv( in, d) == d, VALUE, "another value at depth %u", d); ++got;
        if ( d == thr) throw Ex( d);
        if ( d + 1 < n) { in(); drain( in, d + 1, n, thr, got); }
        in(); CHECK( in, VALID, "tests false inside");
        CHECK( K::recv( in, n + d) == n + d, VALUE, "another value at depth %u", d); ++got;
        l.verify(); if ( keep != ( d ^ 0x5555) ) fail( FRAME, "frame %u damaged", d);
    }
    static void run( bool pulls, u32 n, unsigned end, u32 stop) {
        u32 const thr = 1 == end ? stop % n : n + 1;
        u32 got = 0; bool thrown = false; u32 total = 2 * n;
        descending = false;
        try {
            if ( pulls) {
                pull p( make< pull >( [n,thr]( push & o) { down( o, 0, n, thr); }) );
                for ( ; p; p() ) { u32 e = got < n ? got : 3 * n - 1 - got; CHECK( K::recv( p, e) == e, VALUE, "another value at step %u", got); ++got; if ( 2 == end && got > stop % total) break; if ( thr < got) { descending = true; last_dtor = n + 9; } }
                if ( p) { CHECK( locals == static_cast< long >( got <= n ? got : 2 * n - got + 1), UNWIND, "frames gone"); descending = true; last_dtor = n + 9; }
            } else {
                u32 * g = & got; u32 sent = 0;
                push s( make< push >( [n,thr,g]( pull & in) { drain( in, 0, n, thr, * g); }) );
                while ( s) { u32 e = sent < n ? sent : 3 * n - 1 - sent; if ( sent == thr) { descending = true; last_dtor = n + 9; } K::send( s, e); ++sent; CHECK( got == sent, CONTROL, "%u sent, %u received", sent, got); if ( 2 == end && sent > stop % total) break; }
                if ( s) { CHECK( locals == static_cast< long >( got <= n ? got : 2 * n - got), UNWIND, "frames gone"); descending = true; last_dtor = n + 9; }
            }
        } catch ( Ex const& e) { thrown = true; CHECK( 1 == end && e.id == thr && e.guard == ~thr, EXC, "another exception"); }
        descending = false;
        CHECK( thrown == ( 1 == end), EXC, "exception from depth %u lost", thr);
        u32 want = 2 == end ? std::min( total, stop % total + 1) : 1 == end ? thr + 1 : total;
        CHECK( got == want, VALUE | CONTROL, "%u of %u values", got, want);
    }
};

// ---- S6: endless moves ---------------------------------------------------------------------------
template< typename K, bool Pull > void moves( u32 n, u32 salt) {
    typedef Live< K, Pull > L; typedef typename L::C C; typedef typename L::St St;
    enum { N = 8 };
    std::vector< std::unique_ptr< St > > st; std::vector< C > v; int who[N];
    v.reserve( N);
    for ( u32 i = 0; i < N; ++i) { st.emplace_back( new St{ i, 0, 900 }); v.push_back( L::start( st.back().get() ) ); who[i] = static_cast< int >( i); }
    for ( u32 k = 0; k < n; ++k) {
        u32 r = h( k, salt), a = r % N, b = ( r >> 4) % N;
        switch ( ( r >> 10) % 8) {
        case 0: case 1: if ( a != b) { std::swap( v[a], v[b]); std::swap( who[a], who[b]); } break;
        case 2: case 3: { C t( std::move( v[a]) ); CHECK( ! v[a], VALID | MOVE, "moved-from tests true"); v[a] = std::move( t); CHECK( ! t, VALID | MOVE, "moved-from tests true"); break; }
        case 4: if ( a != b && who[b] < 0) { v[b] = std::move( v[a]); who[b] = who[a]; who[a] = -1; } break;
        case 5: { C * p = & v[a]; v[a] = std::move( * p); break; }
        case 6: if ( who[a] >= 0 && 0 == ( r >> 14) % 5) { if ( v[a]) L::step( v[a], * st[static_cast< unsigned >( who[a])] ); }
                else if ( who[a] >= 0 && 0 == ( r >> 14) % 64 && a != b && who[b] >= 0) { v[b] = std::move( v[a]); who[b] = who[a]; who[a] = -1; }       // destroys the other one
                break;
        default: break;
        }
        CHECK( static_cast< bool >( v[a]) == ( who[a] >= 0 && st[static_cast< unsigned >( who[a])]->pos < st[static_cast< unsigned >( who[a])]->len), VALID | MOVE, "slot tests %s after %u moves", v[a] ? "true" : "false", k);
    }
    for ( u32 i = 0; i < N; ++i)
        if ( who[i] >= 0) { St & x = * st[static_cast< unsigned >( who[i])]; if ( x.pos < x.len) L::step( v[i], x); }
}

// ---- S7: large values ----------------------------------------------------------------------------
template< std::size_t N > struct KBig {
    struct A { unsigned char b[N]; };
    static void fill( A & a, u32 v) { for ( std::size_t i = 0; i < N; i += 7) a.b[i] = static_cast< unsigned char >( v + i); a.b[N - 1] = static_cast< unsigned char >( v); }
    static void check( A const& a, u32 v) { for ( std::size_t i = 0; i < N; i += 7) if ( i != N - 1 && a.b[i] != static_cast< unsigned char >( v + i) ) fail( VALUE, "byte %u of a large value is another one", static_cast< unsigned >( i) ); if ( a.b[N - 1] != static_cast< unsigned char >( v) ) fail( VALUE, "last byte of a large value is another one"); }
    static void run( bool pulls, u32 n, bool abandon) {
        typedef typename co::coroutine< A >::pull_type pull; typedef typename co::coroutine< A >::push_type push;
        u32 got = 0;
        if ( pulls) {
            pull p( make< pull >( [n]( push & o) { Local l( 1); std::unique_ptr< A > a( new A); for ( u32 i = 0; i < n; ++i) { fill( * a, i); o( * a); check( * a, i); } }) );
            std::unique_ptr< A > c( new A);
            for ( ; p; p() ) { std::memcpy( c->b, begin( p)->b, N); check( * c, got); ++got; if ( abandon && got == ( n + 1) / 2) break; }
            CHECK( got == ( abandon ? ( n + 1) / 2 : n), VALUE, "large values lost");
        } else {
            u32 * g = & got;
            push s( make< push >( [g,n]( pull & in) { Local l( 1); for ( ; in; in() ) { check( * begin( in), * g); ++* g; if ( * g == n) break; } }) );
            std::unique_ptr< A > a( new A); u32 sent = 0;
            while ( s) { fill( * a, sent); s( * a); check( * a, sent); ++sent; CHECK( got == sent, CONTROL | VALUE, "large value lost"); if ( abandon && sent == ( n + 1) / 2) break; }
        }
    }
};

// ---- cases -----------------------------------------------------------------------------------------
// ---- S8: objects of static storage duration ------------------------------------------------------
// constructed before main and before anything of the library: destroyed after everything else
struct Hold { virtual ~Hold() {} };
struct Last {
    std::unique_ptr< Hold > h; bool armed;
    Last() : armed( false) {}
    ~Last() {
        if ( ! armed) return;
        h.reset();
        CHECK( 0 == locals, UNWIND, "%ld local objects left", locals);
        CHECK( 0 == stacks_, STACK, "%ld stacks not given back", stacks_);
        CHECK( 0 == objs, PAYLOAD, "%ld values left", objs);
        CHECK( 0 == functors, FUNCTOR, "%ld function objects left", functors);
        CHECK( 0 == excs, EXC, "%ld exception objects left", excs);
        std::fflush( nullptr);
        std::_Exit( 42);
    }
} last;
template< typename K, bool Pull > struct AtExit {
    typedef Live< K, Pull > L; typedef typename L::C C;
    struct H : Hold { std::vector< std::unique_ptr< typename L::St > > st; std::vector< C > v; };
    static void run( u32 n, u32 ops, u32 salt) {
        std::fflush( nullptr);
        pid_t pid = ::fork();
        if ( pid < 0) return;
        if ( 0 == pid) {
            ::alarm( 100);
            H * h = new H; last.h.reset( h);
            for ( u32 i = 0; i < n; ++i) { h->st.emplace_back( new typename L::St{ i, 0, 1 + salt % 9 }); h->v.push_back( L::start( h->st.back().get() ) ); }
            for ( u32 k = 0; k < ops; ++k) { u32 a = eng_mix( k, salt) % n; L::step( h->v[a], * h->st[a]); }
            last.armed = true;
            std::exit( 41);
        }
        int st = 0; while ( ::waitpid( pid, & st, 0) < 0) {}
        if ( WIFEXITED( st) && 42 == WEXITSTATUS( st) ) return;
        if ( WIFEXITED( st) && 0 != WEXITSTATUS( st) && 41 != WEXITSTATUS( st) && 1 != WEXITSTATUS( st) ) ::_exit( WEXITSTATUS( st) );      // reported there
        fail( UNWIND | STACK | CONTROL | PIPE, "program with %u coroutines of static storage duration ended with status %x", n, st);
    }
    static u32 eng_mix( u32 k, u32 salt) { return h( k, salt); }
};

enum Scen { S_LONG, S_CHURN, S_LIVE, S_NEST, S_DEEP, S_MOVES, S_BIG, S_EXIT, S_N };
char const* const scen_name[] = { "long", "churn", "live", "nest", "deep", "moves", "big", "exit" };
template< typename K > void do_kind( int scen, bool pulls, Choices & ch, u32 n) {
    switch ( scen) {
    case S_LONG: { LongP c; c.n = n; c.end = ch.below( 3); c.stop = 2 == c.end ? 1 + ch.below( n + 1) : 0; if ( ! pulls && ! c.n) c.n = 1; c.style = ch.below( 3); c.inner = ch.chance( 1, 3) ? 1 + ch.below( 1000) : 0; c.movep = ch.chance( 1, 3) ? 1 + ch.below( 100) : 0;
        note( "end %u stop %u style %u inner %u moves %u", c.end, c.stop, c.style, c.inner, c.movep); shape( c.end * 64 + c.style * 8 + ( c.inner != 0) * 2 + ( c.movep != 0) );
        if ( pulls) long_pull< K >( c); else long_push< K >( c); break; }
    case S_CHURN: { ChurnP c; c.n = n / ( 0 == sel || 2 == sel ? 1 : 4) + 1; c.salt = ch.below( 1000000); c.modes = 1 + 2 * ch.below( 8) + 16 * ( 1 + ch.below( 3) ); shape( c.modes); note( "modes %x", c.modes); churn< K >( c); break; }
    case S_LIVE: { u32 k = std::min( n / 16 + 1, u32( sel == 4 ? 600 : sel == 1 ? 1000 : 4000) ), ops = std::min( n, 30000u), s = ch.below( 1000000); bool sh = ch.chance( 1, 2); note( "%u coroutines, %u operations", k, ops); shape( k * 2 + sh); if ( pulls) Live< K, true >::run( k, ops, s, sh); else Live< K, false >::run( k, ops, s, sh); break; }
    case S_DEEP: { u32 d = std::min( n / 16 + 1, u32( ssize / 1024) ); unsigned e = ch.below( 3); u32 st = ch.below( 100000); note( "%u frames, end %u stop %u", d, e, st); shape( e * 8192 + d); Deep< K >::run( pulls, d, e, st); break; }
    case S_MOVES: { u32 s = ch.below( 1000000); shape( s); if ( pulls) moves< K, true >( n, s); else moves< K, false >( n, s); break; }
    case S_EXIT: { u32 c = 1 + n % 60, ops = ch.below( 300), s = ch.below( 100000); note( "%u coroutines, %u resumptions", c, ops); shape( c * 1000 + ops); if ( pulls) AtExit< K, true >::run( c, ops, s); else AtExit< K, false >::run( c, ops, s); break; }
    default: break;
    }
}
template< typename K > void do_nest( bool pulls, Choices & ch, u32 n) {
    NestP c; c.depth = std::min( n / 32, u32( sel == 4 ? 500 : sel == 1 ? 700 : 2000) ); c.n = 1 + ch.below( std::max( 1u, std::min( 60u, 40000 / ( c.depth + 1) ) ) ); c.end = ch.below( 3); c.stop = 2 == c.end ? 1 + ch.below( c.n) : 0;
    note( "depth %u values %u end %u stop %u", c.depth, c.n, c.end, c.stop); shape( c.depth * 64 + c.end * 16 + c.n);
    if ( pulls) Nest< K >::generators( c); else Nest< K >::sinks( c);
}

int now_scen = 0; bool carries = false;
unsigned attribution( unsigned a) {
    if ( carries && ( a & CONTROL) ) a |= VALUE;
    if ( S_CHURN == now_scen || S_LIVE == now_scen || S_NEST == now_scen || S_EXIT == now_scen) a |= PIPE;     // many coroutines
    if ( S_MOVES == now_scen) a |= MOVE;
    return a;
}

void run_case( Choices & ch, Options const&) {
    w::reset();
    attribute = attribution;
    locals = objs = excs = functors = stacks_ = 0; descending = false;
    static int const pick[] = { S_LONG, S_CHURN, S_LIVE, S_NEST, S_DEEP, S_MOVES, S_BIG, S_LONG, S_CHURN, S_EXIT };
    int scen = pick[ch.below( 10)];
    bool pulls = ! ch.chance( 1, 2);
    unsigned k = ch.below( 5);
    now_scen = scen; carries = 4 != k;
#ifdef SLOW
    u32 e = ch.chance( 1, 3) ? 9 + ch.below( 4) : ch.below( 11);
#else
    u32 e = ch.chance( 1, 3) ? 14 + ch.below( 4) : ch.below( 16);
#endif
    u32 n = ( 1u << e) + ch.below( 1u << e) - 1;
    sel = static_cast< int >( ch.below( 8) ); if ( sel > 4) sel = 0;
    if ( S_NEST == scen && 4 == k) k = 0;
    if ( S_DEEP == scen) { if ( 1 == sel) sel = 0; ssize = 2048 * 1024; if ( 4 == sel) sel = 3; }
    else if ( S_BIG == scen) { if ( 1 == sel) sel = 0; ssize = 512 * 1024; }
    else if ( S_NEST == scen) ssize = 32 * 1024;
    else ssize = ( 24u + 8 * ch.below( 3) ) * 1024;
#ifdef SLOW
    if ( S_DEEP == scen) ssize *= 2; else ssize *= 4;
#endif
    static char const* const sel_name[] = { "user", "default", "pooled", "fixedsize", "protected" };
    static char const* const kinds[] = { "int", "object", "reference", "string", "void" };
    note( "%s, %s of %s, n %u, %s stacks of %u", scen_name[scen], pulls ? "pull_type" : "push_type", kinds[k], n, sel_name[sel], static_cast< unsigned >( ssize) );
    shape( static_cast< u64 >( scen) * 1000 + k * 100 + static_cast< u64 >( sel) * 10 + pulls); shape( n);
    label( ( std::string( scen_name[scen]) + ( n >= 65536 ? " >= 65536" : n >= 4096 ? " >= 4096" : n >= 256 ? " >= 256" : " < 256") ).c_str() );
    label( ( std::string( pulls ? "pull_type of " : "push_type of ") + kinds[k]).c_str() );
    label( ( std::string( "stacks: ") + sel_name[sel]).c_str() );
    if ( n >= 64) nontrivial();
    // results that are compared between builds: none, every case is decided by itself
    long before = blocks;
    {
        std::unique_ptr< co::pooled_fixedsize_stack > po;
        if ( 2 == sel) { po.reset( new co::pooled_fixedsize_stack( ssize) ); pool = po.get(); }
        if ( S_BIG == scen) { u32 c = 1 + n % 60; bool ab = ch.chance( 1, 2); switch ( k % 3) { case 0: KBig< 5000 >::run( pulls, c, ab); break; case 1: KBig< 40001 >::run( pulls, c, ab); break; default: KBig< 100003 >::run( pulls, c, ab); break; } }
        else if ( S_NEST == scen) switch ( k) { case 0: do_nest< KInt >( pulls, ch, n); break; case 1: do_nest< KObj >( pulls, ch, n); break; case 2: do_nest< KRef >( pulls, ch, n); break; default: do_nest< KStr >( pulls, ch, n); break; }
        else switch ( k) { case 0: do_kind< KInt >( scen, pulls, ch, n); break; case 1: do_kind< KObj >( scen, pulls, ch, n); break; case 2: do_kind< KRef >( scen, pulls, ch, n); break; case 3: do_kind< KStr >( scen, pulls, ch, n); break; default: do_kind< KVoid >( scen, pulls, ch, n); break; }
        CHECK( 0 == locals, UNWIND, "%ld local objects left", locals);
        CHECK( 0 == stacks_, STACK, "%ld stacks not given back", stacks_);
        CHECK( 0 == objs, PAYLOAD, "%ld values left", objs);
        CHECK( 0 == functors, FUNCTOR, "%ld function objects left", functors);
        CHECK( 0 == excs, EXC, "%ld exception objects left", excs);
    }
    // memory other than stacks: nothing that grows with the number of coroutines or transfers
    CHECK( blocks - before < 32, STACK | PAYLOAD, "%ld blocks of memory left", blocks - before);
}

}

namespace eng { Harness const harness = { "scale", & run_case, "non-trivial: at least 64 transfers / coroutines / moves" }; }
