// Fault harness: a generated script is run without faults, then once for every fault point with that fault
// thrown (allocation, function object copy, payload copy / move, the function itself), also pairs of faults.
#include "world.hpp"

#include <cstdlib>
#include <functional>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <boost/coroutine2/all.hpp>

#if ! defined(__SANITIZE_ADDRESS__) && ! defined(__SANITIZE_THREAD__)
# if defined(__has_feature)
#  if ! __has_feature(address_sanitizer) && ! __has_feature(thread_sanitizer)
#   define COUNT_NEW 1
#  endif
# else
#  define COUNT_NEW 1
# endif
#endif
#ifdef COUNT_NEW
static long blocks;     // live blocks of the free store
void * operator new( std::size_t n) { void * p = std::malloc( n ? n : 1); if ( ! p) std::abort(); ++blocks; return p; }
void operator delete( void * p) noexcept { if ( p) { --blocks; std::free( p); } }
void operator delete( void * p, std::size_t) noexcept { if ( p) { --blocks; std::free( p); } }
#else
static long blocks;
#endif

namespace {

typedef std::uint32_t u32;
namespace co = boost::coroutines2;
using eng::FAULT;

// ---- fault points ------------------------------------------------------------------------------
enum Kind { F_ALLOC, F_FCOPY, F_COPY, F_MOVE, F_BODY, F_KINDS };
char const* const kind_name[] = { "allocate", "function object copy", "payload copy", "payload move", "function body" };
struct Fault { u32 at; int kind; u32 magic; w::ExcLive live; Fault() : at( 0), kind( 0), magic( 0) {} Fault( u32 a, int k, u32 m) : at( a), kind( k), magic( m) {} };
struct Faulty : Fault { std::string s; Faulty( u32 a, int k) : Fault{ a, k, ~a }, s( "fault") {} };     // function bodies throw a derived class
struct FaultA : Fault, std::bad_alloc { explicit FaultA( Fault const& f) : Fault( f) {} };    // as allocations throw
u32 points, plan[2];
bool on;
int fired;          // faults thrown
int surfaced;       // innermost operations they came out of
bool pending;       // thrown, not yet seen by an operation
Fault last;
unsigned kinds_seen[F_KINDS];
void tick( int kind) {
    if ( ! on) return;
    ++points;
    if ( points != plan[0] && points != plan[1]) return;
    ++fired; pending = true;
    last.at = points; last.kind = kind; last.magic = ~points;
    if ( F_BODY == kind) throw Faulty( points, kind);
    if ( F_ALLOC == kind || points & 1) throw FaultA( last);
    throw last;
}
// an operation let an exception out: it must be the one that was thrown
void check( Fault const& f, char const* op) {
    if ( ! fired || f.at != last.at || f.kind != last.kind || f.magic != ~f.at) eng::fail( FAULT | eng::EXC, "%s: another exception (%u) than the one thrown (%u)", op, f.at, last.at);
    if ( F_BODY == f.kind) { Faulty const* d = static_cast< Faulty const* >( & f); if ( d->s != "fault") eng::fail( FAULT | eng::EXC, "%s: exception object damaged", op); }
    if ( pending) { pending = false; ++surfaced; }
}
void no_pending( char const* op) { if ( pending) eng::fail( FAULT | eng::EXC, "%s: the exception of fault point %u (%s) was lost", op, last.at, kind_name[last.kind]); }

// ---- payloads ------------------------------------------------------------------------------------
enum Mode { COPY_MOVE, MOVE_ONLY, COPY_NOTHROW_MOVE, COPY_ONLY };
struct Base {
    u32 v; Base const* self; u32 guard;
    explicit Base( u32 x) : v( x), self( this), guard( ~x) { w::reg( this, w::PAYLOAD_OBJ, x); }
    void alive( char const* op) const { if ( self != this || ! w::alive( this, w::PAYLOAD_OBJ) ) eng::fail( FAULT | eng::PAYLOAD, "%s an object that is not alive", op); }
    ~Base() { if ( self != this) eng::fail( FAULT | eng::PAYLOAD, "destruction of an object that is not alive"); w::unreg( this, w::PAYLOAD_OBJ); self = nullptr; v = 0xbadbadu; }
    u32 read() const { alive( "reads"); if ( v != w::MOVED && guard != ~v) eng::fail( FAULT | eng::VALUE, "value damaged"); return v; }
    Base( Base const& o, int kind) : self( this) { o.alive( F_COPY == kind ? "copy of" : "move of"); tick( kind); v = o.v; guard = o.guard; w::reg( this, w::PAYLOAD_OBJ, v); }
    Base( Base & o, std::true_type) noexcept : v( o.v), self( this), guard( o.guard) { o.alive( "move of"); w::reg( this, w::PAYLOAD_OBJ, v); }
    void gone() { v = w::MOVED; }
};
struct PCM : Base { explicit PCM( u32 x) : Base( x) {} PCM( PCM const& o) : Base( o, F_COPY) {} PCM( PCM && o) : Base( o, F_MOVE) { o.gone(); } };
struct alignas( 128) PCMA : Base { unsigned char b[300]; explicit PCMA( u32 x) : Base( x) { fill(); } PCMA( PCMA const& o) : Base( o, F_COPY) { cp( o); } PCMA( PCMA && o) : Base( o, F_MOVE) { cp( o); o.gone(); }
    void fill() { std::memset( b, static_cast< int >( v & 0x7f), sizeof( b) ); } void cp( PCMA const& o) { std::memcpy( b, o.b, sizeof( b) ); } };
struct PM : Base { explicit PM( u32 x) : Base( x) {} PM( PM const&) = delete; PM( PM && o) : Base( o, F_MOVE) { o.gone(); } };
struct PN : Base { std::string s; explicit PN( u32 x) : Base( x), s( 40, 'n') {} PN( PN const& o) : Base( o, F_COPY), s( o.s) {} PN( PN && o) noexcept : Base( o, std::true_type() ), s( std::move( o.s) ) { o.gone(); } };
struct PO : Base { explicit PO( u32 x) : Base( x) {} PO( PO const& o) : Base( o, F_COPY) {} };

// ---- function objects and allocators -------------------------------------------------------------
struct FTok {
    u32 magic;
    FTok() : magic( 0x51515151u) { w::reg( this, w::FUNCTOR_OBJ, 1); }
    FTok( FTok const& o) : magic( o.magic) { o.ok(); tick( F_FCOPY); w::reg( this, w::FUNCTOR_OBJ, 1); }
    FTok( FTok && o) noexcept : magic( o.magic) { o.ok(); w::reg( this, w::FUNCTOR_OBJ, 1); }
    ~FTok() { ok(); w::unreg( this, w::FUNCTOR_OBJ); magic = 0; }
    void ok() const { if ( magic != 0x51515151u || ! w::alive( this, w::FUNCTOR_OBJ) ) eng::fail( FAULT | eng::FUNCTOR, "function object is not alive"); }
};
struct TAlloc {
    u32 id;
    explicit TAlloc( u32 i) : id( i) {}
    boost::context::stack_context allocate() { tick( F_ALLOC); return w::stack_get( id); }
    void deallocate( boost::context::stack_context & s) { w::stack_put( id, s); }
};

// ---- scripts ---------------------------------------------------------------------------------------
enum OnFault { RETRY, SKIP, ESCAPE };
struct Script {
    bool pull; int type; int fmode; int forms; unsigned n; int inner_policy, outer_policy; unsigned stop; bool read_copy; unsigned moves; int locals;
    std::vector< Script > nested; std::vector< unsigned > at;       // scripts run by the function before step at[i]
};
struct Local { u32 id; explicit Local( u32 i) : id( i) { w::reg( this, w::LOCAL_OBJ, i); } ~Local() { w::unreg( this, w::LOCAL_OBJ); } };

u32 serial;     // values are unique in a run
template< typename T > struct Run {
    typedef typename co::coroutine< T >::pull_type pull_t;
    typedef typename co::coroutine< T >::push_type push_t;
    Script const& s;
    std::vector< u32 > sent, got;
    bool in_body, body_threw, entered;
    explicit Run( Script const& x) : s( x), in_body( false), body_threw( false), entered( false) {}

    template< typename P > static void send( P & p, T & v, int form, std::true_type) { switch ( form % 3) { case 0: p( v); break; case 1: p( static_cast< T const& >( v) ); break; default: p( std::move( v) ); } }
    template< typename P > static void send( P & p, T & v, int, std::false_type) { p( std::move( v) ); }
    typedef std::integral_constant< bool, ! std::is_same< T, PM >::value > can_copy;

    // receives one value; copies of the user are fault points, too
    u32 receive( pull_t & p, bool, std::false_type) { return ( * begin( p) ).read(); }
    u32 receive( pull_t & p, bool cp, std::true_type) { if ( ! cp) return ( * begin( p) ).read(); T x( * begin( p) ); return x.read(); }

    struct Body {
        Run * r; FTok t;
        explicit Body( Run * x) : r( x) {}
        template< typename P > void operator()( P & p) {
            t.ok();
            if ( r->in_body) eng::fail( FAULT | eng::CONTROL, "function entered twice");
            r->entered = r->in_body = true;
            struct Leave { Run * r; ~Leave() { r->in_body = false; } } leave = { r };
            Local l( 1);
            try { r->body( p); } catch ( Fault const& f) { check( f, "function"); r->body_threw = true; throw; }
            t.ok();
        }
    };
    void nested( unsigned i) { for ( std::size_t k = 0; k < s.at.size(); ++k) if ( s.at[k] == i) run_script( s.nested[k]); }
    static void run_script( Script const& s);

    // function of a pull_type: sends
    void body( push_t & out) {
        Local l( 2);
        for ( unsigned i = 0; i < s.n; ++i) {
            tick( F_BODY);
            nested( i);
            Local m( 10 + i);
            T v( ++serial);
            u32 id = v.v;
            for ( ;;) {
                bool failed = false;
                sent.push_back( id);
                std::size_t mark = sent.size();
                try { send( out, v, s.forms + static_cast< int >( i), can_copy() ); no_pending( "push in the function"); }
                catch ( Fault const& f) {
                    check( f, "push in the function");
                    if ( F_COPY != f.kind && F_MOVE != f.kind) eng::fail( FAULT, "push in the function throws what is not its own");
                    if ( sent.size() != mark) eng::fail( FAULT | eng::CONTROL, "control has left a push that fails");
                    sent.pop_back();
                    if ( v.read() != id && w::MOVED != v.read() ) eng::fail( FAULT | eng::VALUE, "original damaged by a failing push");
                    if ( ESCAPE == s.inner_policy) throw;
                    failed = true;
                }
                if ( ! out) eng::fail( FAULT | eng::VALID, "counterpart tests false while the function runs");
                if ( failed && RETRY == s.inner_policy && v.read() == id) continue;
                break;
            }
        }
        tick( F_BODY);
    }
    // function of a push_type: receives
    void body( pull_t & in) {
        Local l( 2);
        unsigned i = 0;
        while ( in) {
            tick( F_BODY);
            Local m( 10 + i);
            // a fault in the user's own copy: the value is still there
            try { got.push_back( receive( in, s.read_copy, can_copy() ) ); } catch ( Fault const& f) { check( f, "copy of the received value"); if ( ESCAPE == s.inner_policy) { got.push_back( ( * begin( in) ).read() ); throw; } got.push_back( ( * begin( in) ).read() ); }
            nested( i);
            if ( i++ == s.n) break;
            in();
            no_pending( "pull in the function");
        }
        tick( F_BODY);
    }

    // creation: on failure nothing must be left
    template< typename C > std::unique_ptr< C > create() {
        std::unique_ptr< C > c;
        Body f( this);
        unsigned fl = w::count( w::FUNCTOR_OBJ), sl = w::stacks_live(), pl = w::count( w::PAYLOAD_OBJ), ll = w::count( w::LOCAL_OBJ);
        for ( ;;) {
            bool threw = false;
            try {
                switch ( s.fmode) {
                case 0: c.reset( new C( TAlloc( 7), f) ); break;
                case 1: c.reset( new C( TAlloc( 7), static_cast< Body const& >( f) ) ); break;
                case 2: { TAlloc a( 7); Body g( std::move( f) ); c.reset( new C( a, std::move( g) ) ); break; }
                default: { TAlloc a( 7); Run * r = this; FTok t; auto g = [r,t]( typename std::conditional< std::is_same< C, pull_t >::value, push_t, pull_t >::type & p) mutable { t.ok(); Body b( r); b( p); }; c.reset( new C( a, g) ); break; }
                }
                no_pending( "creation");
            } catch ( Fault const& e) {
                check( e, "creation"); threw = true;
                if ( w::count( w::FUNCTOR_OBJ) != fl) eng::fail( FAULT | eng::FUNCTOR, "failed creation leaves a copy of the function object");
                if ( w::stacks_live() != sl) eng::fail( FAULT | eng::STACK, "failed creation leaves a stack allocated (%s)", kind_name[e.kind]);
                if ( w::count( w::PAYLOAD_OBJ) != pl || w::count( w::LOCAL_OBJ) != ll) eng::fail( FAULT | eng::UNWIND, "failed creation leaves objects");
                if ( in_body) eng::fail( FAULT | eng::UNWIND, "function still active after a failed creation");
            }
            f.t.ok();
            if ( ! threw) break;
            if ( body_threw || ESCAPE == s.outer_policy) { if ( ESCAPE == s.outer_policy) { rethrow_ = true; } return std::unique_ptr< C >(); }
        }
        return c;
    }
    bool rethrow_;
    void compare( std::size_t received_upto) {
        if ( got.size() > sent.size() || ( got.size() != received_upto) ) eng::fail( FAULT | eng::VALUE, "%lu values sent, %lu received", static_cast< unsigned long >( sent.size() ), static_cast< unsigned long >( got.size() ) );
        for ( std::size_t i = 0; i < got.size(); ++i) if ( got[i] != sent[i]) eng::fail( FAULT | eng::VALUE, "value %lu received is %u instead of %u", static_cast< unsigned long >( i), got[i], sent[i]);
    }
    void go_pull() {
        std::unique_ptr< pull_t > c = create< pull_t >();
        if ( ! c) return;
        unsigned k = 0;
        while ( * c) {
            if ( body_threw || ! in_body) eng::fail( FAULT | eng::VALID, "pull_type tests true although its function has ended");
            got.push_back( ( * begin( * c) ).read() );
            if ( k++ == s.stop) break;
            if ( s.moves >> ( k % 8) & 1) { pull_t d( std::move( * c) ); * c = std::move( d); }
            try { ( * c)(); no_pending( "resumption"); }
            catch ( Fault const& f) {
                check( f, "resumption");
                if ( ! body_threw) eng::fail( FAULT | eng::EXC, "resumption throws although the function did not");
                if ( * c) eng::fail( FAULT | eng::VALID, "pull_type tests true after its function has thrown");
                if ( ESCAPE == s.outer_policy) { compare( got.size() ); throw; }
                break;
            }
            if ( body_threw) eng::fail( FAULT | eng::EXC, "exception of the function lost");
        }
        c.reset();
        if ( in_body) eng::fail( FAULT | eng::UNWIND, "function still active after destruction");
        if ( got.size() != sent.size() ) eng::fail( FAULT | eng::VALUE, "%lu values sent, %lu received", static_cast< unsigned long >( sent.size() ), static_cast< unsigned long >( got.size() ) );
    }
    void go_push() {
        std::unique_ptr< push_t > c = create< push_t >();
        if ( ! c) return;
        if ( entered) eng::fail( FAULT | eng::CONTROL, "function entered by the construction");
        for ( unsigned i = 0; * c && i <= s.stop; ++i) {
            T v( ++serial);
            u32 id = v.v;
            for ( ;;) {
                std::size_t before = got.size();
                bool had_entered = entered, again = false;
                if ( s.moves >> ( i % 8) & 1) { push_t d( std::move( * c) ); * c = std::move( d); }
                try { send( * c, v, s.forms + static_cast< int >( i), can_copy() ); no_pending( "push"); sent.push_back( id); if ( got.size() != before + 1) eng::fail( FAULT | eng::CONTROL, "a push has been received %lu times", static_cast< unsigned long >( got.size() - before) ); }
                catch ( Fault const& f) {
                    check( f, "push");
                    if ( body_threw) {
                        if ( * c) eng::fail( FAULT | eng::VALID, "push_type tests true after its function has thrown");
                        if ( in_body) eng::fail( FAULT | eng::UNWIND, "function still active after its exception");
                        if ( got.size() != before) sent.push_back( id);
                    } else {
                        // only the copy of the value can have failed: nothing was transferred, both sides are as before
                        if ( F_COPY != f.kind && F_MOVE != f.kind) eng::fail( FAULT, "push fails with a foreign exception");
                        if ( got.size() != before || entered != had_entered) eng::fail( FAULT | eng::CONTROL, "a push that fails has resumed the function");
                        if ( ! * c) eng::fail( FAULT | eng::VALID, "push_type tests false after a failing push");
                        if ( in_body != entered) eng::fail( FAULT | eng::UNWIND, "function ended by a failing push");
                        again = RETRY == s.outer_policy && v.read() == id;
                    }
                    if ( ESCAPE == s.outer_policy) throw;
                }
                if ( ! again) break;
            }
        }
        compare( sent.size() );
        c.reset();
        if ( in_body) eng::fail( FAULT | eng::UNWIND, "function still active after destruction");
        compare( sent.size() );
    }
    void go() {
        unsigned sl = w::stacks_live(), pl = w::count( w::PAYLOAD_OBJ), ll = w::count( w::LOCAL_OBJ), fl = w::count( w::FUNCTOR_OBJ);
        rethrow_ = false;
        bool threw = false; Fault f;
        try { if ( s.pull) go_pull(); else go_push(); } catch ( Fault const& e) { f = e; threw = true; }
        if ( w::stacks_live() != sl) eng::fail( FAULT | eng::STACK, "stack leaked");
        if ( w::count( w::PAYLOAD_OBJ) != pl) eng::fail( FAULT | eng::PAYLOAD, "transferred object leaked");
        if ( w::count( w::LOCAL_OBJ) != ll) eng::fail( FAULT | eng::UNWIND, "local object leaked");
        if ( w::count( w::FUNCTOR_OBJ) != fl) eng::fail( FAULT | eng::FUNCTOR, "function object leaked");
        if ( in_body) eng::fail( FAULT | eng::UNWIND, "function still active");
        if ( threw || rethrow_) { if ( F_BODY == last.kind) throw Faulty( last.at, last.kind); throw last; }
    }
};
template< typename T > void run_typed( Script const& s) { Run< T > r( s); r.go(); }
void run_any( Script const& s) {
    switch ( s.type) {
    case 0: run_typed< PCM >( s); break;
    case 1: run_typed< PM >( s); break;
    case 2: run_typed< PN >( s); break;
    case 3: run_typed< PO >( s); break;
    default: run_typed< PCMA >( s); break;
    }
}
template< typename T > void Run< T >::run_script( Script const& s) { run_any( s); }

Script gen( eng::Choices & ch, unsigned depth) {
    Script s;
    s.pull = ch.chance( 1, 2); s.type = static_cast< int >( ch.below( 5) ); s.fmode = static_cast< int >( ch.below( 4) ); s.forms = static_cast< int >( ch.below( 3) );
    s.n = ch.below( depth ? 4 : 6); s.inner_policy = static_cast< int >( ch.below( 3) ); s.outer_policy = static_cast< int >( ch.below( 3) ); s.stop = ch.below( 7); s.read_copy = ch.chance( 1, 3);
    s.moves = ch.chance( 1, 3) ? ch.below( 256) : 0; s.locals = 0;
    eng::shape( s.pull); eng::shape( static_cast< unsigned >( s.type) ); eng::shape( static_cast< unsigned >( s.fmode) ); eng::shape( static_cast< unsigned >( s.forms) ); eng::shape( s.n); eng::shape( static_cast< unsigned >( s.inner_policy * 3 + s.outer_policy) ); eng::shape( s.stop); eng::shape( s.moves);
    static char const* const t[] = { "copyable", "move-only", "nothrow-movable", "copy-only", "large over-aligned" };
    static char const* const p[] = { "retry", "skip", "let escape" };
    eng::note( "%*s%s of %s values, function object form %d, push form %d, %u steps, receiver stops after %u, on a fault: function %s, user %s%s%s", static_cast< int >( depth * 2), "", s.pull ? "pull_type" : "push_type", t[s.type], s.fmode, s.forms, s.n, s.stop, p[s.inner_policy], p[s.outer_policy],
               s.read_copy ? ", values are copied out" : "", s.moves ? ", coroutine object moved" : "");
    unsigned k = depth < 2 && ch.chance( 1, depth ? 4 : 2) ? 1 + ch.below( 2) : 0;
    for ( unsigned i = 0; i < k; ++i) { s.at.push_back( ch.below( s.n + 1) ); eng::shape( s.at.back() ); s.nested.push_back( gen( ch, depth + 1) ); }
    return s;
}
void once( Script const& s, u32 a, u32 b) {
    points = 0; plan[0] = a; plan[1] = b; fired = surfaced = 0; pending = false; serial = 100; on = true;
    bool threw = false;
    try { run_any( s); } catch ( Fault const& f) { threw = true; check( f, "script"); }
    on = false;
    if ( threw && ! fired) eng::fail( FAULT | eng::EXC, "exception without a fault");
    if ( fired != surfaced) eng::fail( FAULT | eng::EXC, "%d faults, %d came out of the operation in which they happened", fired, surfaced);
    if ( w::stacks_live() || w::count( w::PAYLOAD_OBJ) || w::count( w::FUNCTOR_OBJ) || w::count( w::LOCAL_OBJ) ) eng::fail( FAULT | eng::STACK | eng::PAYLOAD, "something leaked: %u stacks, %u values, %u function objects, %u locals", w::stacks_live(), w::count( w::PAYLOAD_OBJ), w::count( w::FUNCTOR_OBJ), w::count( w::LOCAL_OBJ) );
    if ( fired) ++kinds_seen[last.kind];
}
// allocators of the library that cannot provide the memory
void huge( unsigned how) {
    struct G { unsigned * n; G( unsigned * x) : n( x) { ++ * n; } G( G const& o) : n( o.n) { ++ * n; } ~G() { -- * n; } void operator()( co::coroutine< int >::push_type & p) { p( 1); } void operator()( co::coroutine< int >::pull_type &) {} };
    unsigned n = 0; bool threw = false;
    {
        G g( & n);
        try {
            if ( how & 1) co::coroutine< int >::pull_type c( co::protected_fixedsize_stack( static_cast< std::size_t >( 1) << 55), g);
            else co::coroutine< int >::push_type c( co::protected_fixedsize_stack( static_cast< std::size_t >( 1) << 55), g);
        } catch ( std::bad_alloc const&) { threw = true; }
        if ( 1 != n) eng::fail( FAULT | eng::FUNCTOR, "function object leaked by a creation without memory");
    }
    if ( ! threw) eng::fail( FAULT | eng::EXC, "no exception although the stack cannot be allocated");
}

}

namespace eng {
static void run( Choices & ch, Options const&) {
    w::reset();
    w::stack_events = false;
    std::memset( kinds_seen, 0, sizeof( kinds_seen) );
    Script s = gen( ch, 0);
    once( s, 0, 0);
    u32 n = points;
    if ( n) once( s, n, 0);
    long b = blocks, ex = w::exc_live;
    once( s, 0, 0);
    if ( b != blocks) fail( FAULT | STACK, "%ld blocks of the free store are leaked by a run without faults", blocks - b);
    if ( n) { once( s, n, 0); if ( b != blocks) fail( FAULT | STACK, "%ld blocks of the free store are leaked by a run with a fault at point %u", blocks - b, n); }
    if ( n > 300) n = 300;
    for ( u32 k = 1; k <= n; ++k) {
        if ( verbose() ) note( "fault at point %u", k);
        once( s, k, 0);
        if ( ex != w::exc_live) fail( FAULT | EXC, "%ld exception objects outlive the coroutines after a fault at point %u", w::exc_live - ex, k);
        trace( fired); trace( surfaced);
    }
    for ( u32 i = 0; i < 4 && n; ++i) { u32 a = 1 + ch.below( n), b = a + 1 + ch.below( 5); if ( verbose() ) note( "faults at points %u and %u", a, b); once( s, a, b); trace( fired); }
    if ( ch.chance( 1, 20) ) { label( "no memory"); huge( ch.below( 2) ); }
    w::stacks_end_of_case();
    unsigned k = 0;
    for ( int i = 0; i < F_KINDS; ++i) if ( kinds_seen[i]) { label( kind_name[i]); ++k; }
    label( s.pull ? "pull_type" : "push_type");
    if ( k >= 2) nontrivial();
}
Harness const harness = { "fault", run,
    "a case draws a script (side, payload class, how function object and values are handed over, steps, where the receiver stops, what function and user do on a fault: retry, skip, let it escape; moves of the coroutine object; scripts "
    "nested up to two deep inside the function), runs it without faults to number its fault points, then once per fault point (all of them, up to 300) with exactly that fault thrown, and 4 times with two faults. Oracle: the very exception "
    "comes out of the innermost operation and of nothing else, the other side is as before, retries deliver sent == received, nothing is leaked or released twice. Non-trivial: faults of at least 2 kinds were thrown." };
}
