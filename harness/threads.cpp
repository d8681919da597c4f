// Threads harness: coroutines are created, resumed, moved and destroyed by several threads at the same time, each coroutine by
// one thread per round; between the rounds they change hands. Oracle: every coroutine behaves as in a single thread.
#include "world.hpp"

#include <atomic>
#include <cstdlib>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <utility>
#include <vector>

#include <pthread.h>

#include <boost/coroutine2/all.hpp>

namespace {

typedef std::uint32_t u32;
namespace co = boost::coroutines2;
using eng::THREAD;

std::mutex fail_mtx;
#define BAD( ...) do { fail_mtx.lock(); eng::fail( THREAD, __VA_ARGS__); } while ( false)

struct Boom { u32 id; };

// everything a coroutine does is recorded here; used by one thread at a time
struct Rec {
    u32 id, n; int end; bool nested, catches, deep; unsigned type; bool pull; int alloc; u32 stop_inner;
    u32 entered, left, steps, live, received; u32 stacks, stacks_back;
    std::vector< std::thread::id > on;
};
u32 value( u32 id, u32 i) { return ( id * 7919u + i * 104729u) & 0x7fffffff; }

struct Obj { Rec * r; std::string s; explicit Obj( Rec * x) : r( x), s( 30, 'o') { ++r->live; } Obj( Obj const& o) : r( o.r), s( o.s) { ++r->live; } Obj( Obj && o) : r( o.r), s( o.s) { ++r->live; } ~Obj() { --r->live; if ( s != std::string( 30, 'o') ) BAD( "local object damaged"); } };
struct Alloc {      // counts per coroutine
    Rec * r; co::fixedsize_stack a;
    explicit Alloc( Rec * x) : r( x), a( 96 * 1024) {}
    boost::context::stack_context allocate() { ++r->stacks; return a.allocate(); }
    void deallocate( boost::context::stack_context & s) { ++r->stacks_back; a.deallocate( s); }
};

template< typename T > struct El;
template< > struct El< u32 > { static void put( co::coroutine< u32 >::push_type & p, u32 v) { p( v); } static u32 get( co::coroutine< u32 >::pull_type & p) { return p.get(); } };
template< > struct El< std::string > { static void put( co::coroutine< std::string >::push_type & p, u32 v) { p( std::to_string( v) + " is a long enough string"); } static u32 get( co::coroutine< std::string >::pull_type & p) { std::string const& s = * begin( p); if ( s.find( " is a long enough string") == std::string::npos) BAD( "string damaged"); return static_cast< u32 >( std::strtoul( s.c_str(), nullptr, 10) ); } };
template< > struct El< std::unique_ptr< u32 > > { static void put( co::coroutine< std::unique_ptr< u32 > >::push_type & p, u32 v) { p( std::unique_ptr< u32 >( new u32( v) ) ); } static u32 get( co::coroutine< std::unique_ptr< u32 > >::pull_type & p) { std::unique_ptr< u32 > & q = * begin( p); return q ? * q : 0; } };
template< > struct El< u32 & > { static void put( co::coroutine< u32 & >::push_type & p, u32 v) { u32 x = v; p( x); } static u32 get( co::coroutine< u32 & >::pull_type & p) { return p.get(); } };
template< > struct El< void > { static void put( co::coroutine< void >::push_type & p, u32) { p(); } static u32 get( co::coroutine< void >::pull_type &) { return 0; } };
template< typename T > bool has_value() { return ! std::is_void< T >::value; }

u32 dig( unsigned n, u32 x) { volatile u32 b[8]; b[n % 8] = x; u32 r = n ? dig( n - 1, x + n) : x; return r + b[n % 8]; }
void extras( Rec * r, u32 i) {
    if ( r->catches && i % 2) { bool c = false; try { throw Boom{ r->id + i }; } catch ( Boom const& b) { c = b.id == r->id + i; } if ( ! c) BAD( "exception inside of a function mixed up"); }
    if ( r->deep) { if ( dig( 30, i) != dig( 30, i) ) BAD( "stack damaged"); }
}
struct Body {
    Rec * r; Obj o;
    explicit Body( Rec * x) : r( x), o( x) {}
    struct Leave { Rec * r; ~Leave() { ++r->left; } };
    // a generator kept alive inside of the function: it changes threads together with its owner
    typedef co::coroutine< std::string > inner_t;
    std::unique_ptr< inner_t::pull_type > inner() {
        if ( ! r->nested) return std::unique_ptr< inner_t::pull_type >();
        Rec * q = r;
        return std::unique_ptr< inner_t::pull_type >( new inner_t::pull_type( co::fixedsize_stack( 64 * 1024), [q]( inner_t::push_type & p) { Obj x( q); for ( u32 i = 0; i < q->stop_inner; ++i) p( std::to_string( value( q->id, i + 5) ) ); }) );
    }
    void use( std::unique_ptr< inner_t::pull_type > & g, u32 i) {
        if ( ! g) return;
        if ( ( i < r->stop_inner) != static_cast< bool >( * g) ) BAD( "inner generator %s", * g ? "too long" : "ends too early");
        if ( ! * g) return;
        if ( ( * begin( * g) ) != std::to_string( value( r->id, i + 5) ) ) BAD( "inner generator delivers another value");
        ( * g)();
    }
    template< typename T > void run( typename boost::coroutines2::detail::push_coroutine< T > & out) {
        start();
        Leave l = { r }; Obj x( r);
        std::unique_ptr< inner_t::pull_type > g = inner();
        for ( u32 i = 0; i < r->n; ++i) { Obj y( r); extras( r, i); use( g, i); ++r->steps; El< T >::put( out, value( r->id, i) ); if ( ! out) BAD( "counterpart tests false"); }
        if ( r->end) throw Boom{ r->id };
    }
    template< typename T > void run( typename boost::coroutines2::detail::pull_coroutine< T > & in) {
        start();
        Leave l = { r }; Obj x( r);
        std::unique_ptr< inner_t::pull_type > g = inner();
        u32 i = 0;
        while ( in) {
            Obj y( r);
            if ( has_value< T >() && value( r->id, i) != El< T >::get( in) ) BAD( "value %u received by coroutine %u is another one", i, r->id);
            ++r->received; ++r->steps; extras( r, i); use( g, i);
            if ( ++i == r->n) break;
            in();
        }
        if ( r->end) throw Boom{ r->id };
    }
    void start() { if ( r->entered++) BAD( "function entered twice"); }
};
template< typename T > struct PullBody : Body { explicit PullBody( Rec * x) : Body( x) {} void operator()( typename co::coroutine< T >::push_type & p) { run< T >( p); } };
template< typename T > struct PushBody : Body { explicit PushBody( Rec * x) : Body( x) {} void operator()( typename co::coroutine< T >::pull_type & p) { run< T >( p); } };

struct Slot {
    Rec rec;
    bool created, destroyed; u32 pos;
    std::thread::id keeper;         // thread that destroys it when it ends
    Slot() : created( false), destroyed( false), pos( 0) {}
    virtual ~Slot() {}
    virtual void create() = 0; virtual void step() = 0; virtual void shuffle() = 0; virtual void destroy() = 0;
    void finished() const {
        if ( rec.live) BAD( "%u objects of coroutine %u still alive after its destruction", rec.live, rec.id);
        if ( rec.entered != rec.left) BAD( "function of coroutine %u not unwound", rec.id);
        if ( 1 == rec.alloc && ( 1 != rec.stacks || 1 != rec.stacks_back) ) BAD( "coroutine %u allocated %u stacks and returned %u", rec.id, rec.stacks, rec.stacks_back);
    }
};
template< typename C, typename F > C * build( Rec & r, F && f) {
    switch ( r.alloc) {
    case 1: return new C( Alloc( & r), std::forward< F >( f) );
    case 2: { co::pooled_fixedsize_stack a( 96 * 1024); return new C( a, std::forward< F >( f) ); }
    case 3: return new C( co::protected_fixedsize_stack( 96 * 1024), std::forward< F >( f) );
    default: return new C( std::forward< F >( f) );
    }
}
template< typename T > struct PullSlot : Slot {
    typedef typename co::coroutine< T >::pull_type C;
    std::unique_ptr< C > c; bool thrown;
    PullSlot() : thrown( false) {}
    void look( bool now_thrown) {
        bool over = pos >= rec.n;
        if ( now_thrown != ( over && rec.end && ! thrown) ) BAD( "coroutine %u: exception %s", rec.id, now_thrown ? "not expected" : "lost");
        thrown = thrown || now_thrown;
        if ( c && over == static_cast< bool >( * c) ) BAD( "coroutine %u tests %d after %u of %u values", rec.id, static_cast< bool >( * c), pos, rec.n);
        if ( ! over && has_value< T >() && value( rec.id, pos) != El< T >::get( * c) ) BAD( "coroutine %u: value %u is another one", rec.id, pos);
        if ( rec.steps != ( over ? rec.n : pos + 1) ) BAD( "coroutine %u made %u steps instead of %u", rec.id, rec.steps, pos + 1);
    }
    void create() override { created = true; bool t = false; try { PullBody< T > f( & rec); if ( rec.id & 1) c.reset( build< C >( rec, f) ); else c.reset( build< C >( rec, std::move( f) ) ); } catch ( Boom const& b) { t = true; if ( b.id != rec.id) BAD( "exception of coroutine %u arrives at %u", b.id, rec.id); } look( t); if ( t) { destroyed = true; finished(); } }
    void step() override { if ( ! * c) return; ++pos; bool t = false; try { ( * c)(); } catch ( Boom const& b) { t = true; if ( b.id != rec.id) BAD( "exception of coroutine %u arrives at %u", b.id, rec.id); } look( t); }
    void shuffle() override { bool v = static_cast< bool >( * c); std::unique_ptr< C > d( new C( std::move( * c) ) ); if ( * c || v != static_cast< bool >( * d) ) BAD( "move changes coroutine %u", rec.id); c.swap( d); }
    void destroy() override { c.reset(); destroyed = true; finished(); }
};
template< typename T > struct PushSlot : Slot {
    typedef typename co::coroutine< T >::push_type C;
    std::unique_ptr< C > c;
    void create() override { created = true; PushBody< T > f( & rec); if ( rec.id & 1) c.reset( build< C >( rec, f) ); else c.reset( build< C >( rec, std::move( f) ) ); if ( rec.entered || ! * c) BAD( "construction of push_type %u", rec.id); }
    void step() override {
        if ( ! * c) { if ( pos < rec.n) BAD( "push_type %u tests false after %u of %u values", rec.id, pos, rec.n); return; }
        bool t = false;
        try { El< T >::put( * c, value( rec.id, pos) ); } catch ( Boom const& b) { t = true; if ( b.id != rec.id) BAD( "exception of coroutine %u arrives at %u", b.id, rec.id); }
        ++pos;
        if ( rec.received != pos) BAD( "push_type %u: %u values received instead of %u", rec.id, rec.received, pos);
        if ( t != ( rec.end && pos >= rec.n) ) BAD( "push_type %u: exception %s", rec.id, t ? "not expected" : "lost");
        if ( static_cast< bool >( * c) != ( pos < rec.n) ) BAD( "push_type %u tests %d after %u of %u values", rec.id, static_cast< bool >( * c), pos, rec.n);
    }
    void shuffle() override { bool v = static_cast< bool >( * c); std::unique_ptr< C > d( new C( std::move( * c) ) ); if ( * c || v != static_cast< bool >( * d) ) BAD( "move changes coroutine %u", rec.id); c.swap( d); }
    void destroy() override { c.reset(); destroyed = true; finished(); }
};
template< typename T > Slot * make_slot( bool pull) { if ( pull) return new PullSlot< T >(); return new PushSlot< T >(); }

enum Act { A_STEP, A_SHUFFLE, A_DESTROY, A_OWN, A_EXIT, A_KEEP };
struct Task { unsigned slot; unsigned act; unsigned times; };
// coroutines that are destroyed when their thread ends, after everything else that is local to the thread
struct Holder { std::vector< Slot * > v; ~Holder() { for ( Slot * s : v) if ( s->created && ! s->destroyed) s->destroy(); } };
// coroutines that are destroyed when the stack of their thread is unwound: by return, by an exception, by pthread_exit or by cancellation
struct Keep { std::vector< Slot * > v; bool step; Keep() : step( false) {} ~Keep() { for ( Slot * s : v) if ( s->created && ! s->destroyed) { if ( step) s->step(); s->destroy(); } } };
struct LeaveThread { u32 id; };
void leave( unsigned how) {
    if ( 1 == how) throw LeaveThread{ how };
    if ( 2 == how) pthread_exit( nullptr);
#if ! defined(BOOST_USE_TSAN)
    if ( 3 == how) { pthread_cancel( pthread_self() ); pthread_testcancel(); BAD( "cancellation did not take place"); }
#endif
}
Holder & holder() { static thread_local Holder h; return h; }
void act( Slot & s, Task const& t, bool main_thread, Keep * keep = nullptr) {
    if ( s.keeper != std::thread::id() && s.keeper != std::this_thread::get_id() ) return;
    if ( s.destroyed) return;
    if ( s.rec.on.empty() || s.rec.on.back() != std::this_thread::get_id() ) s.rec.on.push_back( std::this_thread::get_id() );
    if ( ! s.created) s.create();
    if ( A_EXIT == t.act) { if ( ! main_thread && s.keeper == std::thread::id() ) { s.keeper = std::this_thread::get_id(); holder().v.push_back( & s); } return; }
    if ( A_KEEP == t.act) { if ( keep && s.keeper == std::thread::id() ) { s.keeper = std::this_thread::get_id(); keep->v.push_back( & s); } return; }
    for ( unsigned i = 0; i < t.times && ! s.destroyed; ++i) {
        if ( A_STEP == t.act) s.step(); else if ( A_SHUFFLE == t.act) s.shuffle(); else s.destroy();
    }
}
// a relay: the threads stay alive and take turns
struct Turn { unsigned thread; Task task; };
void relay( std::vector< std::unique_ptr< Slot > > & slots, std::vector< Turn > const& turns, unsigned me, std::atomic< unsigned > & turn) {
    if ( me) holder();
    for ( unsigned k = 0; k < turns.size(); ++k) {
        if ( turns[k].thread != me) continue;
        for ( unsigned i = 0; turn.load( std::memory_order_acquire) != k; ++i) if ( i > 50) std::this_thread::yield();
        act( * slots[turns[k].task.slot], turns[k].task, 0 == me);
        turn.store( k + 1, std::memory_order_release);
    }
}
void work( std::vector< std::unique_ptr< Slot > > & slots, std::vector< Task > const& tasks, std::atomic< unsigned > & gate, bool main_thread, unsigned how) try {
    if ( ! main_thread) holder();
    // all threads of a round begin together
    gate.fetch_sub( 1, std::memory_order_relaxed);
    for ( unsigned i = 0; i < 20000 && gate.load( std::memory_order_relaxed); ++i) if ( i > 200) std::this_thread::yield();
    Keep keep; keep.step = 0 != ( how & 4);
    for ( Task const& t : tasks) {
        Slot & s = * slots[t.slot];
        if ( A_OWN == t.act) { // a coroutine that never leaves this thread
            Rec r = Rec(); r.id = 9000 + t.slot; r.n = 3; r.alloc = 1;
            { PullBody< u32 > f( & r); co::coroutine< u32 >::pull_type c( Alloc( & r), std::move( f) ); u32 i = 0; for ( u32 v : c) if ( v != value( r.id, i++) ) BAD( "value of a thread's own coroutine"); if ( 3 != i) BAD( "thread's own coroutine"); }
            if ( r.live || r.stacks != r.stacks_back) BAD( "thread's own coroutine leaks");
            continue;
        }
        act( s, t, main_thread, & keep);
    }
    leave( main_thread ? how & 1 : how & 3);
} catch ( LeaveThread const& l) { if ( 1 != l.id) BAD( "another exception leaves the thread"); }

}

namespace eng {
static void run( Choices & ch, Options const&) {
    w::reset();
    std::vector< std::unique_ptr< Slot > > slots;
    unsigned n = 2 + ch.below( 7);
    for ( unsigned i = 0; i < n; ++i) {
        bool pull = ch.chance( 1, 2); unsigned type = ch.below( 5);
        Slot * s = 0 == type ? make_slot< u32 >( pull) : 1 == type ? make_slot< std::string >( pull) : 2 == type ? make_slot< std::unique_ptr< u32 > >( pull) : 3 == type ? make_slot< u32 & >( pull) : make_slot< void >( pull);
        slots.emplace_back( s);
        Rec & r = s->rec; r.id = 100 + i; r.n = ( pull ? 0 : 1) + ch.below( 8); r.end = static_cast< int >( ch.below( 2) ); r.nested = ch.chance( 1, 3); r.catches = ch.chance( 1, 3); r.deep = ch.chance( 1, 3); r.type = type; r.pull = pull; r.alloc = static_cast< int >( ch.below( 4) ); r.stop_inner = ch.below( 8);
        r.entered = r.left = r.steps = r.live = r.received = r.stacks = r.stacks_back = 0;
#if defined(BOOST_USE_SEGMENTED_STACKS)
        r.alloc = 0;
#endif
        shape( pull); shape( type); shape( r.n); shape( static_cast< unsigned >( r.end) ); shape( r.nested); shape( static_cast< unsigned >( r.alloc) );
        note( "coroutine %u: %s_type, element type %u, %u steps, %s, allocator %d%s%s%s", r.id, pull ? "pull" : "push", type, r.n, r.end ? "throws" : "returns", r.alloc, r.nested ? ", owns a generator" : "", r.catches ? ", throws and catches" : "", r.deep ? ", deep" : "");
    }
    unsigned threads = 2 + ch.below( 3), rounds = 1 + ch.below( 5);
    shape( threads);
    for ( unsigned q = 0; q < rounds; ++q) {
        if ( ch.chance( 1, 3) ) {
            std::vector< Turn > turns; unsigned k = 2 + ch.below( 24);
            for ( unsigned j = 0; j < k; ++j) {
                Turn x; x.thread = ch.below( threads); x.task.slot = ch.below( n); x.task.act = static_cast< unsigned >( ch.pick( { 16, 2, 1, 0, 1 }) ); x.task.times = A_STEP == x.task.act ? ch.below( 3) : 1;
                turns.push_back( x); shape( x.thread * 16 + x.task.act); shape( x.task.slot * 4 + x.task.times);
                note( "relay %u, thread %u: coroutine %u %s x %u", q, x.thread, 100 + x.task.slot, A_STEP == x.task.act ? "resume" : A_SHUFFLE == x.task.act ? "move" : A_EXIT == x.task.act ? "destroy at thread exit" : "destroy", x.task.times);
            }
            std::vector< std::thread > th; std::atomic< unsigned > turn( 0);
            for ( unsigned t = 1; t < threads; ++t) th.emplace_back( [&slots,&turns,t,&turn]{ relay( slots, turns, t, turn); });
            relay( slots, turns, 0, turn);
            for ( std::thread & t : th) t.join();
            label( "relay");
            continue;
        }
        std::vector< std::vector< Task > > plan( threads);
        for ( unsigned i = 0; i < n; ++i) {
            unsigned t = ch.below( threads + 1);        // last one: nobody
            if ( t == threads) continue;
            unsigned k = 1 + ch.below( 3);
            for ( unsigned j = 0; j < k; ++j) {
                Task x = { i, static_cast< unsigned >( ch.pick( { 12, 2, 1, 2, 1, 2 }) ), 1 };
                if ( A_STEP == x.act) x.times = ch.below( 4);
                plan[t].push_back( x); shape( t); shape( x.act); shape( x.times);
                note( "round %u, thread %u: coroutine %u %s x %u", q, t, 100 + i, A_STEP == x.act ? "resume" : A_SHUFFLE == x.act ? "move" : A_DESTROY == x.act ? "destroy" : A_EXIT == x.act ? "destroy at thread exit" : A_KEEP == x.act ? "destroy when the stack of the thread is unwound" : "own", x.times);
            }
        }
        std::vector< unsigned > how( threads);
        for ( unsigned t = 0; t < threads; ++t) { how[t] = static_cast< unsigned >( ch.pick( { 8, 1, 1, 1 }) ) + ( ch.chance( 1, 4) ? 4 : 0); if ( how[t] & 3) { label( 2 == ( how[t] & 3) ? "thread left by pthread_exit" : 1 == ( how[t] & 3) ? "thread left by exception" : "thread cancelled"); note( "round %u: thread %u leaves by %s", q, t, 2 == ( how[t] & 3) ? "pthread_exit" : 1 == ( how[t] & 3) ? "an exception" : "cancellation"); } }
        // thread 0 is the main thread
        std::vector< std::thread > th;
        std::atomic< unsigned > gate( 1);
        for ( unsigned t = 1; t < threads; ++t) if ( ! plan[t].empty() ) gate.fetch_add( 1);
        for ( unsigned t = 1; t < threads; ++t) if ( ! plan[t].empty() ) { std::vector< Task > const* p = & plan[t]; unsigned h = how[t]; th.emplace_back( [&slots,p,&gate,h]{ work( slots, * p, gate, false, h); }); }
        work( slots, plan[0], gate, true, how[0]);
        for ( std::thread & t : th) t.join();
    }
    unsigned migrated = 0;
    for ( std::unique_ptr< Slot > & s : slots) { if ( s->created && ! s->destroyed) { if ( ! s->rec.on.empty() && s->rec.on.back() != std::this_thread::get_id() ) s->rec.on.push_back( std::this_thread::get_id() ); s->destroy(); } if ( s->rec.on.size() > 1) ++migrated; trace( s->pos); trace( s->rec.received); trace( s->rec.steps); }
    if ( migrated) { label( "coroutine used by several threads"); nontrivial(); }
}
Harness const harness = { "threads", run,
    "a case draws 2-8 coroutines (side, 5 element types, length, end, allocator, owning an inner generator, throwing and catching) and up to 5 rounds; in a round every coroutine belongs to one of 2-4 threads, which creates, "
    "resumes, moves or destroys it (also at thread exit, or when the thread's stack is unwound: by return, exception, pthread_exit or cancellation) while the other threads do the same with theirs; the next round deals them anew (join / start is the hand-over); in relay rounds living threads take turns (acquire / release), the main thread destroys what is left. Oracle: every coroutine sees its values, steps, "
    "exceptions, destructions and stacks as alone in one thread; ThreadSanitizer in the tsan builds. Non-trivial: at least one coroutine was used by two threads." };
}
