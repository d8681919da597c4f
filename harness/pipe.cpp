// Pipe harness: random networks of generators (pull side) and sinks (push side), recursive traversals, all interleaved;
// oracle: the same computation over plain sequences, every network alone.
#include "world.hpp"

#include <cstdlib>
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include <boost/coroutine2/all.hpp>

namespace {

typedef std::uint32_t u32;
namespace co = boost::coroutines2;
using eng::PIPE;

struct PipeErr { u32 id; };
unsigned const CAP = 40;        // values per operator
u32 const EOS = 0xffffffffu;

// ---- element types: how a number travels -------------------------------------------------------
struct alignas( 64) Wide { u32 v; unsigned char b[180]; explicit Wide( u32 x) : v( x) { std::memset( b, static_cast< int >( x & 0xff), sizeof( b) ); } u32 get() const { for ( unsigned char c : b) if ( c != ( v & 0xff) ) eng::fail( PIPE | eng::VALUE, "value %u damaged", v); return v; } };
enum TypeId { T_INT, T_STR, T_PTR, T_REF, T_WIDE, T_N };
template< typename T > struct El;
template< > struct El< u32 > {
    static void put( co::coroutine< u32 >::push_type & p, u32 v) { p( v); }
    static u32 get( co::coroutine< u32 >::pull_type & p) { return p.get(); } };
template< > struct El< std::string > {
    static void put( co::coroutine< std::string >::push_type & p, u32 v) { std::string s( std::to_string( v) + ":" + std::string( v % 50, 'p') ); if ( v & 1) p( s); else p( std::move( s) ); }
    static u32 get( co::coroutine< std::string >::pull_type & p) { std::string const s = * begin( p); u32 v = static_cast< u32 >( std::strtoul( s.c_str(), nullptr, 10) ); if ( s != std::to_string( v) + ":" + std::string( v % 50, 'p') ) eng::fail( PIPE | eng::VALUE, "string damaged"); return v; } };
template< > struct El< std::unique_ptr< u32 > > {
    static void put( co::coroutine< std::unique_ptr< u32 > >::push_type & p, u32 v) { p( std::unique_ptr< u32 >( new u32( v) ) ); }
    static u32 get( co::coroutine< std::unique_ptr< u32 > >::pull_type & p) { std::unique_ptr< u32 > & r = * begin( p); if ( ! r) eng::fail( PIPE | eng::VALUE, "pointer lost"); return * r; } };
template< > struct El< u32 const& > {
    static void put( co::coroutine< u32 const& >::push_type & p, u32 v) { u32 const x = v; p( x); if ( x != v) eng::fail( PIPE, "local changed"); }
    static u32 get( co::coroutine< u32 const& >::pull_type & p) { return p.get(); } };
template< > struct El< Wide > {
    static void put( co::coroutine< Wide >::push_type & p, u32 v) { Wide w( v); p( w); w.get(); }
    static u32 get( co::coroutine< Wide >::pull_type & p) { return p.get().get(); } };

// ---- sources and outputs ------------------------------------------------------------------------
struct Src { virtual ~Src() {} virtual bool more() = 0; virtual u32 get() = 0; virtual void next() = 0; virtual void shuffle() {} };
struct Out { virtual ~Out() {} virtual void put( u32) = 0; virtual bool open() { return true; } };
typedef std::unique_ptr< Src > SrcP;
typedef std::function< void( Out &) > GenFn;

template< typename T > struct OutOf : Out {
    typename co::coroutine< T >::push_type & p;
    explicit OutOf( typename co::coroutine< T >::push_type & q) : p( q) {}
    void put( u32 v) override { El< T >::put( p, v); }
    bool open() override { return static_cast< bool >( p); }
};
template< typename T > struct SrcOf : Src {
    typedef typename co::coroutine< T >::pull_type pull_t;
    pull_t p;
    explicit SrcOf( GenFn const& f) : p( [f]( typename co::coroutine< T >::push_type & o) { OutOf< T > out( o); f( out); }) {}
    SrcOf( GenFn const& f, co::fixedsize_stack s) : p( s, [f]( typename co::coroutine< T >::push_type & o) { OutOf< T > out( o); f( out); }) {}
    bool more() override { return static_cast< bool >( p); }
    u32 get() override { return El< T >::get( p); }
    void next() override { p(); }
    void shuffle() override { pull_t q( std::move( p) ); if ( p) eng::fail( PIPE | eng::MOVE, "moved-from generator tests true"); p = std::move( q); }
};
struct VecSrc : Src {
    std::vector< u32 > v; bool err; u32 id; std::size_t i;
    VecSrc( std::vector< u32 > const& x, bool e, u32 n) : v( x), err( e), id( n), i( 0) { hit(); }
    void hit() { if ( i >= v.size() && err) { err = false; throw PipeErr{ id }; } }
    bool more() override { return i < v.size(); }
    u32 get() override { return v[i]; }
    void next() override { ++i; hit(); }
};
struct VecOut : Out { std::vector< u32 > v; void put( u32 x) override { v.push_back( x); } };

// ---- networks of generators ---------------------------------------------------------------------
enum Op { RANGE, LIST, MAP, FILTER, TAKE, SKIP, CONCAT, ZIP, ALTERNATE, MERGE, FLAT, WINDOW, TREE, PERM, SIEVE, THROW_AFTER, CATCH, RELAY, GUARDED, FRINGE, RESTART, OP_N };
char const* const op_name[] = { "range", "list", "map", "filter", "take", "skip", "concat", "zip", "alternate", "merge", "flat", "window", "tree", "perm", "sieve", "throw", "catch", "relay", "guarded", "fringe", "restart" };
struct Node { int op; u32 a, b; int type; std::vector< u32 > list; std::vector< Node > kid; unsigned noise; };

struct Maker {
    virtual ~Maker() {}
    virtual SrcP make( int type, GenFn const& f) = 0;
    virtual SrcP make( Node const& n) = 0;
    virtual void noise( unsigned) {}
    virtual void shuffle( Src &, unsigned) {}
};
void run_op( Node const& n, Maker & m, Out & o);

SrcP make_pull( int type, GenFn const& f) {
    switch ( type) {
    case T_INT: return SrcP( new SrcOf< u32 >( f) );
    case T_STR: return SrcP( new SrcOf< std::string >( f) );
#if defined(BOOST_USE_SEGMENTED_STACKS)
    case T_PTR: return SrcP( new SrcOf< std::unique_ptr< u32 > >( f) );
#else
    case T_PTR: return SrcP( new SrcOf< std::unique_ptr< u32 > >( f, co::fixedsize_stack( 256 * 1024) ) );
#endif
    case T_REF: return SrcP( new SrcOf< u32 const& >( f) );
    default: return SrcP( new SrcOf< Wide >( f) );
    }
}
unsigned made;
struct TooBig {};
volatile u32 sink_;
u32 burn( unsigned n) { volatile u32 b[16]; b[n % 16] = n; u32 r = b[n % 16]; if ( n) r += burn( n - 1); return r + b[n % 16]; }
struct CoMaker : Maker {
    SrcP make( int type, GenFn const& f) override { ++made; return make_pull( type, f); }
    SrcP make( Node const& n) override { ++made; Maker * m = this; Node const* p = & n; return make_pull( n.type, [m,p]( Out & o) { run_op( * p, * m, o); }); }
    void noise( unsigned k) override {
        switch ( k) {
        case 1: sink_ = burn( 40); break;
        case 2: { co::coroutine< int >::pull_type x( []( co::coroutine< int >::push_type & y) { for ( int i = 0;; ++i) y( i); }); x(); if ( 1 != x.get() ) eng::fail( PIPE, "unrelated coroutine delivers another value"); break; }
        case 3: { co::coroutine< void >::push_type x( []( co::coroutine< void >::pull_type & y) { while ( y) y(); }); x(); x(); break; }
        case 4: try { co::coroutine< int >::pull_type x( []( co::coroutine< int >::push_type &) { throw PipeErr{ 99 }; }); eng::fail( PIPE | eng::EXC, "exception lost"); } catch ( PipeErr const& e) { if ( 99 != e.id) eng::fail( PIPE | eng::EXC, "another exception"); } break;
        default: break;
        }
    }
    void shuffle( Src & s, unsigned k) override { if ( 5 == k) s.shuffle(); }
};
struct VecMaker : Maker {
    static unsigned & left() { static unsigned n; return n; }
    static SrcP eval( std::function< void( Out &) > const& f) {
        if ( ! left()--) throw TooBig();
        VecOut o;
        try { f( o); } catch ( PipeErr const& e) { return SrcP( new VecSrc( o.v, true, e.id) ); }
        return SrcP( new VecSrc( o.v, false, 0) );
    }
    SrcP make( int, GenFn const& f) override { return eval( f); }
    SrcP make( Node const& n) override { Maker * m = this; Node const* p = & n; return eval( [m,p]( Out & o) { run_op( * p, * m, o); }); }
};

void tree( std::vector< u32 > const& t, std::size_t i, Maker & m, int type, unsigned how, Out & o) {
    if ( i >= t.size() || 0 == t[i] % 7) return;
    std::vector< u32 > const* p = & t; Maker * q = & m;
    auto sub = [&]( std::size_t j) {
        if ( how & 1) { // one coroutine per subtree
            SrcP s = m.make( ( type + static_cast< int >( i) ) % T_N, [p,j,q,type,how]( Out & x) { tree( * p, j, * q, type, how, x); });
            for ( ; s->more(); s->next() ) o.put( s->get() );
        }
        else tree( t, j, m, type, how, o);      // plain recursion, all levels push into the same coroutine
    };
    if ( how & 2) o.put( t[i]);
    sub( 2 * i + 1);
    if ( ! ( how & 2) ) o.put( t[i]);
    sub( 2 * i + 2);
}
void perm( std::vector< u32 > v, std::size_t k, Maker & m, bool nested, Out & o) {
    if ( k == v.size() ) { u32 h = 7; for ( u32 x : v) h = h * 31 + x; o.put( h & 0x7fffffff); return; }
    for ( std::size_t i = k; i < v.size(); ++i) {
        std::swap( v[k], v[i]);
        if ( nested) { Maker * q = & m; std::vector< u32 > c( v); SrcP s = m.make( T_INT, [c,k,q]( Out & x) { perm( c, k + 1, * q, true, x); }); for ( ; s->more(); s->next() ) o.put( s->get() ); }
        else perm( v, k + 1, m, false, o);
        std::swap( v[k], v[i]);
    }
}

// All operators take from a source exactly when the next value is needed, so that eager evaluation of the
// children (the oracle) and coroutines see the same values and exceptions.
void run_op( Node const& n, Maker & m, Out & o) {
    unsigned c = 0;
    auto put = [&]( u32 v) { m.noise( n.noise); if ( ! o.open() ) eng::fail( PIPE | eng::VALID, "output tests false while its function runs"); o.put( v & 0x7fffffff); };
    switch ( n.op) {
    case RANGE: for ( u32 i = 0; i < n.a % 12; ++i) put( n.b + i * ( n.a % 5) ); break;
    case LIST: for ( u32 v : n.list) put( v); break;
    case MAP: { SrcP s = m.make( n.kid[0]); for ( ; s->more() && c < CAP; s->next(), ++c) { m.shuffle( * s, n.noise); put( s->get() * ( n.a | 1) + n.b); } break; }
    case FILTER: { SrcP s = m.make( n.kid[0]); for ( ; s->more(); s->next() ) if ( s->get() % ( 2 + n.a % 3) != n.b % 2) { m.shuffle( * s, n.noise); put( s->get() ); } break; }
    case TAKE: { u32 k = n.a % 8; if ( ! k) break; SrcP s = m.make( n.kid[0]); while ( s->more() ) { put( s->get() ); if ( ! --k) break; s->next(); } break; }   // abandons the rest
    case SKIP: { SrcP s = m.make( n.kid[0]); for ( u32 k = n.a % 6; k && s->more(); --k) s->next(); for ( ; s->more(); s->next() ) put( s->get() ); break; }
    case CONCAT: for ( Node const& k : n.kid) { SrcP s = m.make( k); for ( ; s->more() && c < CAP; s->next(), ++c) put( s->get() ); } break;
    case ZIP: { SrcP a = m.make( n.kid[0]), b = m.make( n.kid[1]); while ( a->more() && b->more() ) { put( a->get() * 3 + b->get() * 5 + n.a); a->next(); m.shuffle( * b, n.noise); b->next(); } break; }
    case ALTERNATE: { std::vector< SrcP > s; for ( Node const& k : n.kid) s.push_back( m.make( k) ); bool any = true; while ( any && c < CAP) { any = false; for ( SrcP & x : s) if ( x && x->more() ) { put( x->get() ); x->next(); any = true; ++c; if ( ! x->more() ) x.reset(); } } break; }
    case MERGE: { SrcP a = m.make( n.kid[0]), b = m.make( n.kid[1]); while ( ( a->more() || b->more() ) && c++ < CAP) { bool l = a->more() && ( ! b->more() || a->get() <= b->get() ); Src & x = l ? * a : * b; put( x.get() ); m.shuffle( x, n.noise); x.next(); } break; }
    case FLAT: { SrcP s = m.make( n.kid[0]); for ( ; s->more() && c < CAP; s->next() ) { u32 base = s->get(); Node k = n.kid[1]; k.b += base; SrcP t = m.make( k); for ( ; t->more() && c < CAP; t->next(), ++c) put( t->get() + base); } break; }
    case WINDOW: { SrcP s = m.make( n.kid[0]); u32 acc = 0; u32 k = 0, w = 1 + n.a % 4; for ( ; s->more(); s->next() ) { acc = acc * 17 + s->get(); if ( ++k == w) { put( acc); acc = k = 0; } } if ( k) put( acc); break; }
    case TREE: tree( n.list, 0, m, static_cast< int >( n.b % T_N), n.a, o); break;
    case PERM: perm( std::vector< u32 >( n.list.begin(), n.list.begin() + static_cast< long >( std::min< std::size_t >( n.list.size(), 4) ) ), 0, m, n.a & 1, o); break;
    case SIEVE: { // chain of filters that grows while it is used
        u32 lim = 20 + n.a % 40;
        std::shared_ptr< Src > s( m.make( static_cast< int >( n.b % T_N), [lim]( Out & x) { for ( u32 i = 2; i < lim; ++i) x.put( i); }) );
        while ( s->more() ) {
            u32 p = s->get(); put( p);
            std::shared_ptr< Src > up = s;
            s.reset();
            s = std::shared_ptr< Src >( m.make( static_cast< int >( p % T_N), [up,p]( Out & x) { for ( ; up->more(); up->next() ) if ( up->get() % p) x.put( up->get() ); }) );
            if ( p * p > lim * 2) break;
        }
        break; }
    case THROW_AFTER: { SrcP s = m.make( n.kid[0]); u32 k = n.a % 6; for ( ; s->more() && k; s->next(), --k) put( s->get() ); throw PipeErr{ n.b }; }
    case CATCH: {
        bool caught = false; u32 id = 0, flag = 7; SrcP s;
        try { s = m.make( n.kid[0]); while ( s->more() ) { put( s->get() ); s->next(); } } catch ( PipeErr const& e) { caught = true; id = e.id; if ( s) flag = s->more(); }
        if ( caught) { put( id); put( flag); }
        break; }
    case RELAY: { // yields from helper functions at different depths of the call stack
        struct H { static void down( unsigned d, Out & x, u32 v) { volatile u32 keep = v ^ 0x55; if ( d) down( d - 1, x, v); else x.put( v); if ( keep != ( v ^ 0x55) ) eng::fail( PIPE | eng::FRAME, "frame of a helper function damaged"); } };
        SrcP s = m.make( n.kid[0]); for ( ; s->more() && c < CAP; s->next() ) H::down( ++c % 9, o, s->get() );
        break; }
    case GUARDED: { // objects with destructors that use the source
        SrcP s = m.make( n.kid[0]);
        struct G { Src * s; ~G() { if ( s) s->more(); } } g = { s.get() };
        std::vector< std::string > keep;
        for ( ; s->more() && c < CAP; s->next(), ++c) { keep.push_back( std::string( 40, static_cast< char >( 'a' + c % 26) ) ); put( s->get() ); if ( keep.back()[0] != static_cast< char >( 'a' + c % 26) ) eng::fail( PIPE | eng::FRAME, "local object damaged"); }
        g.s = nullptr;
        break; }
    case FRINGE: { // same fringe problem: two recursive generators in lock step
        Maker * q = & m; Node const* p = & n;
        SrcP a = m.make( T_INT, [p,q]( Out & x) { tree( p->list, 0, * q, T_INT, 1, x); }), b = m.make( T_REF, [p,q]( Out & x) { tree( p->list, 0, * q, T_STR, 0, x); });
        bool same = true;
        while ( a->more() && b->more() ) { same = same && a->get() == b->get(); a->next(); b->next(); }
        put( same); put( a->more() ); put( b->more() );
        break; }
    case RESTART: { // the same network again and again, abandoned at different points
        for ( u32 r = 0; r < 1 + n.a % 3; ++r) { SrcP s = m.make( n.kid[0]); for ( u32 k = 0; s->more() && k <= r + n.b % 3; ++k) { put( s->get() ); s->next(); } }
        break; }
    default: break;
    }
}

Node gen( eng::Choices & ch, unsigned depth, unsigned & budget) {
    Node n;
    static int const leaf[] = { RANGE, LIST, TREE, PERM, SIEVE, FRINGE };
    static int const inner[] = { MAP, FILTER, TAKE, SKIP, CONCAT, ZIP, ALTERNATE, MERGE, FLAT, WINDOW, THROW_AFTER, CATCH, RELAY, GUARDED, RESTART };
    bool l = 0 == depth || budget < 2 || ch.chance( 1, 5);
    if ( budget) --budget;
    n.op = l ? leaf[ch.pick( { 6, 6, 2, 1, 1, 1 })] : inner[ch.below( 15)];
    n.a = ch.below( 64); n.b = ch.below( 100); n.type = static_cast< int >( ch.below( T_N) ); n.noise = ch.chance( 1, 3) ? 1 + ch.below( 5) : 0;
    eng::shape( static_cast< unsigned >( n.op) ); eng::shape( n.a); eng::shape( n.b); eng::shape( static_cast< unsigned >( n.type) );
    eng::note( "%*s%s(%u,%u) type %d noise %u", static_cast< int >( 8 - 2 * depth), "", op_name[n.op], n.a, n.b, n.type, n.noise);
    if ( LIST == n.op || TREE == n.op || PERM == n.op || FRINGE == n.op) { u32 k = ch.below( PERM == n.op ? 5 : LIST == n.op ? 10 : 24); for ( u32 i = 0; i < k; ++i) { n.list.push_back( ch.below( 1000) ); eng::shape( n.list.back() ); } }
    unsigned kids = l ? 0 : CONCAT == n.op || ALTERNATE == n.op ? 1 + ch.below( 3) : ZIP == n.op || MERGE == n.op || FLAT == n.op ? 2 : 1;
    for ( unsigned i = 0; i < kids; ++i) n.kid.push_back( gen( ch, depth - 1, budget) );
    return n;
}

// ---- networks of sinks --------------------------------------------------------------------------
enum Stage { S_MAP, S_FILTER, S_LIMIT, S_SUM, S_TEE, S_DIFF, S_RLE, S_GENERATE, S_N };
char const* const stage_name[] = { "map", "filter", "limit", "sum", "tee", "diff", "rle", "generate" };
struct SNode { int op; u32 a, b; int type; unsigned noise; Node gen; std::vector< SNode > kid; int leaf; };
struct Sink { virtual ~Sink() {} virtual bool open() = 0; virtual void put( u32) = 0; };
typedef std::unique_ptr< Sink > SinkP;
std::vector< std::vector< u32 > > * results;

template< typename T > struct In : Src {
    typename co::coroutine< T >::pull_type & p;
    explicit In( typename co::coroutine< T >::pull_type & q) : p( q) {}
    bool more() override { return static_cast< bool >( p); }
    u32 get() override { return El< T >::get( p); }
    void next() override { p(); }
};
SinkP make_sink( SNode const& n);
void stage( SNode const& n, Src & in) {
    std::vector< SinkP > out;
    for ( SNode const& k : n.kid) out.push_back( make_sink( k) );
    static CoMaker mk;
    u32 acc = 0, cnt = 0, prev = 0; bool have = false;
    auto emit = [&]( u32 v) { if ( n.leaf >= 0) { ( * results)[static_cast< std::size_t >( n.leaf)].push_back( v); return; } for ( SinkP & s : out) if ( s->open() ) s->put( v); };
    auto all_closed = [&] { if ( n.leaf >= 0) return false; for ( SinkP & s : out) if ( s->open() ) return false; return true; };
    for ( ;;) {
        if ( ! in.more() ) eng::fail( PIPE | eng::VALID, "input of a sink tests false while its function runs");
        u32 v = in.get();
        mk.noise( n.noise);
        bool end = EOS == v;
        switch ( n.op) {
        case S_MAP: emit( end ? EOS : ( v * 3 + n.a) & 0xffffff); break;
        case S_FILTER: if ( end || v % 3 != n.a % 3) emit( v); break;
        case S_LIMIT: emit( v); if ( ++cnt > n.a % 6) return; break;
        case S_SUM: if ( end) { emit( acc & 0xffffff); emit( EOS); } else { acc = acc * 5 + v; if ( ++cnt % ( 2 + n.a % 3) == 0) { emit( acc & 0xffffff); acc = 0; } } break;
        case S_DIFF: if ( end) emit( EOS); else { if ( have) emit( ( v - prev) & 0xffffff); have = true; prev = v; } break;
        case S_RLE: if ( end || ( have && v / 8 != prev / 8) ) { emit( cnt); emit( prev / 8); cnt = 0; if ( end) emit( EOS); } have = true; prev = v; ++cnt; break;
        case S_GENERATE: if ( end) emit( EOS); else { try { SrcP s = mk.make( n.gen); for ( ; s->more(); s->next() ) emit( ( s->get() + v) & 0xffffff); } catch ( PipeErr const& e) { acc = e.id + 1; } if ( acc) { emit( acc); acc = 0; } } break;
        default: emit( v); break;      // tee
        }
        if ( end || all_closed() ) return;
        in.next();
    }
}
template< typename T > struct SinkOf : Sink {
    typename co::coroutine< T >::push_type p;
    explicit SinkOf( SNode const* n) : p( [n]( typename co::coroutine< T >::pull_type & i) { In< T > in( i); stage( * n, in); }) {}
    bool open() override { return static_cast< bool >( p); }
    void put( u32 v) override { El< T >::put( p, v); }
};
SinkP make_sink( SNode const& n) {
    ++made;
    switch ( n.type) {
    case T_INT: return SinkP( new SinkOf< u32 >( & n) );
    case T_STR: return SinkP( new SinkOf< std::string >( & n) );
    case T_PTR: return SinkP( new SinkOf< std::unique_ptr< u32 > >( & n) );
    case T_REF: return SinkP( new SinkOf< u32 const& >( & n) );
    default: return SinkP( new SinkOf< Wide >( & n) );
    }
}
// oracle: the stage as a state machine
struct Machine {
    SNode const* n; std::vector< Machine > out; bool open; u32 acc, cnt, prev; bool have; std::vector< std::vector< u32 > > * res;
    Machine( SNode const* x, std::vector< std::vector< u32 > > * r) : n( x), open( true), acc( 0), cnt( 0), prev( 0), have( false), res( r) { for ( SNode const& k : n->kid) out.push_back( Machine( & k, r) ); }
    void emit( u32 v) { if ( n->leaf >= 0) ( * res)[static_cast< std::size_t >( n->leaf)].push_back( v); else for ( Machine & m : out) if ( m.open) m.take( v); }
    void take( u32 v) {
        bool end = EOS == v;
        if ( S_MAP == n->op) emit( end ? EOS : ( v * 3 + n->a) & 0xffffff);
        else if ( S_FILTER == n->op) { if ( end || v % 3 != n->a % 3) emit( v); }
        else if ( S_LIMIT == n->op) { emit( v); if ( ++cnt > n->a % 6) { open = false; return; } }
        else if ( S_SUM == n->op) { if ( end) { emit( acc & 0xffffff); emit( EOS); } else { acc = acc * 5 + v; if ( ++cnt % ( 2 + n->a % 3) == 0) { emit( acc & 0xffffff); acc = 0; } } }
        else if ( S_DIFF == n->op) { if ( end) emit( EOS); else { if ( have) emit( ( v - prev) & 0xffffff); have = true; prev = v; } }
        else if ( S_RLE == n->op) { if ( end || ( have && v / 8 != prev / 8) ) { emit( cnt); emit( prev / 8); cnt = 0; if ( end) emit( EOS); } have = true; prev = v; ++cnt; }
        else if ( S_GENERATE == n->op) {
            if ( end) emit( EOS);
            else { VecOut o; VecMaker mk; u32 id = 0; try { run_op( n->gen, mk, o); } catch ( PipeErr const& e) { id = e.id + 1; } for ( u32 x : o.v) emit( ( x + v) & 0xffffff); if ( id) emit( id); }
        }
        else emit( v);
        bool any = n->leaf >= 0; for ( Machine const& m : out) any = any || m.open;
        if ( end || ! any) open = false;
    }
};
SNode gen_sink( eng::Choices & ch, unsigned depth, int & leaves) {
    SNode n;
    n.op = static_cast< int >( ch.below( S_N) ); n.a = ch.below( 64); n.b = ch.below( 64); n.type = static_cast< int >( ch.below( T_N) ); n.noise = ch.chance( 1, 3) ? 1 + ch.below( 4) : 0;
    eng::shape( static_cast< unsigned >( n.op) ); eng::shape( n.a); eng::shape( static_cast< unsigned >( n.type) );
    eng::note( "%*ssink %s(%u) type %d noise %u", static_cast< int >( 8 - 2 * depth), "", stage_name[n.op], n.a, n.type, n.noise);
    unsigned b = 4;
    n.gen.op = LIST; n.gen.a = n.gen.b = 0; n.gen.type = 0; n.gen.noise = 0;
    if ( S_GENERATE == n.op) n.gen = gen( ch, 2, b);
    n.leaf = -1;
    unsigned kids = 0 == depth ? 0 : S_TEE == n.op ? 1 + ch.below( 3) : ch.chance( 1, 5) ? 0 : 1;
    if ( ! kids) n.leaf = leaves++;
    for ( unsigned i = 0; i < kids; ++i) n.kid.push_back( gen_sink( ch, depth - 1, leaves) );
    return n;
}

// ---- driver ---------------------------------------------------------------------------------------
struct Job {
    bool is_sink; Node node; SNode sink;
    // expectation
    std::vector< u32 > want; bool want_err; u32 err; std::vector< u32 > feed; std::vector< std::vector< u32 > > want_res;
    std::vector< bool > open_after;
    // state
    SrcP src; SinkP snk; bool started, done; std::size_t pos; std::vector< std::vector< u32 > > res;
    Job() : is_sink( false), want_err( false), err( 0), started( false), done( false), pos( 0) {}
};
typedef std::vector< std::unique_ptr< Job > > Jobs;      // nodes must not move: running functions refer to them
CoMaker maker;
unsigned transferred;
void finish( Job & j) {
    if ( j.is_sink) {
        j.snk.reset();
        for ( std::size_t i = 0; i < j.res.size(); ++i) {
            std::vector< u32 > const& w = j.want_res[i]; std::vector< u32 > const& r = j.res[i];
            if ( r != w) { std::size_t k = 0; while ( k < r.size() && k < w.size() && r[k] == w[k]) ++k; eng::fail( PIPE, "sink %lu: value %lu differs from the sequential result (%lu values instead of %lu)", static_cast< unsigned long >( i), static_cast< unsigned long >( k), static_cast< unsigned long >( r.size() ), static_cast< unsigned long >( w.size() ) ); }
        }
    }
    j.src.reset();
    j.done = true;
}
// the sequential result of what has been fed so far
void expect_prefix( Job & j, std::size_t n) {
    VecMaker::left() = 1000000;
    for ( std::vector< u32 > & v : j.want_res) v.clear();
    Machine m( & j.sink, & j.want_res);
    for ( std::size_t i = 0; i < n && m.open; ++i) m.take( j.feed[i]);
}
void step( Job & j) {
    if ( j.done) return;
    if ( j.is_sink) {
        results = & j.res;
        if ( ! j.started) { j.started = true; j.snk = make_sink( j.sink); if ( ! j.snk->open() ) eng::fail( PIPE | eng::VALID, "fresh sink tests false"); return; }
        if ( j.pos >= j.feed.size() || ! j.open_after[j.pos]) { if ( j.snk->open() != j.open_after[j.pos]) eng::fail( PIPE | eng::VALID, "sink %s although its stage %s", j.snk->open() ? "open" : "closed", j.open_after[j.pos] ? "runs" : "has returned"); expect_prefix( j, j.pos); finish( j); return; }
        if ( ! j.snk->open() ) eng::fail( PIPE | eng::VALID, "sink closed too early");
        j.snk->put( j.feed[j.pos++]); ++transferred;
        return;
    }
    try {
        if ( ! j.started) { j.started = true; j.src = maker.make( j.node); }
        else { j.src->next(); ++j.pos; }
    } catch ( PipeErr const& e) {
        if ( j.src) { ++j.pos; if ( j.src->more() ) eng::fail( PIPE | eng::VALID, "generator tests true after its exception"); }
        if ( ! j.want_err || e.id != j.err || j.pos != j.want.size() ) eng::fail( PIPE | eng::EXC, "exception %u after %lu values, the sequential computation gives %s %u after %lu", e.id, static_cast< unsigned long >( j.pos), j.want_err ? "exception" : "no exception", j.err, static_cast< unsigned long >( j.want.size() ) );
        finish( j);
        return;
    }
    if ( ! j.src->more() ) {
        if ( j.pos != j.want.size() || j.want_err) eng::fail( PIPE, "generator ends after %lu values, the sequential computation gives %lu%s", static_cast< unsigned long >( j.pos), static_cast< unsigned long >( j.want.size() ), j.want_err ? " and an exception" : "");
        finish( j);
        return;
    }
    u32 v = j.src->get(); ++transferred;
    eng::trace( v);
    if ( j.pos >= j.want.size() ) eng::fail( PIPE, "generator delivers more than %lu values", static_cast< unsigned long >( j.want.size() ) );
    if ( v != j.want[j.pos]) eng::fail( PIPE, "value %lu is %u, the sequential computation gives %u", static_cast< unsigned long >( j.pos), v, j.want[j.pos]);
}
void drive( eng::Choices & ch, Jobs & jobs, unsigned depth);
void some_steps( eng::Choices & ch, Jobs & jobs, unsigned n, unsigned depth) {
    for ( unsigned i = 0; i < n; ++i) {
        std::size_t k = ch.below( static_cast< u32 >( jobs.size() ) );
        Job & j = * jobs[k];
        switch ( ch.pick( { 20, 2, 1, 1, 2 }) ) {
        case 1: if ( j.src) j.src->shuffle(); else step( j); break;
        case 2: { std::size_t l = ch.below( static_cast< u32 >( jobs.size() ) ); if ( l != k) std::swap( jobs[k], jobs[l]); break; }
        case 3: if ( j.started && ! j.done) { if ( j.is_sink) expect_prefix( j, j.pos); finish( j); } break;       // abandoned
        case 4: if ( depth < 3) { drive( ch, jobs, depth + 1); break; } step( j); break;
        default: step( j); break;
        }
    }
}
// continues to drive the same networks from inside another coroutine
void drive( eng::Choices & ch, Jobs & jobs, unsigned depth) {
    unsigned n = ch.below( 6), k = 1 + ch.below( 3);
    eng::Choices * c = & ch; Jobs * j = & jobs;
    if ( ch.chance( 1, 2) ) {
        co::coroutine< int >::pull_type d( [c,j,n,k,depth]( co::coroutine< int >::push_type & out) { for ( unsigned i = 0; i < k; ++i) { some_steps( * c, * j, n, depth); out( static_cast< int >( i) ); } });
        while ( d && ch.chance( 3, 4) ) { some_steps( ch, jobs, n / 2, 3); d(); }
    } else {
        co::coroutine< int >::push_type d( [c,j,n,depth]( co::coroutine< int >::pull_type & in) { for ( ; in; in() ) some_steps( * c, * j, n, depth); });
        for ( unsigned i = 0; i < k; ++i) d( 1);
    }
}

}

namespace eng {
static void run( Choices & ch, Options const&) {
    w::reset();
    made = transferred = 0;
    Jobs jobs( 1 + ch.below( 4) );
    for ( std::unique_ptr< Job > & jp : jobs) {
        jp.reset( new Job);
        Job & j = * jp;
        j.is_sink = ch.chance( 1, 3);
        if ( j.is_sink) {
            int leaves = 0;
            j.sink = gen_sink( ch, ch.below( 4), leaves);
            j.res.resize( static_cast< std::size_t >( leaves) ); j.want_res.resize( static_cast< std::size_t >( leaves) );
            u32 n = ch.below( 20);
            for ( u32 i = 0; i < n; ++i) j.feed.push_back( ch.below( 64) );
            if ( ch.chance( 2, 3) ) j.feed.push_back( EOS);
            for ( u32 v : j.feed) shape( v);
            Machine m( & j.sink, & j.want_res);
            j.open_after.push_back( true);
            std::size_t n_ok = 0;
            VecMaker::left() = 400;
            try { for ( u32 v : j.feed) { if ( m.open) m.take( v); j.open_after.push_back( m.open); ++n_ok; } } catch ( TooBig const&) { label( "replaced"); j.feed.resize( n_ok); }
            label( stage_name[j.sink.op]);
        } else {
            unsigned budget = 3 + ch.below( 8);
            j.node = gen( ch, 1 + ch.below( 4), budget);
            VecMaker vm; VecOut o;
            VecMaker::left() = 250;
            try { run_op( j.node, vm, o); } catch ( PipeErr const& e) { j.want_err = true; j.err = e.id; }
            catch ( TooBig const&) { label( "replaced"); VecOut p; j.node.op = LIST; run_op( j.node, vm, p); o = p; }
            j.want = o.v;
            label( op_name[j.node.op]);
        }
    }
    some_steps( ch, jobs, 10 + ch.below( 60), 0);
    for ( std::unique_ptr< Job > & j : jobs) while ( ! j->done) step( * j);
    if ( transferred >= 2 && made >= 2) nontrivial();
    if ( jobs.size() > 1) label( "several networks");
}
Harness const harness = { "pipe", run,
    "a case draws 1-4 networks: trees of generators (range, list, map, filter, take, skip, concat, zip, alternate, merge, flat map, windows, recursive tree walks and permutations with one coroutine per level or one for all, "
    "prime sieve with a growing chain, same fringe, throwing and catching stages, restarts) and trees of sinks (map, filter, limit, sums, tee, difference, run lengths, stages that run generators), five element types, unrelated "
    "coroutines created and destroyed between the transfers, and a schedule: which network makes the next step, moves, abandoning at any point, driving from inside other coroutines up to 3 levels. Oracle: the same operators "
    "over plain sequences / sinks as state machines, every network alone. Non-trivial: at least 2 values transferred through at least 2 coroutines." };
}
