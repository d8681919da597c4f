// Typed part of the history harness, compiled once per element kind (-DKIND=n).
#include "hist.hpp"

#include <functional>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>
#include <vector>

#include <boost/coroutine2/all.hpp>

#ifndef KIND
# error KIND
#endif

namespace hist {
namespace {

namespace co = boost::coroutines2;

template< int > struct Traits;
template<> struct Traits< K_INT >  { typedef int T; };
template<> struct Traits< K_TRK >  { typedef w::Tracked T; };
template<> struct Traits< K_MOV >  { typedef w::MoveOnly T; };
template<> struct Traits< K_REF >  { typedef w::Tracked & T; };
template<> struct Traits< K_CREF > { typedef w::Tracked const& T; };
template<> struct Traits< K_VOID > { typedef void T; };
template<> struct Traits< K_BIG >  { typedef w::Big T; };

typedef Traits< KIND >::T T;
typedef co::coroutine< T >::pull_type pull_t;
typedef co::coroutine< T >::push_type push_t;

void same( void const* a, void const* b) { if ( a != b) eng::fail( eng::CONTROL, "call operator returned another object"); }

template< typename C >
bool truth_of( C & c, int form) {
    bool a = c ? true : false;
    bool b = ! c;
    bool d = static_cast< bool >( static_cast< C const& >( c) );
    bool e = static_cast< C const& >( c).operator!();
    if ( a == b || a != d || b != e) eng::fail( eng::VALID, "operator bool and operator! do not agree");
    (void)form;
    return a;
}

// ---- values ----
inline std::uint32_t id_of( int const& v) { return decode( v); }
template< std::size_t A, std::size_t E, bool C, bool N > std::uint32_t id_of( w::Payload< A, E, C, N > const& p) { return p.read( "receiver"); }

template< typename X > struct Ops;

// copyable or move-only class types and int
template< typename X >
struct Ops {
    static X make( std::uint32_t id, std::true_type) { return encode( id); }
    template< typename P >
    static void push_rv( P & p, std::uint32_t id, bool fault) {
        X v( mk( id, static_cast< X * >( nullptr) ) );
        if ( fault) w::fault_in = 1;
        P & r = p( std::move( v) );
        w::fault_in = 0;
        same( & r, & p);
        moved_from( v);
    }
    static void moved_from( int) {}
    template< typename Y > static void moved_from( Y const& v) {
        if ( v.read( "sender") != w::MOVED) eng::fail( eng::PAYLOAD | eng::VALUE, "after pushing an rvalue the sender's object holds value %u", v.read( "sender") );
    }
    static int mk( std::uint32_t id, int *) { return encode( id); }
    template< typename Y > static std::uint32_t mk( std::uint32_t id, Y *) { return id; }
    static void unchanged( int v, std::uint32_t id) { if ( v != encode( id) ) eng::fail( eng::PAYLOAD | eng::VALUE, "pushed lvalue changed"); }
    template< typename Y > static void unchanged( Y const& v, std::uint32_t id) { if ( v.read( "sender") != id) eng::fail( eng::PAYLOAD | eng::VALUE, "pushed lvalue changed"); }
    template< typename P >
    static void push_lv( P & p, std::uint32_t id, bool fault, std::true_type) {
        X v( mk( id, static_cast< X * >( nullptr) ) );
        if ( fault) w::fault_in = 1;
        P & r = p( v);
        w::fault_in = 0;
        same( & r, & p);
        unchanged( v, id);
    }
    template< typename P >
    static void push_clv( P & p, std::uint32_t id, bool fault, std::true_type) {
        X const v( mk( id, static_cast< X * >( nullptr) ) );
        if ( fault) w::fault_in = 1;
        P & r = p( v);
        w::fault_in = 0;
        same( & r, & p);
        unchanged( v, id);
    }
    template< typename P > static void push_lv( P & p, std::uint32_t id, bool fault, std::false_type) { push_rv( p, id, fault); }
    template< typename P > static void push_clv( P & p, std::uint32_t id, bool fault, std::false_type) { push_rv( p, id, fault); }
    template< typename P >
    static void push( P & p, std::uint32_t id, int form, bool fault) {
        typedef typename std::integral_constant< bool, ! std::is_same< X, w::MoveOnly >::value > copyable;
        if ( fault && 0 == form && std::is_nothrow_move_constructible< X >::value) form = 1;      // moves cannot fail
        if ( 0 == form || ! copyable::value) {
            push_rv( p, id, fault);
            if ( w::copies( id) ) eng::fail( eng::PAYLOAD, "pushing an rvalue copied it");
        } else if ( 1 == form) push_lv( p, id, fault, copyable() );
        else push_clv( p, id, fault, copyable() );
    }
    template< typename C >
    static std::uint32_t get( C & c) {
        X v( c.get() );
        return id_of( v);
    }
    template< typename C >
    static std::uint32_t peek( C & c, int form) {
        typename C::iterator i = 0 == form ? c.begin() : begin( c);
        if ( i == c.end() ) eng::fail( eng::ITER | eng::VALID, "begin() of a coroutine with a value equals end()");
        return id_of( * i);
    }
    template< typename C > static void resume( C & c) { C & r = c(); same( & r, & c); }
};
template< typename X >
struct Ops< X & > {
    template< typename P >
    static void push( P & p, std::uint32_t id, int, bool) {
        X & v = ref_object( id);
        P & r = p( v);
        same( & r, & p);
    }
    static std::uint32_t check( w::Tracked const& v) {
        std::uint32_t id = v.read( "receiver");
        if ( ! is_ref_object( v, id) ) eng::fail( eng::VALUE, "received reference does not name the object that was sent");
        return id;
    }
    template< typename C > static std::uint32_t get( C & c) { X & v = c.get(); return check( v); }
    template< typename C > static std::uint32_t peek( C & c, int form) {
        typename C::iterator i = 0 == form ? c.begin() : begin( c);
        if ( i == c.end() ) eng::fail( eng::ITER | eng::VALID, "begin() of a coroutine with a value equals end()");
        return check( * i);
    }
    template< typename C > static void resume( C & c) { C & r = c(); same( & r, & c); }
};
template<>
struct Ops< void > {
    template< typename P > static void push( P & p, std::uint32_t, int, bool) { P & r = p(); same( & r, & p); }
    template< typename C > static std::uint32_t get( C &) { return 0; }
    template< typename C > static std::uint32_t peek( C &, int) { return 0; }
    template< typename C > static void resume( C & c) { C & r = c(); same( & r, & c); }
};

// ---- counterpart ----
struct PushPeer : PeerBase {
    push_t * p;
    explicit PushPeer( push_t * x) : p( x) {}
    bool is_push() const override { return true; }
    bool truth( int form) override { return truth_of( * p, form); }
    void yield( std::uint32_t id, int form, bool fault) override { Ops< T >::push( * p, id, form, fault); }
    void resume() override { std::abort(); }
    std::uint32_t get() override { std::abort(); }
    std::uint32_t peek( int) override { std::abort(); }
    void with_moved( void (* f)( void *, PeerBase &), void * arg) override {
        push_t local( std::move( * p) );
        if ( truth_of( * p, 0) ) eng::fail( eng::MOVE | eng::VALID, "moved-from counterpart tests true");
        if ( ! truth_of( local, 0) ) eng::fail( eng::MOVE | eng::VALID, "moved counterpart tests false");
        PushPeer q( & local);
        f( arg, q);
        bool had = truth_of( local, 0);     // an inner frame may have lost it to an exception
        * p = std::move( local);
        if ( truth_of( local, 0) || had != truth_of( * p, 0) ) eng::fail( eng::MOVE | eng::VALID, "move assignment of a counterpart");
    }
};
struct PullPeer : PeerBase {
    pull_t * p;
    explicit PullPeer( pull_t * x) : p( x) {}
    bool is_push() const override { return false; }
    bool truth( int form) override { return truth_of( * p, form); }
    void yield( std::uint32_t, int, bool) override { std::abort(); }
    void resume() override { Ops< T >::resume( * p); }
    std::uint32_t get() override { return Ops< T >::get( * p); }
    std::uint32_t peek( int form) override { return Ops< T >::peek( * p, form); }
    void with_moved( void (* f)( void *, PeerBase &), void * arg) override {
        pull_t local( std::move( * p) );
        if ( truth_of( * p, 0) ) eng::fail( eng::MOVE | eng::VALID, "moved-from counterpart tests true");
        if ( ! truth_of( local, 0) ) eng::fail( eng::MOVE | eng::VALID, "moved counterpart tests false");
        PullPeer q( & local);
        f( arg, q);
        bool had = truth_of( local, 0);     // an inner frame may have lost it to an exception
        * p = std::move( local);
        if ( truth_of( local, 0) || had != truth_of( * p, 0) ) eng::fail( eng::MOVE | eng::VALID, "move assignment of a counterpart");
    }
};
inline PushPeer peer_of( push_t & p) { return PushPeer( & p); }
inline PullPeer peer_of( pull_t & p) { return PullPeer( & p); }

// ---- function object ----
struct FnState {
    std::uint32_t   coro;
    std::uint32_t   magic;          // captured state
    bool            copy_throws;
    enum : std::uint32_t { MAGIC = 0x600df00d, GONE = 0x0badf00d };
    explicit FnState( std::uint32_t c, bool t) : coro( c), magic( MAGIC), copy_throws( t) { w::reg( this, w::FUNCTOR_OBJ, c); }
    FnState( FnState const& o) : coro( o.coro), magic( o.magic), copy_throws( o.copy_throws) {
        if ( ! w::alive( & o, w::FUNCTOR_OBJ) ) eng::fail( eng::FUNCTOR, "function object copied after its destruction");
        if ( copy_throws) throw w::FaultExc( coro);
        functor_copy_made( coro, true);
        w::reg( this, w::FUNCTOR_OBJ, coro);
    }
    FnState( FnState && o) : coro( o.coro), magic( o.magic), copy_throws( o.copy_throws) {
        if ( ! w::alive( & o, w::FUNCTOR_OBJ) ) eng::fail( eng::FUNCTOR, "function object moved after its destruction");
        o.magic = GONE;
        functor_copy_made( coro, false);
        w::reg( this, w::FUNCTOR_OBJ, coro);
    }
    FnState & operator=( FnState const&) = delete;
    ~FnState() { if ( MAGIC == magic) eng::trace( 0xf0000000u + coro); w::unreg( this, w::FUNCTOR_OBJ); magic = 0; }    // order of the release of captured objects
    template< typename Counterpart >
    void call( Counterpart & c) const {
        if ( ! w::alive( this, w::FUNCTOR_OBJ) || MAGIC != magic) eng::fail( eng::FUNCTOR, "function object invoked in a moved-from or destroyed state");
        auto p = peer_of( c);
        run_function( coro, p);
        if ( ! w::alive( this, w::FUNCTOR_OBJ) || MAGIC != magic) eng::fail( eng::FUNCTOR, "captured state of the function object changed while it ran");
    }
};
template< typename Counterpart >
struct Fn : FnState {
    Fn( std::uint32_t c, bool t) : FnState( c, t) {}
    void operator()( Counterpart & c) const { call( c); }
};
template< typename Counterpart >
struct MoFn : FnState {
    explicit MoFn( std::uint32_t c) : FnState( c, false) {}
    MoFn( MoFn const&) = delete;
    MoFn( MoFn && o) : FnState( std::move( static_cast< FnState & >( o) ) ) {}
    void operator()( Counterpart & c) { call( c); }
};

template< typename C, typename F >
C * build( void * mem, CreateSpec const& s, F && f) {
    switch ( s.al_mode) {
    case AL_CONST_LV: { w::LAlloc const a( s.coro, s.alloc_fails); return ::new ( mem) C( a, std::forward< F >( f) ); }
    case AL_LV: { w::MAlloc a( s.coro, s.alloc_fails); return ::new ( mem) C( a, std::forward< F >( f) ); }
    case AL_RV: return ::new ( mem) C( w::MAlloc( s.coro, s.alloc_fails), std::forward< F >( f) );
    case AL_STDFIXED: return ::new ( mem) C( co::fixedsize_stack( w::stack_size), std::forward< F >( f) );
    case AL_POOLED: { co::pooled_fixedsize_stack a( w::stack_size); return ::new ( mem) C( a, std::forward< F >( f) ); }
    case AL_PROTECTED: return ::new ( mem) C( co::protected_fixedsize_stack( w::stack_size), std::forward< F >( f) );
    default: return ::new ( mem) C( std::forward< F >( f) );
    }
}

template< typename C, typename Counterpart >
struct Box : BoxBase {
    alignas( C) unsigned char mem[sizeof( C)];
    C * c;
    Box() : c( nullptr) { std::memset( mem, 0x5A, sizeof( mem) ); }
    ~Box() { if ( c) c->~C(); }
    void create( CreateSpec const& s) override {
        switch ( s.fn_mode) {
        case FN_LVALUE: {
            Fn< Counterpart > f( s.coro, s.copy_fails);
            c = build< C >( mem, s, f);
            if ( FnState::MAGIC != f.magic) eng::fail( eng::FUNCTOR, "lvalue function object was moved from");
            break; }
        case FN_CLVALUE: {
            Fn< Counterpart > const f( s.coro, s.copy_fails);
            c = build< C >( mem, s, f);
            if ( FnState::MAGIC != f.magic) eng::fail( eng::FUNCTOR, "const lvalue function object was moved from");
            break; }
        case FN_STDFUNCTION: {
            std::function< void( Counterpart &) > f( Fn< Counterpart >( s.coro, false) );
            c = build< C >( mem, s, f);
            if ( ! f) eng::fail( eng::FUNCTOR, "lvalue std::function was moved from");
            break; }
        case FN_MOVEONLY:
            c = build< C >( mem, s, MoFn< Counterpart >( s.coro) );
            break;
        default: {
            Fn< Counterpart > f( s.coro, false);
            c = build< C >( mem, s, std::move( f) );
            break; }
        }
        if ( static_cast< void * >( c) != static_cast< void * >( mem) ) std::abort();
    }
    void create_null() override {
        // the only way to a not-a-coroutine: move from a coroutine
        C t( []( Counterpart &){});
        c = ::new ( mem) C( std::move( t) );
        C u( std::move( * c) );
        (void)u;
    }
    void destroy() override { C * x = c; c = nullptr; x->~C(); }
    bool truth( int form) override { return truth_of( * c, form); }
    static void resume_( pull_t & x, std::uint32_t, int, bool) { Ops< T >::resume( x); }
    static void resume_( push_t & x, std::uint32_t id, int form, bool fault) { Ops< T >::push( x, id, form, fault); }
    void resume( std::uint32_t id, int form, bool fault) override { resume_( * c, id, form, fault); }
    static std::uint32_t get_( pull_t & x) { return Ops< T >::get( x); }
    static std::uint32_t get_( push_t &) { std::abort(); }
    static std::uint32_t peek_( pull_t & x, int f) { return Ops< T >::peek( x, f); }
    static std::uint32_t peek_( push_t &, int) { std::abort(); }
    std::uint32_t get() override { return get_( * c); }
    std::uint32_t peek( int form) override { return peek_( * c, form); }
    // form 0: directly, 1: via an object of a derived class, 2: via a growing container, 3: several times
    struct Der : C { explicit Der( C && o) noexcept : C( std::move( o) ) {} Der( Der &&) = default; int more[3]; };
    void move_construct( BoxBase & from, int form) override {
        Box & b = static_cast< Box & >( from);
        switch ( form) {
        case 1: { Der d( std::move( * b.c) ); gone( * b.c); Der e( std::move( d) ); gone( d); c = ::new ( mem) C( std::move( e) ); gone( e); break; }
        case 2: { std::vector< C > v; v.push_back( std::move( * b.c) ); v.reserve( v.capacity() + 3); v.insert( v.begin(), C( std::move( * b.c) ) ); c = ::new ( mem) C( std::move( v[1]) ); gone( v[1]); break; }
        case 3: { C x( std::move( * b.c) ), y( std::move( x) ); gone( x); c = ::new ( mem) C( std::move( y) ); gone( y); break; }
        default: c = ::new ( mem) C( std::move( * b.c) ); break;
        }
    }
    static void gone( C const& x) { if ( x || ! ! x) eng::fail( eng::MOVE | eng::VALID, "moved-from object tests true"); }
    void move_assign( BoxBase & from, int form) override {
        Box & b = static_cast< Box & >( from);
        if ( 1 == form) { Der d( std::move( * b.c) ); gone( * b.c); C & r = ( * c = std::move( d) ); gone( d); same( & r, c); return; }
        if ( 2 == form) { C & r = ( * c = C( std::move( * b.c) ) ); same( & r, c); return; }
        C & r = ( * c = std::move( * b.c) );
        same( & r, c);
    }
    void swap( BoxBase & other) override { using std::swap; swap( * c, * static_cast< Box & >( other).c); }
};

template< typename C >
void traits() {
    if ( std::is_copy_constructible< C >::value || std::is_copy_assignable< C >::value) eng::fail( eng::MOVE, "coroutine objects can be copied");
    if ( ! std::is_nothrow_move_constructible< C >::value || ! std::is_nothrow_move_assignable< C >::value) eng::fail( eng::MOVE, "moving a coroutine object is not noexcept");
}

}

template<>
BoxBase * make_box_kind< KIND >( bool pull) {
    traits< pull_t >(); traits< push_t >();
    if ( pull) return new Box< pull_t, push_t >();
    return new Box< push_t, pull_t >();
}

}
