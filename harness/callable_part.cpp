#include "callable.hpp"

#include <cstdlib>
#include <functional>
#include <initializer_list>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <boost/coroutine2/all.hpp>

namespace {

typedef std::uint32_t u32;
namespace co = boost::coroutines2;
using eng::FUNCTOR;

using namespace callable;
Ctx * X;

struct Boom { u32 id; };

// identity of a function object: copies, moves and destructions are recorded
struct Tok {
    u32 id; u32 state; u32 magic;
    enum : u32 { OK = 0x13572468u, GONE = 0xdddddddd };
    explicit Tok( u32 i) : id( i), state( i * 3 + 1), magic( OK) { w::reg( this, w::FUNCTOR_OBJ, i); }
    Tok( Tok const& o) : id( o.id), state( o.state), magic( o.magic) { o.src( "copied"); if ( X->counting) { ++X->copies; if ( X->no_copy) eng::soft( FUNCTOR, "rvalue function object was copied"); } w::reg( this, w::FUNCTOR_OBJ, id); }
    Tok( Tok && o) : id( o.id), state( o.state), magic( o.magic) { o.src( "moved"); o.magic = GONE; o.state = 0; if ( X->counting) ++X->moves; w::reg( this, w::FUNCTOR_OBJ, id); }
    Tok & operator=( Tok const&) = delete;
    ~Tok() { if ( ! w::alive( this, w::FUNCTOR_OBJ) ) eng::soft( FUNCTOR, "function object destroyed twice"); w::unreg( this, w::FUNCTOR_OBJ); magic = 0xeeeeeeee; }
    void src( char const* op) const { if ( ! w::alive( this, w::FUNCTOR_OBJ) || OK != magic) eng::soft( FUNCTOR, "function object %s in a moved-from or destroyed state", op); }
    void good( char const* when) const { if ( ! w::alive( this, w::FUNCTOR_OBJ) || OK != magic || state != id * 3 + 1) eng::soft( FUNCTOR, "captured state wrong %s", when); }
};
struct MTok : Tok {
    explicit MTok( u32 i) : Tok( i) {}
    MTok( MTok && o) : Tok( std::move( static_cast< Tok & >( o) ) ) {}
    MTok( MTok const&) = delete;
};

// a local whose destructor uses the captured state
struct Guard {
    Tok const* t;
    explicit Guard( Tok const* x) : t( x) {}
    ~Guard() { ++X->alive_checks; if ( t) t->good( "while the locals of the function are destroyed"); }
};

inline void step_( co::coroutine< int >::push_type & p, u32 i) { p( static_cast< int >( i) ); }
inline void step_( co::coroutine< int >::pull_type & p, u32 i) { if ( ! p || static_cast< int >( i) != p.get() ) eng::soft( FUNCTOR | eng::VALUE, "counterpart delivers another value"); p(); }
inline void step_( co::coroutine< void >::push_type & p, u32) { p(); }
inline void step_( co::coroutine< void >::pull_type & p, u32) { p(); }
inline void step_( co::coroutine< std::string & >::push_type & p, u32) { static std::string s( "x"); p( s); }
inline void step_( co::coroutine< std::string & >::pull_type & p, u32) { if ( "y" != p.get() ) eng::soft( FUNCTOR | eng::VALUE, "counterpart delivers another value"); p(); }

// what every callable of the zoo does
template< typename P >
void body( P & peer, Tok const* t) {
    if ( X->building) eng::soft( FUNCTOR | eng::CONTROL, "function of a push_type invoked by its construction");
    if ( 0 != X->calls++) eng::soft( FUNCTOR | eng::CONTROL, "function object invoked twice");
    if ( ! peer) eng::soft( FUNCTOR | eng::VALID, "counterpart tests false");
    Guard g( t);
    X->in_body = true;
    struct Out { ~Out() { X->in_body = false; } } out;
    if ( t) t->good( "at entry");
    Tok const* self = t;
    for ( u32 i = 0; i < X->n; ++i) {
        ++X->steps_in;
        step_( peer, i);
        if ( t != self) eng::soft( FUNCTOR, "function object moved while it runs");
        if ( t) t->good( "after a resumption");
    }
    if ( THROW == X->end) throw Boom{ X->id };
}

// ---- zoo -------------------------------------------------------------------------------------
template< typename P > struct ConstF : Tok { explicit ConstF( u32 i) : Tok( i) {} void operator()( P & p) const { body( p, this); } };
template< typename P > struct MutF : Tok { u32 count; explicit MutF( u32 i) : Tok( i), count( 5) {} void operator()( P & p) { if ( 5 != count++) eng::soft( FUNCTOR, "state of the callable wrong"); body( p, this); if ( 6 != count) eng::soft( FUNCTOR, "state of the callable lost"); } };
template< typename P > struct RetF : Tok { explicit RetF( u32 i) : Tok( i) {} int operator()( P & p) const { body( p, this); return 5; } };
template< typename P > struct FinalF final : Tok { explicit FinalF( u32 i) : Tok( i) {} void operator()( P & p) const { body( p, this); } };
template< typename P > struct VirtBase : Tok { explicit VirtBase( u32 i) : Tok( i) {} virtual ~VirtBase() {} VirtBase( VirtBase const&) = default; VirtBase( VirtBase &&) = default; virtual void operator()( P & ) { eng::soft( FUNCTOR, "callable was sliced"); } };
template< typename P > struct VirtF : VirtBase< P > { explicit VirtF( u32 i) : VirtBase< P >( i) {} void operator()( P & p) override { body( p, this); } };
template< typename P > struct AmpF : Tok { explicit AmpF( u32 i) : Tok( i) {} AmpF * operator&() const { eng::soft( FUNCTOR, "overloaded operator& of the callable used"); } void operator()( P & p) const { body( p, this); } };
template< typename P, unsigned N, unsigned A > struct alignas( A) BigF : Tok {
    unsigned char b[N];
    explicit BigF( u32 i) : Tok( i) { for ( unsigned k = 0; k < N; ++k) b[k] = static_cast< unsigned char >( k * 5 + i); }
    void check( char const* when) const {
        if ( reinterpret_cast< std::uintptr_t >( this) % A) eng::soft( FUNCTOR | eng::ALIGN, "callable of alignment %u is misaligned %s", A, when);
        for ( unsigned k = 0; k < N; ++k) if ( b[k] != static_cast< unsigned char >( k * 5 + id) ) eng::soft( FUNCTOR, "captured bytes changed %s", when);
    }
    void operator()( P & p) const { check( "at entry"); struct G { BigF const* f; ~G() { f->check( "at the end"); } } g = { this }; body( p, this); }
};
template< typename P > struct OnlyMove : MTok { explicit OnlyMove( u32 i) : MTok( i) {} OnlyMove( OnlyMove &&) = default; void operator()( P & p) { body( p, this); } };
// copies only: has no move constructor
template< typename P > struct OnlyCopy : Tok { explicit OnlyCopy( u32 i) : Tok( i) {} OnlyCopy( OnlyCopy const& o) : Tok( static_cast< Tok const& >( o) ) {} void operator()( P & p) const { body( p, this); } };
template< typename P > struct PtrF : Tok { std::shared_ptr< u32 > sp; std::string s; explicit PtrF( u32 i) : Tok( i), sp( std::make_shared< u32 >( i) ), s( 50, 'c') {}
    void operator()( P & p) { struct G { PtrF * f; ~G() { if ( ! f->sp || * f->sp != f->id || f->s != std::string( 50, 'c') ) eng::soft( FUNCTOR, "captured objects lost"); } } g = { this }; body( p, this); } };
// the stored function object is called as a modifiable lvalue with the counterpart as a modifiable lvalue
template< typename P > struct OverF : Tok { explicit OverF( u32 i) : Tok( i) {}
    void operator()( P & p) & { body( p, this); }
    void operator()( P const&) const& { eng::soft( FUNCTOR, "called as another overload (const)"); }
    void operator()( P &&) & { eng::soft( FUNCTOR, "called as another overload (rvalue counterpart)"); }
    template< typename X > void operator()( X &&) && { eng::soft( FUNCTOR, "called as another overload (rvalue function object)"); } };
// constructors that take the place of copies when braces are used or lvalues are passed on without const
template< typename P > struct ListF : Tok { bool wrapped; explicit ListF( u32 i) : Tok( i), wrapped( false) {}
    ListF( std::initializer_list< ListF > l) : Tok( l.size() ? l.begin()->id : 0), wrapped( true) {}
    void operator()( P & p) { if ( wrapped) eng::soft( FUNCTOR, "function object was wrapped by its list constructor"); body( p, this); } };
template< typename P > struct GreedyF : Tok { bool wrapped; explicit GreedyF( u32 i) : Tok( i), wrapped( false) {}
    GreedyF( GreedyF const&) = default; GreedyF( GreedyF &&) = default;
    template< typename X, typename = typename std::enable_if< ! std::is_integral< typename std::decay< X >::type >::value && ! std::is_same< typename std::decay< X >::type, GreedyF >::value >::type >
    GreedyF( X && ) : Tok( 0), wrapped( true) {}
    void operator()( P & p) { if ( wrapped) eng::soft( FUNCTOR, "function object was made from another object"); body( p, this); } };
template< typename P > void plain( P & p) { body( p, nullptr); }
template< typename P > int plain_ret( P & p) { body( p, nullptr); return 1; }
template< typename P > struct Member : Tok { explicit Member( u32 i) : Tok( i) {} void run( P & p) { body( p, this); } void crun( P & p, Tok const& x) const { x.good( "bound argument"); body( p, this); } };

// int: every form of allocator; the other element kinds: two forms each (the product is only compile time)
template< typename C > struct is_int : std::false_type {};
template<> struct is_int< co::coroutine< int >::pull_type > : std::true_type {};
template<> struct is_int< co::coroutine< int >::push_type > : std::true_type {};
template< typename C, typename F >
C * build_( void * m, int al, F && f, std::false_type) {
#if ! defined(BOOST_USE_SEGMENTED_STACKS)
    if ( al & 1) { w::MAlloc a( 1); return ::new ( m) C( a, std::forward< F >( f) ); }
#endif
    return ::new ( m) C( std::forward< F >( f) );
}
template< typename C, typename F >
C * build_( void * m, int al, F && f, std::true_type) {
    switch ( al) {
    case FIXED: return ::new ( m) C( co::fixedsize_stack( 128 * 1024), std::forward< F >( f) );
    case POOLED: { co::pooled_fixedsize_stack a( 128 * 1024); return ::new ( m) C( a, std::forward< F >( f) ); }
#if ! defined(BOOST_USE_SEGMENTED_STACKS)
    case CONST_LV: { w::LAlloc const a( 1); return ::new ( m) C( a, std::forward< F >( f) ); }
    case LV: { w::MAlloc a( 1); return ::new ( m) C( a, std::forward< F >( f) ); }
    case RV: return ::new ( m) C( w::MAlloc( 1), std::forward< F >( f) );
#endif
    default: return ::new ( m) C( std::forward< F >( f) );
    }
}

template< typename C, typename F >
C * build( void * m, int al, F && f) { return build_< C, F >( m, al, std::forward< F >( f), is_int< C >() ); }

// runs the coroutine as the script says, then destroys it
template< typename C, typename Resume, typename First >
u32 drive( eng::Choices & ch, C * c, void * spare, u32 started, Resume resume, First) {
    // started: number of body steps that must have been reached after construction
    if ( X->steps_in != started) eng::soft( FUNCTOR | eng::CONTROL, "after construction the function made %u steps instead of %u", X->steps_in, started);
    u32 stop = DESTROY == X->end ? ch.below( X->n + 1) : NEVER == X->end ? 0 : 1000000;
    bool thrown = false;
    void * at = c;
    u32 k = 0;
    for ( ; * c && k < stop; ++k) {
        if ( ch.chance( 1, 6) && spare) { C * d = ::new ( spare) C( std::move( * c) ); c->~C(); spare = at; at = d; c = d; }
        try { resume( * c, k); } catch ( Boom const& b) { thrown = true; if ( b.id != X->id) eng::soft( FUNCTOR | eng::EXC, "another exception"); }
    }
    if ( thrown != ( THROW == X->end && stop > X->n) ) eng::soft( FUNCTOR | eng::EXC, "exception of the function: expected %d, observed %d", THROW == X->end, thrown);
    bool complete = ! * c;
    eng::trace( k); eng::trace( thrown * 2u + complete); eng::trace( X->steps_in); eng::trace( X->calls);
    if ( complete && X->in_body) eng::soft( FUNCTOR | eng::CONTROL, "function has not been left");
    c->~C();
    if ( X->in_body) eng::soft( FUNCTOR | eng::UNWIND, "function has not been unwound");
    return k;
}

template< typename T >
struct Side {
    typedef typename co::coroutine< T >::pull_type pull_t;
    typedef typename co::coroutine< T >::push_type push_t;
};
inline void push_one( co::coroutine< int >::push_type & p, u32 i) { p( static_cast< int >( i) ); }
inline void push_one( co::coroutine< void >::push_type & p, u32) { p(); }
inline void push_one( co::coroutine< std::string & >::push_type & p, u32) { static std::string s( "y"); p( s); }
inline void pull_check( co::coroutine< int >::pull_type & p, u32 i) { if ( static_cast< int >( i) != p.get() ) eng::soft( FUNCTOR | eng::VALUE, "another value"); }
inline void pull_check( co::coroutine< void >::pull_type &, u32) {}
inline void pull_check( co::coroutine< std::string & >::pull_type & p, u32) { if ( "x" != p.get() ) eng::soft( FUNCTOR | eng::VALUE, "another value"); }

template< typename T >
struct Case {
    typedef typename Side< T >::pull_t pull_t;
    typedef typename Side< T >::push_t push_t;
    eng::Choices & ch; bool pull; int al;
    alignas( pull_t) unsigned char m1[sizeof( pull_t)], m2[sizeof( pull_t)], m3[sizeof( push_t)], m4[sizeof( push_t)];
    Case( eng::Choices & c, bool p, int a) : ch( c), pull( p), al( a) {}

    // after_construct: inspects / destroys the source object
    template< typename C, typename F, typename After >
    void go( std::true_type, F && f, After after) {     // pull_type
        C * c = nullptr; bool thrown = false;
        X->counting = true;
        try { c = build< C >( m1, al, std::forward< F >( f) ); } catch ( Boom const& b) { thrown = true; if ( b.id != X->id) eng::soft( FUNCTOR | eng::EXC, "another exception"); }
        X->counting = false;
        after();
        if ( thrown != ( 0 == X->n && THROW == X->end) ) eng::soft( FUNCTOR | eng::EXC, "construction: exception of the function expected %d observed %d", 0 == X->n && THROW == X->end, thrown);
        if ( thrown) return;
        if ( 1 != X->calls) eng::soft( FUNCTOR | eng::CONTROL, "function invoked %u times by the construction of a pull_type", X->calls);
        if ( X->n == 0 ? ! ! * c : ! * c) eng::soft( FUNCTOR | eng::VALID, "pull_type tests wrong after construction");
        X->counting = true;
        drive( ch, c, m2, X->n ? 1 : 0, []( C & x, u32 k) { pull_check( x, k); x(); }, 0);
        X->counting = false;
        if ( 1 != X->calls) eng::soft( FUNCTOR, "function invoked %u times", X->calls);
    }
    template< typename C, typename F, typename After >
    void go( std::false_type, F && f, After after) {    // push_type
        X->counting = true;
        X->building = true;
        C * c = build< C >( m3, al, std::forward< F >( f) );
        X->counting = X->building = false;
        after();
        if ( X->calls) eng::soft( FUNCTOR | eng::CONTROL, "function of a push_type invoked by its construction");
        if ( ! * c) eng::soft( FUNCTOR | eng::VALID, "fresh push_type tests false");
        X->counting = true;
        u32 pushed = drive( ch, c, m4, 0, []( C & x, u32 k) { push_one( x, k); }, 0);
        X->counting = false;
        if ( X->calls != ( pushed ? 1u : 0u) ) eng::soft( FUNCTOR | eng::CONTROL, "function invoked %u times by %u calls", X->calls, pushed);
    }
};

// source object kept on the heap: it is destroyed and overwritten before the coroutine runs
template< typename F, typename Cs, typename C, typename Tag, typename... A >
void with( Cs & cs, Tag tag, int mode, bool tracked, A... args) {
    void * mem = nullptr;
    if ( ::posix_memalign( & mem, alignof( F) < sizeof( void *) ? sizeof( void *) : alignof( F), sizeof( F) ) ) std::abort();
    F * src = ::new ( mem) F( std::forward< A >( args)...);
    auto check = [&]( bool lvalue) {
        if ( lvalue && tracked && ! w::alive( src, w::FUNCTOR_OBJ) ) eng::soft( FUNCTOR, "source object destroyed");
        (void)lvalue;
        src->~F(); std::memset( mem, 0xAB, sizeof( F) );
    };
    switch ( mode) {
    case 0: // rvalue
        X->no_copy = true;
        cs.template go< C >( tag, std::move( * src), [&]{ check( false); });
        break;
    case 1: // lvalue
        X->no_copy = false;
        cs.template go< C >( tag, * src, [&]{ static_cast< Tok const& >( * src).good( "of the lvalue after construction"); check( true); });
        break;
    default: // const lvalue
        X->no_copy = false;
        cs.template go< C >( tag, static_cast< F const& >( * src), [&]{ static_cast< Tok const& >( * src).good( "of the const lvalue after construction"); check( true); });
        break;
    }
    std::free( mem);
}

template< typename T, bool Pull >
void zoo( eng::Choices & ch, int al) {
    typedef typename Side< T >::pull_t pull_t;
    typedef typename Side< T >::push_t push_t;
    typedef typename std::conditional< Pull, pull_t, push_t >::type C;
    typedef typename std::conditional< Pull, push_t, pull_t >::type P;      // counterpart
    std::integral_constant< bool, Pull > tag;
    Case< T > cs( ch, Pull, al);
    u32 id = X->id;
    int mode = static_cast< int >( ch.below( 3) );
    auto none = []{};
    unsigned k = ch.below( 30);
    eng::shape( k); eng::shape( mode);
    static char const* const mname[] = { "rvalue", "lvalue", "const lvalue" };
#define ZOO(n) eng::label( n); eng::note( "callable: %s, handed over as %s", n, mname[mode]);
    switch ( k) {
    case 0: ZOO( "const functor") with< ConstF< P >, Case< T >, C >( cs, tag, mode, true, id); break;
    case 1: ZOO( "mutable functor") with< MutF< P >, Case< T >, C >( cs, tag, mode, true, id); break;
    case 2: ZOO( "functor with result") with< RetF< P >, Case< T >, C >( cs, tag, mode, true, id); break;
    case 3: ZOO( "final functor") with< FinalF< P >, Case< T >, C >( cs, tag, mode, true, id); break;
    case 4: ZOO( "virtual functor") with< VirtF< P >, Case< T >, C >( cs, tag, mode, false, id); break;
    case 5: ZOO( "functor with operator&") { // no with(): addresses are taken there
        X->no_copy = 0 == mode;
        AmpF< P > f( id);
        if ( 0 == mode) cs.template go< C >( tag, std::move( f), none); else if ( 1 == mode) cs.template go< C >( tag, f, [&]{ f.good( "of the lvalue"); }); else { AmpF< P > const& g = f; cs.template go< C >( tag, g, none); }
        break; }
    case 6: ZOO( "large functor") with< BigF< P, 1000, 8 >, Case< T >, C >( cs, tag, mode, true, id); break;
    case 7: ZOO( "huge functor") with< BigF< P, 12000, 16 >, Case< T >, C >( cs, tag, mode, true, id); break;
    case 8: ZOO( "over-aligned functor 64") with< BigF< P, 10, 64 >, Case< T >, C >( cs, tag, mode, true, id); break;
    case 9: ZOO( "over-aligned functor 32") with< BigF< P, 100, 32 >, Case< T >, C >( cs, tag, mode, true, id); break;
    case 10: ZOO( "functor without move") { X->no_copy = false; int m = mode; void * mem = std::malloc( sizeof( OnlyCopy< P >) ); OnlyCopy< P > * f = ::new ( mem) OnlyCopy< P >( id);
        auto kill = [&]{ f->good( "of the source"); f->~OnlyCopy< P >(); std::memset( mem, 0xAB, sizeof( OnlyCopy< P >) ); };
        if ( 0 == m) cs.template go< C >( tag, std::move( * f), kill); else if ( 1 == m) cs.template go< C >( tag, * f, kill); else cs.template go< C >( tag, static_cast< OnlyCopy< P > const& >( * f), kill);
        std::free( mem); break; }
    case 11: ZOO( "owning functor") with< PtrF< P >, Case< T >, C >( cs, tag, mode, true, id); break;
    case 12: case 13: ZOO( "move-only functor") with_move_only( cs, tag, id, static_cast< C * >( nullptr), static_cast< P * >( nullptr) ); break;
    case 14: ZOO( "function") cs.template go< C >( tag, plain< P >, none); break;
    case 15: ZOO( "function pointer") { void (* f)( P &) = & plain< P >; auto clear = [&]{ f = nullptr; };
        if ( 0 == mode) cs.template go< C >( tag, & plain< P >, none); else if ( 1 == mode) { void (* g)( P &) = f; cs.template go< C >( tag, f, [&]{ if ( f != g) eng::soft( FUNCTOR, "function pointer changed"); clear(); }); }
        else { void (* const g)( P &) = f; cs.template go< C >( tag, g, none); }
        break; }
    case 16: ZOO( "function with result") { int (& f)( P &) = plain_ret< P >; cs.template go< C >( tag, f, none); break; }
    case 17: ZOO( "std::function") {
        std::unique_ptr< std::function< void( P &) > > f( new std::function< void( P &) >( ConstF< P >( id) ) );
        if ( 0 == mode) { X->no_copy = true; cs.template go< C >( tag, std::move( * f), [&]{ f.reset(); }); }
        else if ( 1 == mode) cs.template go< C >( tag, * f, [&]{ if ( ! * f) eng::soft( FUNCTOR, "lvalue std::function emptied"); f.reset(); });
        else cs.template go< C >( tag, static_cast< std::function< void( P &) > const& >( * f), [&]{ if ( ! * f) eng::soft( FUNCTOR, "const std::function emptied"); f.reset(); });
        break; }
    case 18: ZOO( "std::function of a function") { std::function< void( P &) > f( & plain< P >); cs.template go< C >( tag, f, [&]{ if ( ! f) eng::soft( FUNCTOR, "lvalue std::function emptied"); f = nullptr; }); break; }
    case 19: ZOO( "std::bind") { auto f = std::bind( ConstF< P >( id), std::placeholders::_1); if ( mode) cs.template go< C >( tag, f, none); else { X->no_copy = true; cs.template go< C >( tag, std::move( f), none); } break; }
    case 20: ZOO( "std::bind of a member function") { Member< P > m( id); auto f = std::bind( & Member< P >::crun, & m, std::placeholders::_1, Tok( id + 1) ); if ( mode) cs.template go< C >( tag, f, none); else { X->no_copy = true; cs.template go< C >( tag, std::move( f), none); } break; }
    case 21: ZOO( "std::ref") { X->no_copy = true; MutF< P > f( id); cs.template go< C >( tag, std::ref( f), [&]{ f.good( "behind std::ref"); }); f.good( "behind std::ref"); if ( X->calls && DESTROY != X->end && THROW != X->end && NEVER != X->end && 6 != f.count) eng::soft( FUNCTOR, "std::ref: the referenced object was not used"); break; }
    case 22: ZOO( "lambda") { Tok t( id); auto f = [t]( P & p) { body( p, & t); }; if ( mode) cs.template go< C >( tag, f, none); else { X->no_copy = true; cs.template go< C >( tag, std::move( f), none); } break; }
    case 23: ZOO( "mutable lambda") { Tok t( id); u32 n = 0; auto f = [t,n]( P & p) mutable { n += 3; body( p, & t); if ( 3 != n) eng::soft( FUNCTOR, "state of a lambda lost"); }; if ( 1 == mode) cs.template go< C >( tag, f, none); else { X->no_copy = true; cs.template go< C >( tag, std::move( f), none); } break; }
    case 24: ZOO( "lambda by reference") { Tok t( id); u32 seen = 0; cs.template go< C >( tag, [&]( P & p) { ++seen; body( p, & t); }, none); if ( seen != X->calls) eng::soft( FUNCTOR, "captured reference lost"); break; }
    case 25: ZOO( "stateless lambda") { auto f = []( P & p) { body( p, nullptr); }; if ( mode) cs.template go< C >( tag, f, none); else cs.template go< C >( tag, +f, none); break; }
    case 27: ZOO( "overloaded functor") with< OverF< P >, Case< T >, C >( cs, tag, mode, true, id); break;
    case 28: ZOO( "functor with list constructor") with< ListF< P >, Case< T >, C >( cs, tag, mode, true, id); break;
    case 29: ZOO( "functor with greedy constructor") with< GreedyF< P >, Case< T >, C >( cs, tag, mode, true, id); break;
    default:
#if __cplusplus >= 201402L
        ZOO( "generic / init-capture lambda")
        if ( mode) { X->no_copy = true; cs.template go< C >( tag, [t=MTok( id)]( auto & p) { body( p, & t); }, none); }
        else { Tok t( id); auto f = [t]( auto & p) { body( p, & t); }; cs.template go< C >( tag, f, none); }
#else
        ZOO( "stateless lambda") cs.template go< C >( tag, []( P & p) { body( p, nullptr); }, none);
#endif
        break;
    }
}
template< typename Cs, typename Tag, typename C, typename P >
void with_move_only( Cs & cs, Tag tag, u32 id, C *, P *) {
    X->no_copy = true;
    std::unique_ptr< OnlyMove< P > > f( new OnlyMove< P >( id) );
    cs.template go< C >( tag, std::move( * f), [&]{ f.reset(); });
}

}

#define PASTE_( a, b) a##b
#define PASTE( a, b) PASTE_( a, b)
namespace callable {
void PASTE( part, PART)( Ctx * x, eng::Choices & ch, int al) {
    X = x;
#if PART % 3 == 0
    typedef int T;
#elif PART % 3 == 1
    typedef void T;
#else
    typedef std::string & T;
#endif
    zoo< T, PART < 3 >( ch, al);
}
}
