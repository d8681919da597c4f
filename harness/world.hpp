// Instrumented payloads, locals and stack allocators shared by the harnesses.
#ifndef VERIF_WORLD_HPP
#define VERIF_WORLD_HPP

#include "engine.hpp"

#include <cstddef>
#include <cstdint>
#include <cstring>
#include <exception>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

#include <boost/context/stack_context.hpp>

namespace w {

// ---- ledger of live tracked objects --------------------------------------------------------
enum What { PAYLOAD_OBJ = 1, LOCAL_OBJ = 2, FUNCTOR_OBJ = 3 };
struct Live { void const* p; std::uint32_t what; std::uint32_t id; };

void reset();                                   // start of a case
void reg( void const* p, std::uint32_t what, std::uint32_t id);
void unreg( void const* p, std::uint32_t what);
bool alive( void const* p, std::uint32_t what);
void set_id( void const* p, std::uint32_t what, std::uint32_t id);
std::vector< Live > const& live();
unsigned count( std::uint32_t what, std::uint32_t id);
unsigned count( std::uint32_t what);

std::uint32_t & copies( std::uint32_t id);      // copy constructions from a value with this id
extern int fault_in;                            // >0: the fault_in-th payload copy/move throws
extern std::uint32_t fault_id;

// ---- exceptions ----------------------------------------------------------------------------
extern long exc_live;           // live exception objects
struct ExcLive { ExcLive() { ++exc_live; } ExcLive( ExcLive const&) { ++exc_live; } ExcLive & operator=( ExcLive const&) { return * this; } ~ExcLive() { --exc_live; } };
struct ExcBase { std::uint32_t id; ExcLive live; explicit ExcBase( std::uint32_t i) : id( i) {} virtual ~ExcBase() {} };
struct ExcDerived : ExcBase { std::string s; explicit ExcDerived( std::uint32_t i) : ExcBase( i), s( 40, 'x') {} };
struct ExcStd : std::runtime_error { std::uint32_t id; ExcLive live; explicit ExcStd( std::uint32_t i) : std::runtime_error( "excstd" + std::to_string( i) ), id( i) {} };
struct FaultExc { std::uint32_t id; ExcLive live; explicit FaultExc( std::uint32_t i) : id( i) {} };
struct AllocFail : std::bad_alloc { std::uint32_t id; ExcLive live; explicit AllocFail( std::uint32_t i) : id( i) {} };

// ---- tracked payload -----------------------------------------------------------------------
enum : std::uint32_t { MOVED = 0xfffffffeu };

// NX: moves cannot fail
template< std::size_t Align, std::size_t Extra, bool Copyable, bool NX = false >
struct alignas( Align) Payload {
    Payload const*  self;
    std::uint32_t   id;
    unsigned char   pad[Extra];

    static void check_addr( void const* p) {
        if ( reinterpret_cast< std::uintptr_t >( p) % Align)
            eng::fail( eng::ALIGN | eng::PAYLOAD, "transferred object of alignment %u constructed at %%%u", static_cast< unsigned >( Align),
                       static_cast< unsigned >( reinterpret_cast< std::uintptr_t >( p) % Align) );
    }
    void fill_() { std::memset( pad, static_cast< int >( id & 0xff), Extra); }
    void check_src( Payload const& o, char const* op) const {
        if ( ! alive( & o, PAYLOAD_OBJ) || o.self != & o)
            eng::fail( eng::PAYLOAD, "%s from an object that is not alive", op);
    }
    static void boom() {
        if ( fault_in > 0 && 0 == --fault_in) throw FaultExc( fault_id);
    }
    explicit Payload( std::uint32_t i) : self( this), id( i) { check_addr( this); fill_(); reg( this, PAYLOAD_OBJ, id); }
    Payload( Payload const& o) : self( this), id( o.id) {
        static_assert( Copyable, "copied a move-only payload");
        check_addr( this); check_src( o, "copy construction"); boom();
        std::memcpy( pad, o.pad, Extra);
        if ( MOVED != id) ++copies( id);
        reg( this, PAYLOAD_OBJ, id);
    }
    Payload( Payload && o) noexcept( NX) : self( this), id( o.id) {
        check_addr( this); check_src( o, "move construction"); if ( ! NX) boom();
        std::memcpy( pad, o.pad, Extra);
        o.id = MOVED;
        reg( this, PAYLOAD_OBJ, id);
    }
    Payload & operator=( Payload const& o) { check_src( o, "copy assignment"); check_src( * this, "copy assignment to"); boom(); id = o.id; if ( MOVED != id) ++copies( id); std::memcpy( pad, o.pad, Extra); set_id( this, PAYLOAD_OBJ, id); return * this; }
    Payload & operator=( Payload && o) noexcept( NX) { check_src( o, "move assignment"); check_src( * this, "move assignment to"); if ( ! NX) boom(); id = o.id; std::memcpy( pad, o.pad, Extra); if ( & o != this) o.id = MOVED; set_id( this, PAYLOAD_OBJ, id); return * this; }
    ~Payload() {
        if ( self != this) eng::fail( eng::PAYLOAD, "destruction of an object that is not alive");
        unreg( this, PAYLOAD_OBJ);
        self = nullptr; id = 0xdeadbeef;
    }
    // value, with integrity checks
    std::uint32_t read( char const* where) const {
        if ( ! alive( this, PAYLOAD_OBJ) || self != this) eng::fail( eng::PAYLOAD | eng::VALUE, "%s: reads an object that is not alive", where);
        if ( MOVED != id)
            for ( std::size_t i = 0; i < Extra; ++i)
                if ( pad[i] != static_cast< unsigned char >( id & 0xff) ) eng::fail( eng::VALUE, "%s: content of value %u corrupted", where, id);
        return id;
    }
};
// move-only variant
template< std::size_t Align, std::size_t Extra >
struct alignas( Align) Payload< Align, Extra, false, false > {
    Payload const*  self;
    std::uint32_t   id;
    unsigned char   pad[Extra];
    static void boom() { if ( fault_in > 0 && 0 == --fault_in) throw FaultExc( fault_id); }
    explicit Payload( std::uint32_t i) : self( this), id( i) { std::memset( pad, static_cast< int >( id & 0xff), Extra); reg( this, PAYLOAD_OBJ, id); }
    Payload( Payload const&) = delete;
    Payload & operator=( Payload const&) = delete;
    Payload( Payload && o) : self( this), id( o.id) {
        if ( ! alive( & o, PAYLOAD_OBJ) || o.self != & o) eng::fail( eng::PAYLOAD, "move construction from an object that is not alive");
        boom();
        std::memcpy( pad, o.pad, Extra);
        o.id = MOVED;
        reg( this, PAYLOAD_OBJ, id);
    }
    Payload & operator=( Payload && o) {
        if ( ! alive( & o, PAYLOAD_OBJ) || ! alive( this, PAYLOAD_OBJ) ) eng::fail( eng::PAYLOAD, "move assignment with an object that is not alive");
        boom();
        id = o.id; std::memcpy( pad, o.pad, Extra); if ( & o != this) o.id = MOVED; set_id( this, PAYLOAD_OBJ, id); return * this;
    }
    ~Payload() {
        if ( self != this) eng::fail( eng::PAYLOAD, "destruction of an object that is not alive");
        unreg( this, PAYLOAD_OBJ);
        self = nullptr; id = 0xdeadbeef;
    }
    std::uint32_t read( char const* where) const {
        if ( ! alive( this, PAYLOAD_OBJ) || self != this) eng::fail( eng::PAYLOAD | eng::VALUE, "%s: reads an object that is not alive", where);
        if ( MOVED != id)
            for ( std::size_t i = 0; i < Extra; ++i)
                if ( pad[i] != static_cast< unsigned char >( id & 0xff) ) eng::fail( eng::VALUE, "%s: content of value %u corrupted", where, id);
        return id;
    }
};

typedef Payload< 8, 12, true >      Tracked;
typedef Payload< 8, 20, false >     MoveOnly;
typedef Payload< 128, 1000, true, true >  Big;

// ---- expected events (destructors, handlers, stacks) ---------------------------------------
enum EvType { EV_DTOR = 1, EV_CATCH, EV_RETHROW, EV_OPCATCH, EV_CALL, EV_ALLOC, EV_DEALLOC };
struct Event { int type; std::uint32_t a, b, c; };
void expect( int type, std::uint32_t a, std::uint32_t b = 0, std::uint32_t c = 0);
void event( int type, std::uint32_t a, std::uint32_t b = 0, std::uint32_t c = 0);
void expect_done( char const* where);           // all expected events have happened
bool pending_events();
extern bool (* permit)( int type, std::uint32_t a);    // may an event that is not expected happen

// local object of a coroutine function: its destructor is an event
struct Local {
    std::uint32_t id;
    std::uint32_t check;
    explicit Local( std::uint32_t i) : id( i), check( ~i) { if ( id) reg( this, LOCAL_OBJ, id); }
    Local( Local const&) = delete;
    Local & operator=( Local const&) = delete;
    ~Local() {
        if ( check != ~id) eng::fail( eng::FRAME | eng::UNWIND, "local object %u corrupted or destroyed twice", id);
        if ( id) { unreg( this, LOCAL_OBJ); event( EV_DTOR, id); }
        check = 0;
    }
    void verify() const { if ( check != ~id) eng::fail( eng::FRAME, "local object %u corrupted", id); }
};

// a block of stack filled with a pattern that must survive all context switches
template< std::size_t N >
struct Pattern {
    unsigned char   b[N];
    unsigned char   seed;
    explicit Pattern( unsigned char s) : seed( s) { for ( std::size_t i = 0; i < N; ++i) static_cast< volatile unsigned char * >( b)[i] = static_cast< unsigned char >( s + i * 7); }
    void verify() const { for ( std::size_t i = 0; i < N; ++i) if ( static_cast< unsigned char const volatile * >( b)[i] != static_cast< unsigned char >( seed + i * 7) ) eng::fail( eng::FRAME, "stack content of a suspended function changed"); }
    ~Pattern() { verify(); }
};

// ---- instrumented stack memory -------------------------------------------------------------
struct StackRec { char * base; std::size_t total; char * lo; std::size_t size; std::uint32_t coro; bool live; boost::context::stack_context sctx; };
std::vector< StackRec > & stacks();
extern unsigned char fill_byte; extern bool fill_random;
extern std::size_t stack_size;
boost::context::stack_context stack_get( std::uint32_t coro);
void stack_put( std::uint32_t coro, boost::context::stack_context & sctx);
unsigned stacks_live();
unsigned stacks_live_of( std::uint32_t coro);
void stacks_end_of_case();
extern bool stack_events;           // ALLOC/DEALLOC are matched against the expected events

[[noreturn]] void refuse( std::uint32_t coro);
// conforming stack allocators: one with const members, one without
struct LAlloc {
    std::uint32_t   coro; bool fail_;
    explicit LAlloc( std::uint32_t c, bool f = false) : coro( c), fail_( f) {}
    boost::context::stack_context allocate() const { if ( fail_) refuse( coro); return stack_get( coro); }
    void deallocate( boost::context::stack_context & s) const { stack_put( coro, s); }
};
struct MAlloc {
    std::uint32_t   coro; bool fail_; unsigned long n;
    explicit MAlloc( std::uint32_t c, bool f = false) : coro( c), fail_( f), n( 0) {}
    boost::context::stack_context allocate() { ++n; if ( fail_) refuse( coro); return stack_get( coro); }
    void deallocate( boost::context::stack_context & s) { ++n; stack_put( coro, s); }
};

}

#endif
