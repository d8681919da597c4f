#include "world.hpp"

#include <cstdlib>
#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define VERIF_ASAN 1
# endif
#endif
#if defined(__SANITIZE_ADDRESS__)
# define VERIF_ASAN 1
#endif
#ifdef VERIF_ASAN
# include <sanitizer/asan_interface.h>
#endif

namespace w {

long exc_live = 0;

static std::vector< Live > & lv() { static std::vector< Live > v; return v; }
static std::vector< std::uint32_t > & cp() { static std::vector< std::uint32_t > v; return v; }
static std::vector< Event > & ex() { static std::vector< Event > v; return v; }
static std::size_t ex_pos = 0;
int fault_in = 0;
std::uint32_t fault_id = 0;
unsigned char fill_byte = 0xA5; bool fill_random = false;
#ifdef VERIF_ASAN
std::size_t stack_size = 320 * 1024 + 592;   // not a multiple of the page size on purpose
#else
std::size_t stack_size = 96 * 1024 + 592;
#endif
bool stack_events = true;
bool (* permit)( int, std::uint32_t) = nullptr;
extern std::uint32_t refused;
static std::uint64_t rnd = 88172645463325252ull;

std::vector< StackRec > & stacks() { static std::vector< StackRec > v; return v; }

void reset() { refused = 0xffffffffu;
    rnd = 88172645463325252ull;
    lv().clear(); cp().clear(); ex().clear(); ex_pos = 0; fault_in = 0; fault_id = 0;
    stack_events = true;
}
void reg( void const* p, std::uint32_t what, std::uint32_t id) {
    Live l = { p, what, id };
    lv().push_back( l);
}
static Live * find( void const* p, std::uint32_t what) {
    std::vector< Live > & v = lv();
    for ( std::size_t i = v.size(); i-- > 0; ) if ( v[i].p == p && v[i].what == what) return & v[i];
    return nullptr;
}
void unreg( void const* p, std::uint32_t what) {
    Live * l = find( p, what);
    if ( ! l) eng::fail( PAYLOAD_OBJ == what ? eng::PAYLOAD : LOCAL_OBJ == what ? eng::UNWIND : eng::FUNCTOR, "%s destroyed that is not alive",
                         PAYLOAD_OBJ == what ? "transferred object" : LOCAL_OBJ == what ? "local object" : "function object");
    * l = lv().back(); lv().pop_back();
}
bool alive( void const* p, std::uint32_t what) { return nullptr != find( p, what); }
void set_id( void const* p, std::uint32_t what, std::uint32_t id) { Live * l = find( p, what); if ( l) l->id = id; }
std::vector< Live > const& live() { return lv(); }
unsigned count( std::uint32_t what, std::uint32_t id) { unsigned n = 0; for ( Live const& l : lv() ) n += l.what == what && l.id == id; return n; }
unsigned count( std::uint32_t what) { unsigned n = 0; for ( Live const& l : lv() ) n += l.what == what; return n; }
std::uint32_t & copies( std::uint32_t id) { if ( cp().size() <= id) cp().resize( id + 64); return cp()[id]; }

static char const* ev_name( int t) {
    switch ( t) { case EV_DTOR: return "destructor"; case EV_CATCH: return "catch"; case EV_RETHROW: return "cleanup handler"; case EV_OPCATCH: return "exception at call";
        case EV_CALL: return "function entry"; case EV_ALLOC: return "stack allocation"; case EV_DEALLOC: return "stack deallocation"; }
    return "?";
}
static unsigned ev_aspect( int t) {
    switch ( t) { case EV_DTOR: return eng::UNWIND; case EV_CATCH: case EV_OPCATCH: return eng::EXC; case EV_RETHROW: return eng::UNWIND | eng::EXC;
        case EV_CALL: return eng::CONTROL | eng::FUNCTOR; default: return eng::STACK; }
}
void expect( int type, std::uint32_t a, std::uint32_t b, std::uint32_t c) { Event e = { type, a, b, c }; ex().push_back( e); }
void event( int type, std::uint32_t a, std::uint32_t b, std::uint32_t c) {
    if ( eng::verbose() ) eng::note( "      . %s %u (%u,%u)", ev_name( type), a, b, c);
    if ( permit) {
        bool listed = false;
        for ( std::size_t i = ex_pos; i < ex().size(); ++i) listed = listed || ( ex()[i].type == type && ex()[i].a == a);
        if ( ! listed && permit( type, a) ) return;
    }
    eng::trace( static_cast< std::uint64_t >( type) * 1000003 + a); eng::trace( b * 77 + c);
    if ( ex_pos >= ex().size() ) eng::fail( ev_aspect( type), "unexpected %s %u (%u,%u): nothing of that kind may happen here", ev_name( type), a, b, c);
    Event const& e = ex()[ex_pos];
    if ( e.type != type || e.a != a || e.b != b || e.c != c)
        eng::fail( ev_aspect( type) | ev_aspect( e.type), "%s %u (%u,%u) happened where %s %u (%u,%u) was due", ev_name( type), a, b, c, ev_name( e.type), e.a, e.b, e.c);
    ++ex_pos;
    if ( ex_pos == ex().size() ) { ex().clear(); ex_pos = 0; }
}
bool pending_events() { return ! ex().empty(); }
void expect_done( char const* where) {
    if ( ! ex().empty() ) {
        Event const& e = ex()[ex_pos];
        eng::fail( ev_aspect( e.type), "%s: %s %u (%u,%u) did not happen", where, ev_name( e.type), e.a, e.b, e.c);
    }
}

// ---- stacks: block = [zone][stack][zone], both zones and freed stacks are watched ------------
static std::size_t const ZONE = 256;
static std::vector< StackRec > & pool() { static std::vector< StackRec > v; return v; }

static void check_zone( StackRec const& r) {
    for ( std::size_t i = 0; i < ZONE; ++i)
        if ( static_cast< unsigned char >( r.base[i]) != 0xC3 || static_cast< unsigned char >( r.lo[r.size + i]) != 0xC3)
            eng::fail( eng::STACK | eng::ALIGN, "memory outside of the stack range was written");
}
static void check_dead( StackRec const& r) {
#ifndef VERIF_ASAN
    std::uint64_t const* q = reinterpret_cast< std::uint64_t const* >( r.base + ZONE);
    for ( std::size_t i = 0; i < r.size / 8; ++i)
        if ( q[i] != 0xDDDDDDDDDDDDDDDDull) eng::fail( eng::STACK | eng::UNWIND | eng::PAYLOAD, "stack memory written after it was returned to the allocator");
#else
    (void)r;
#endif
}
std::uint32_t refused = 0xffffffffu;
void refuse( std::uint32_t coro) {
    if ( refused == coro) eng::fail( eng::STACK | eng::FAULT | eng::EXC, "allocator of coroutine %u is asked again after it threw", coro);
    refused = coro;
    throw AllocFail( coro);
}
boost::context::stack_context stack_get( std::uint32_t coro) {
    StackRec r;
    bool reused = false;
#ifndef VERIF_ASAN
    if ( ! pool().empty() && pool().back().size == stack_size) { r = pool().back(); pool().pop_back(); reused = true; check_dead( r); check_zone( r); }
#endif
    if ( ! reused) {
        r.size = stack_size;
        r.total = stack_size + 2 * ZONE;
        r.base = static_cast< char * >( std::malloc( r.total) );
        if ( ! r.base) std::abort();
        std::memset( r.base, 0xC3, ZONE); std::memset( r.base + ZONE + r.size, 0xC3, ZONE);
        r.lo = r.base + ZONE;
    }
    if ( fill_random) {
        std::uint64_t * q = reinterpret_cast< std::uint64_t * >( r.lo);
        for ( std::size_t i = 0; i < r.size / 8; ++i) { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; q[i] = rnd; }
    } else std::memset( r.lo, fill_byte, r.size);
    r.coro = coro; r.live = true;
    r.sctx = boost::context::stack_context();
    r.sctx.size = r.size;
    r.sctx.sp = r.lo + r.size;
    stacks().push_back( r);
    if ( stack_events) event( EV_ALLOC, coro);
    return r.sctx;
}
void stack_put( std::uint32_t coro, boost::context::stack_context & sctx) {
    StackRec * r = nullptr;
    for ( StackRec & x : stacks() ) if ( x.live && x.sctx.sp == sctx.sp) r = & x;
    if ( ! r) eng::fail( eng::STACK, "allocator %u: a stack is returned that is not in use (returned twice or wrong descriptor)", coro);
    if ( r->sctx.size != sctx.size) eng::fail( eng::STACK, "allocator %u: stack returned with size %lu, was %lu", coro, static_cast< unsigned long >( sctx.size), static_cast< unsigned long >( r->sctx.size) );
    if ( r->coro != coro) eng::fail( eng::STACK, "stack of coroutine %u returned to the allocator of coroutine %u", r->coro, coro);
    for ( Live const& l : live() )
        if ( static_cast< char const* >( l.p) >= r->lo && static_cast< char const* >( l.p) < r->lo + r->size)
            eng::fail( eng::STACK | eng::UNWIND | ( PAYLOAD_OBJ == l.what ? eng::PAYLOAD : FUNCTOR_OBJ == l.what ? eng::FUNCTOR : 0u), "stack of coroutine %u returned while an object (%s %u) lives on it", coro,
                       PAYLOAD_OBJ == l.what ? "value" : LOCAL_OBJ == l.what ? "local" : "function object", l.id);
    check_zone( * r);
    if ( stack_events) event( EV_DEALLOC, coro);
    r->live = false;
#ifdef VERIF_ASAN
    std::free( r->base);
#else
    std::memset( r->lo, 0xDD, r->size);
#endif
}
unsigned stacks_live() { unsigned n = 0; for ( StackRec const& r : stacks() ) n += r.live; return n; }
unsigned stacks_live_of( std::uint32_t c) { unsigned n = 0; for ( StackRec const& r : stacks() ) n += r.live && r.coro == c; return n; }
void stacks_end_of_case() {
    if ( stacks_live() ) eng::fail( eng::STACK, "%u stacks were never returned to their allocator", stacks_live() );
#ifndef VERIF_ASAN
    for ( StackRec const& r : stacks() ) {
        check_dead( r); check_zone( r);
        if ( pool().size() < 32 && r.size == stack_size) pool().push_back( r); else std::free( r.base);
    }
#endif
    stacks().clear();
    if ( count( PAYLOAD_OBJ) ) eng::fail( eng::PAYLOAD, "%u transferred objects leaked", count( PAYLOAD_OBJ) );
    if ( count( LOCAL_OBJ) ) eng::fail( eng::UNWIND, "%u local objects were never destroyed", count( LOCAL_OBJ) );
    if ( count( FUNCTOR_OBJ) ) eng::fail( eng::FUNCTOR, "%u copies of function objects leaked", count( FUNCTOR_OBJ) );
}

}
