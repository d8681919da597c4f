// History harness: random programs over coroutine objects, executed in lock-step with a model.
//
// The side that has control draws the next operation. Before an operation is executed the model
// (below) computes its complete effect: who has control afterwards, which destructors / handlers /
// stack (de)allocations happen in which order, which exception arrives where, what is readable.
#include "hist.hpp"

#include <boost/context/fiber.hpp>

#include <algorithm>
#include <cstdlib>
#include <exception>
#include <memory>
#include <typeinfo>

namespace hist {

typedef std::uint32_t u32;

static KindInfo const infos[K_N] = {
    { "int", false, false, false, true }, { "tracked", false, false, true, true }, { "moveonly", false, false, true, false },
    { "ref", false, true, false, true }, { "cref", false, true, false, true }, { "void", true, false, false, true }, { "big", false, false, true, true } };
KindInfo const& info( int k) { return infos[k]; }

template<> BoxBase * make_box_kind< K_INT >( bool); template<> BoxBase * make_box_kind< K_TRK >( bool); template<> BoxBase * make_box_kind< K_MOV >( bool);
template<> BoxBase * make_box_kind< K_REF >( bool); template<> BoxBase * make_box_kind< K_CREF >( bool); template<> BoxBase * make_box_kind< K_VOID >( bool);
template<> BoxBase * make_box_kind< K_BIG >( bool);
BoxBase * make_box( int k, bool pull) {
    switch ( k) {
    case K_INT: return make_box_kind< K_INT >( pull); case K_TRK: return make_box_kind< K_TRK >( pull); case K_MOV: return make_box_kind< K_MOV >( pull);
    case K_REF: return make_box_kind< K_REF >( pull); case K_CREF: return make_box_kind< K_CREF >( pull); case K_VOID: return make_box_kind< K_VOID >( pull);
    default: return make_box_kind< K_BIG >( pull); }
}

// ---------------------------------------------------------------- model
enum FrameKind { F_PLAIN, F_DEEP, F_TRY, F_GUARD, F_INCATCH, F_BOX, F_PEERMOVE, F_N };
enum Handler { H_BASE, H_INT, H_STD, H_FAULT, H_ALL, H_N };
enum ExcType { X_BASE = 1, X_DERIVED, X_INT, X_STD, X_FAULT, X_ALLOC, X_UNWIND = 99 };
enum { ABSENT = -2, NUL = -1, BUILDING = -3 };

struct Frame { int kind; u32 fid; int handler; int nlocals; u32 local[8]; int box; };
enum CState { C_BUILDING, C_UNSTARTED, C_SUSPENDED, C_ACTIVE, C_DONE, C_DEAD };
struct Coro {
    u32 id; int kind; bool pull; CState st;
    std::vector< Frame > frames;
    int box;                    // box that holds the coroutine
    u32 resumer;
    bool calls;                 // function was entered
    bool peer_lost;
    bool has_val; u32 val; bool val_moved;      // value at the pull side
    int al_mode, fn_mode;
    u32 burst;
    // call of the resumer that is waiting for this coroutine
    bool by_create, op_catch;
    bool drained;
    bool stack_back;            // stack already returned (allowed once the function has ended)
    u32 yields;
};
struct BoxM { int kind; bool pull; int content; u32 owner; std::shared_ptr< BoxBase > real; BoxBase * raw; bool exists; };

struct Profile {
    char const* name;
    // op weights
    unsigned create, resume, destroy, move, assign, self, swap, read, get, check, peer_check, peer_get, yield, enter, leave, thrw, finish, burst, null_, fault;
    unsigned frame[F_N];
    u32 maxops;
    unsigned kinds[K_N];
};
//                       cr  re  de mv as se sw rd ge ck pc pg  yi  en le th fi bu nu fa   pl de tr gu ic bx pm   ops  int trk mov ref cref void big
static Profile const profiles[] = {
    { "mixed",           8, 20,  4, 3, 3, 1, 2, 4, 4, 3, 2, 5, 20,  8, 4, 4, 3, 1, 1, 0, { 4, 3, 4, 2, 1, 3, 1 },  90, { 3, 4, 2, 2, 1, 2, 1 } },
    { "control",         8, 24,  3, 1, 1, 0, 1, 1, 2, 1, 1, 3, 24, 10, 5, 2, 3, 3, 0, 0, { 3, 6, 2, 1, 1, 3, 1 }, 140, { 3, 2, 1, 1, 1, 3, 1 } },
    { "value",           6, 24,  2, 2, 1, 0, 1, 8, 8, 1, 1, 9, 24,  4, 2, 1, 2, 8, 0, 0, { 3, 2, 1, 1, 0, 1, 2 }, 140, { 3, 4, 3, 3, 2, 1, 3 } },
    { "valid",           8, 18,  5, 4, 4, 2, 3, 1, 2,18, 9, 2, 18,  6, 3, 5, 5, 1, 3, 1, { 3, 2, 3, 1, 1, 2, 2 },  90, { 2, 2, 2, 2, 1, 3, 1 } },
    { "exc",             8, 22,  3, 1, 1, 0, 1, 1, 2, 2, 1, 3, 16, 12, 3,12, 2, 0, 0, 2, { 3, 3, 8, 4, 3, 3, 1 },  90, { 2, 2, 2, 1, 1, 3, 1 } },
    { "unwind",         10, 18,  9, 2, 5, 0, 1, 1, 2, 1, 1, 3, 18, 16, 3, 2, 2, 0, 1, 0, { 7, 5, 4, 4, 0, 6, 1 },  80, { 2, 3, 2, 1, 1, 3, 1 } },
    { "stack",          14, 16, 10, 3, 6, 1, 2, 0, 1, 1, 0, 2, 14,  6, 3, 6, 5, 0, 1, 2, { 3, 2, 2, 1, 1, 5, 0 },  90, { 2, 2, 2, 1, 1, 3, 1 } },
    { "payload",         8, 24,  5, 2, 3, 1, 1, 5, 9, 0, 0, 9, 22,  5, 3, 3, 3, 3, 0, 2, { 3, 2, 2, 1, 0, 2, 1 }, 100, { 0, 6, 4, 1, 1, 0, 3 } },
    { "functor",        14, 12,  7, 2, 3, 0, 1, 1, 1, 1, 0, 1, 10,  4, 3, 5, 5, 0, 0, 2, { 3, 2, 2, 1, 0, 3, 0 },  70, { 3, 3, 1, 1, 1, 3, 1 } },
    { "move",            9, 18,  3,14,12, 5,10, 3, 3, 8, 2, 3, 18,  5, 3, 3, 3, 1, 4, 0, { 2, 2, 2, 1, 0, 4, 5 },  90, { 3, 3, 2, 2, 1, 3, 1 } },
    { "fault",           8, 18,  4, 2, 3, 0, 1, 2, 3, 2, 1, 4, 18,  7, 3, 6, 2, 0, 0,16, { 3, 2, 6, 3, 1, 3, 1 },  90, { 2, 6, 3, 1, 0, 1, 2 } },
    { "compose",        14, 24,  3, 2, 2, 0, 2, 2, 4, 1, 1, 4, 20,  8, 4, 2, 4, 3, 0, 0, { 2, 2, 2, 1, 1, 9, 1 }, 160, { 3, 3, 2, 2, 1, 2, 1 } },
};

struct World {
    Profile const* pf; bool default_stacks;
    std::vector< Coro > coro;           // coro[0] is the main context
    std::vector< BoxM > box;
    std::vector< u32 > chain;           // active contexts, back() has control
    std::vector< u32 > val_owner;
    std::vector< int > kinds;
    u32 nextlocal, nextframe, nextexc, ops, maxops;
    u32 ncopies_of_fn; u32 fn_copied_coro;
    bool carrying;                      // the last transfer of control carries a value
    // statistics
    u32 n_suspend, n_unwound, n_unwound_locals, n_excpass, n_throw, n_destroy, n_move, n_transfer, n_nested, n_fault, n_alloc, n_valcheck, n_fn, maxchain, n_movelive, n_ctorthrow, n_swap;
};
static World * W;
static eng::Choices * CH;

static Coro & C( u32 i) { return W->coro[i]; }
static u32 cur() { return W->chain.back(); }

// what else is contradicted
static unsigned attribute( unsigned a) {
    if ( ! W) return a;
    if ( a & eng::CONTROL) {
        if ( W->carrying) a |= eng::VALUE;                          // the transfer that was due carries a value
        if ( W->n_fault) a |= eng::FAULT;                           // not usable as before after a failure
    }
    if ( W->n_movelive && ( a & ( eng::EXC | eng::FUNCTOR | eng::FRAME | eng::CONTROL) ) ) a |= eng::MOVE;
    if ( W->chain.size() > 1 && ( a & ( eng::UNWIND | eng::STACK | eng::PAYLOAD | eng::FUNCTOR) ) ) a |= eng::PIPE;      // inside of other coroutines
    return a;
}

static void check_current( u32 me, char const* where) {
    if ( cur() != me) eng::fail( eng::CONTROL | ( C_DEAD == C( me).st ? eng::UNWIND : 0u), "%s: control arrived in context %u, but context %u has to run", where, me, cur() );
    w::expect_done( where);
}

// owner walk: context that owns the box that holds coroutine c
static bool owned_by( u32 c, u32 x) {      // is x == c or an owner (transitively) of c
    for ( u32 guard = 0; guard < 1000; ++guard) {
        if ( c == x) return true;
        if ( 0 == c) return false;
        int b = C( c).box;
        if ( b < 0) return false;
        c = W->box[b].owner;
    }
    std::abort();
}
static bool active( u32 c) { return std::find( W->chain.begin(), W->chain.end(), c) != W->chain.end(); }
// x may be neither resumed nor destroyed: it, or something it owns, is active
static bool conflict( u32 x) {
    for ( u32 m : W->chain) if ( owned_by( m, x) ) return true;
    return false;
}
static bool in_catch( u32 a) { for ( Frame const& f : C( a).frames) if ( F_INCATCH == f.kind) return true; return false; }

static bool ledger_stack( int al) { return AL_CONST_LV == al || AL_LV == al || AL_RV == al; }

static void model_destroy( int content);
static bool handles( int h, int type) {
    switch ( h) { case H_BASE: return X_BASE == type || X_DERIVED == type; case H_INT: return X_INT == type; case H_STD: return X_STD == type || X_ALLOC == type;
        case H_FAULT: return X_FAULT == type; default: return true; }
}
enum Mode { M_NORMAL, M_EXC, M_UNWIND };
// the innermost frame of context a is left
static void model_exit_frame( u32 a, Mode m, int type, u32 id) {
    Frame f = C( a).frames.back();
    C( a).frames.pop_back();
    switch ( f.kind) {
    case F_PLAIN: case F_DEEP:
        for ( int i = f.nlocals; i-- > 0; ) w::expect( w::EV_DTOR, f.local[i]);
        break;
    case F_GUARD:
        if ( M_EXC == m) w::expect( w::EV_RETHROW, f.fid, type, id);
        else if ( M_UNWIND == m) w::expect( w::EV_RETHROW, f.fid, X_UNWIND, 0);
        break;
    case F_BOX: {
        w::expect( w::EV_DTOR, f.local[1]);
        BoxM & b = W->box[f.box];
        int content = b.content;
        b.content = ABSENT; b.exists = false;
        model_destroy( content);
        w::expect( w::EV_DTOR, f.local[0]);
        break; }
    case F_PEERMOVE:
        if ( M_NORMAL != m) C( a).peer_lost = true;
        break;
    default: break;
    }
    if ( M_UNWIND == m) W->n_unwound_locals += f.nlocals;
}
static void model_destroy( int content) {
    if ( content < 0) return;
    Coro & c = C( content);
    ++W->n_destroy;
    if ( C_SUSPENDED == c.st) {
        ++W->n_unwound;
        while ( ! C( content).frames.empty() ) model_exit_frame( content, M_UNWIND, 0, 0);
    }
    Coro & d = C( content);
    d.st = C_DEAD; d.box = -1;
    if ( ledger_stack( d.al_mode) && ! d.stack_back) w::expect( w::EV_DEALLOC, d.id);
}
static bool permit( int type, u32 a) {
    if ( w::EV_DEALLOC != type || a >= W->coro.size() || C_DONE != C( a).st || C( a).stack_back) return false;
    C( a).stack_back = true;
    return true;
}
// an exception is thrown in the context that has control: who gets it
static void model_throw( int type, u32 id) {
    u32 a = cur();
    for (;;) {
        bool caught = false;
        while ( ! C( a).frames.empty() ) {
            Frame const& f = C( a).frames.back();
            if ( F_TRY == f.kind && handles( f.handler, type) ) { w::expect( w::EV_CATCH, f.fid, type, id); caught = true; break; }
            model_exit_frame( a, M_EXC, type, id);
        }
        if ( caught) return;
        if ( 0 == a) { w::expect( w::EV_CATCH, 0, type, id); return; }
        // leaves the coroutine function
        Coro & c = C( a);
        ++W->n_excpass;
        bool by_create = c.by_create, op_catch = c.op_catch;
        W->chain.pop_back();
        c.st = C_DONE;
        if ( by_create) {
            // construction failed
            ++W->n_ctorthrow;
            W->box[c.box].content = ABSENT;
            c.box = -1; c.st = C_DEAD;
            if ( ledger_stack( c.al_mode) ) w::expect( w::EV_DEALLOC, c.id);
        }
        a = cur();
        if ( op_catch) { w::expect( w::EV_OPCATCH, a, type, id); return; }
    }
}

// ---------------------------------------------------------------- exceptions of the program
static void throw_exc( int type, u32 id) {
    switch ( type) {
    case X_BASE: throw w::ExcBase( id);
    case X_DERIVED: throw w::ExcDerived( id);
    case X_INT: throw static_cast< int >( id);
    default: throw w::ExcStd( id);
    }
}
struct Seen { int type; u32 id; };
static Seen classify_ref( w::ExcBase & e) {
    Seen s = { X_BASE, e.id };
    if ( w::ExcDerived * d = dynamic_cast< w::ExcDerived * >( & e) ) {
        s.type = X_DERIVED;
        if ( d->s != std::string( 40, 'x') ) eng::fail( eng::EXC, "exception object corrupted");
    } else if ( typeid( e) != typeid( w::ExcBase) ) eng::fail( eng::EXC, "dynamic type of the exception changed");
    return s;
}
static Seen classify_ref( std::exception & e) {
    Seen s = { 0, 0 };
    if ( w::ExcStd * d = dynamic_cast< w::ExcStd * >( & e) ) {
        s.type = X_STD; s.id = d->id;
        if ( std::string( d->what() ) != "excstd" + std::to_string( d->id) ) eng::fail( eng::EXC, "exception object corrupted");
    } else if ( w::AllocFail * f = dynamic_cast< w::AllocFail * >( & e) ) { s.type = X_ALLOC; s.id = f->id; }
    else eng::fail( eng::EXC, "unknown exception arrived: %s", e.what() );
    return s;
}
// inside of a handler, not for forced_unwind
static Seen classify() {
    try { throw; }
    catch ( boost::context::detail::forced_unwind const&) { Seen s = { X_UNWIND, 0 }; return s; }
    catch ( w::ExcBase & e) { return classify_ref( e); }
    catch ( int i) { Seen s = { X_INT, static_cast< u32 >( i) }; return s; }
    catch ( w::FaultExc & e) { Seen s = { X_FAULT, e.id }; return s; }
    catch ( std::exception & e) { return classify_ref( e); }
    catch ( ...) { eng::fail( eng::EXC, "exception of unknown type arrived"); }
}

// ---------------------------------------------------------------- running contexts
struct Act { u32 id; PeerBase * peer; bool finish; };
static void body( Act & a);

u32 decode( int v) {
    // inverse of the multiplication in encode()
    static u32 inv = 0;
    if ( 0 == inv) { u32 x = 2654435761u; for ( int i = 0; i < 6; ++i) x *= 2 - 2654435761u * x; inv = x; }
    return static_cast< u32 >( v) * inv;
}
static std::vector< std::unique_ptr< w::Tracked > > * refs;
w::Tracked & ref_object( u32 id) {
    while ( refs->size() <= id) refs->push_back( std::unique_ptr< w::Tracked >() );
    if ( ! ( * refs)[id]) ( * refs)[id].reset( new w::Tracked( id) );
    return * ( * refs)[id];
}
bool is_ref_object( w::Tracked const& t, u32 id) { return id < refs->size() && & t == ( * refs)[id].get(); }

static u32 new_value( u32 c) { W->val_owner.push_back( c); ++W->n_transfer; return static_cast< u32 >( W->val_owner.size() - 1); }

void functor_copy_made( u32 c, bool copy) { if ( copy && c == W->fn_copied_coro) ++W->ncopies_of_fn; ++W->n_fn; }

static void read_check( Coro & c, u32 got, char const* where) {
    eng::trace( got);
    if ( info( c.kind).is_void) return;
    if ( got != c.val) eng::fail( eng::VALUE, "%s: value %u read where value %u was sent (coroutine %u, %s)", where, got, c.val, c.id, info( c.kind).name);
}
static void moved_by_get( Coro & c) { if ( info( c.kind).is_class) c.val_moved = true; }

// after destruction nothing that belongs to coroutine c may be left
static void check_gone( u32 c) {
    for ( w::Live const& l : w::live() ) {
        if ( w::FUNCTOR_OBJ == l.what && l.id == c) eng::fail( eng::FUNCTOR, "function object of coroutine %u still alive after its destruction", c);
        if ( w::PAYLOAD_OBJ == l.what && l.id < W->val_owner.size() && W->val_owner[l.id] == c && ! info( C( c).kind).is_ref)
            eng::fail( eng::PAYLOAD, "value %u still alive after the destruction of coroutine %u", l.id, c);
    }
    if ( w::stacks_live_of( c) ) eng::fail( eng::STACK, "stack of coroutine %u not returned by its destruction", c);
}
static void check_all_gone() {
    for ( u32 i = 1; i < W->coro.size(); ++i) if ( C_DEAD == C( i).st && ! C( i).drained) { C( i).drained = true; check_gone( i); }
}

static void run_locals( Act & a, Frame const& f) {
    w::Local l0( f.nlocals > 0 ? f.local[0] : 0), l1( f.nlocals > 1 ? f.local[1] : 0), l2( f.nlocals > 2 ? f.local[2] : 0);
    body( a);
    l0.verify(); l1.verify(); l2.verify();
}
static void run_deep( Act & a, Frame const& f, int level) __attribute__((noinline));
static void run_deep( Act & a, Frame const& f, int level) {
    w::Local l( f.local[level]);
    w::Pattern< 200 > p( static_cast< unsigned char >( f.local[level]) );
    if ( level + 1 < f.nlocals) run_deep( a, f, level + 1); else body( a);
    l.verify();
}
template< typename E > struct Thrown;
static void run_try( Act & a, Frame const& f) {
    while ( ! a.finish) {
        try {
            switch ( f.handler) {
            case H_BASE: try { body( a); return; } catch ( w::ExcBase & e) { Seen s = classify_ref( e); w::event( w::EV_CATCH, f.fid, s.type, s.id); } break;
            case H_INT: try { body( a); return; } catch ( int e) { w::event( w::EV_CATCH, f.fid, X_INT, static_cast< u32 >( e) ); } break;
            case H_STD: try { body( a); return; } catch ( std::exception & e) { Seen s = classify_ref( e); w::event( w::EV_CATCH, f.fid, s.type, s.id); } break;
            case H_FAULT: try { body( a); return; } catch ( w::FaultExc & e) { w::event( w::EV_CATCH, f.fid, X_FAULT, e.id); } break;
            default:
                try { body( a); return; }
                catch ( boost::context::detail::forced_unwind const&) { throw; }
                catch ( ...) { Seen s = classify(); w::event( w::EV_CATCH, f.fid, s.type, s.id); }
                break;
            }
        } catch ( boost::context::detail::forced_unwind const&) { throw; }
        if ( a.peer && C( a.id).peer_lost) a.peer = nullptr;
        check_current( a.id, "after handler");
    }
}
struct PeerSave { Act & a; PeerBase * p; PeerSave( Act & x) : a( x), p( x.peer) {} ~PeerSave() { a.peer = p; } };
static void moved_peer_cb( void * x, PeerBase & p) {
    Act & a = * static_cast< Act * >( x);
    PeerSave s( a);
    a.peer = & p;
    body( a);
}
static void run_frame( Act & a, Frame f) __attribute__((noinline));
static void run_frame( Act & a, Frame f) {
    switch ( f.kind) {
    case F_PLAIN: run_locals( a, f); break;
    case F_DEEP: run_deep( a, f, 0); break;
    case F_TRY: run_try( a, f); break;
    case F_GUARD:
        try { body( a); }
        catch ( ...) { Seen s = classify(); w::event( w::EV_RETHROW, f.fid, s.type, s.id); throw; }
        break;
    case F_INCATCH:
        try { throw w::ExcDerived( f.fid); }
        catch ( w::ExcBase & e) {
            body( a);
            Seen s = classify_ref( e);
            if ( s.type != X_DERIVED || s.id != f.fid) eng::fail( eng::EXC | eng::FRAME, "exception object changed while its handler ran coroutines");
            std::exception_ptr p = std::current_exception();
            if ( ! p) eng::fail( eng::EXC, "exception being handled was lost");
            try { std::rethrow_exception( p); } catch ( w::ExcBase & e2) { if ( e2.id != f.fid) eng::fail( eng::EXC, "exception being handled was replaced"); } catch ( ...) { eng::fail( eng::EXC, "exception being handled was replaced"); }
        }
        break;
    case F_BOX: {
        w::Local l0( f.local[0]);
        std::shared_ptr< BoxBase > keep;    // the box lives exactly as long as this frame
        {
            std::unique_ptr< BoxBase > b( make_box( W->box[f.box].kind, W->box[f.box].pull) );
            W->box[f.box].raw = b.get();
            w::Local l1( f.local[1]);
            body( a);
        }
        break; }
    case F_PEERMOVE: a.peer->with_moved( moved_peer_cb, & a); break;
    }
}

// runs f in a destructor while another exception propagates; what f throws is thrown afterwards
struct Flight { u32 id; };
template< typename F >
static void in_flight( u32 me, F f) {
    std::exception_ptr e;
    struct Guard {
        F & f; std::exception_ptr & e;
        ~Guard() {
            try { f(); }
            catch ( boost::context::detail::forced_unwind const&) { eng::fail( eng::UNWIND | eng::CONTROL, "an active context is unwound"); }
            catch ( ...) { e = std::current_exception(); }
        }
    };
    bool caught = false;
    try { Guard g = { f, e }; throw Flight{ me }; }
    catch ( Flight const& x) { caught = x.id == me; }
    if ( ! caught) eng::fail( eng::EXC, "the exception that was propagating while a coroutine was called got lost");
    if ( e) std::rethrow_exception( e);
}
#define VERIF_CALL_FLIGHT( flight, me, catching, stmt)                                                  \
    do { if ( flight) { eng::label( "call during exception propagation"); in_flight( me, [&]() { VERIF_CALL( me, catching, stmt); }); } else VERIF_CALL( me, catching, stmt); } while ( 0)
// op-level handler
#define VERIF_CALL( me, catching, stmt)                                                                 \
    do {                                                                                                \
        if ( catching) {                                                                                \
            try { stmt; }                                                                               \
            catch ( boost::context::detail::forced_unwind const&) { throw; }                            \
            catch ( ...) { Seen s_ = classify(); w::event( w::EV_OPCATCH, me, s_.type, s_.id); thrown = true; }   \
        } else { stmt; }                                                                                \
    } while ( 0)

static void do_resume( Act & a, int bi, bool catching, bool fault) {
    BoxM & b = W->box[bi];
    u32 x = b.content;
    Coro & c = C( x);
    u32 id = 0; int form = 0;
    bool thrown = false;
    if ( ! c.pull && ! info( c.kind).is_void) { id = new_value( x); form = CH->below( 3); }
    if ( fault) {
        ++W->n_fault;
        w::fault_id = ++W->nextexc;
        eng::note( "%u: call coroutine %u, %s of the value throws%s", a.id, x, 0 == form ? "move" : "copy", catching ? " (caught)" : "");
        u32 fid = w::fault_id;
        if ( catching) w::expect( w::EV_OPCATCH, a.id, X_FAULT, fid); else model_throw( X_FAULT, fid);
        BoxBase * r = b.raw;
        VERIF_CALL( a.id, catching, r->resume( id, form, true) );
        w::fault_in = 0;
        check_current( a.id, "after failed push");
        if ( ! thrown) eng::fail( eng::FAULT | eng::EXC, "exception of the value's copy/move was lost");
        return;
    }
    W->carrying = ! info( c.kind).is_void;
    c.resumer = a.id; c.by_create = false; c.op_catch = catching; c.st = C_ACTIVE;
    W->chain.push_back( x);
    if ( W->chain.size() > W->maxchain) W->maxchain = W->chain.size();
    if ( ! c.calls) w::expect( w::EV_CALL, x);
    c.calls = true;
    if ( ! c.pull) { c.has_val = true; c.val = id; c.val_moved = false; }
    eng::note( "%u: call coroutine %u (box %d)%s%s", a.id, x, bi, c.pull || info( c.kind).is_void ? "" : ( " with value " + std::to_string( id) ).c_str(), catching ? " (exceptions caught)" : "");
    BoxBase * r = b.raw;
    bool flight = CH->chance( 1, 10);
    if ( flight) eng::note( "%u: ... in a destructor while an exception propagates", a.id);
    VERIF_CALL_FLIGHT( flight, a.id, catching, r->resume( id, form, false) );
    check_current( a.id, thrown ? "after exception from call" : "after call");
}

struct LenientStack { bool on; unsigned before; explicit LenientStack( bool o) : on( o), before( w::stacks_live() ) { if ( on) w::stack_events = false; } ~LenientStack() { if ( on) w::stack_events = true; } };

static void do_create( Act & a, int bi, bool fault) {
    BoxM & b = W->box[bi];
    u32 x = static_cast< u32 >( W->coro.size() );
    CreateSpec s;
    static unsigned const fnw[] = { 6, 4, 2, 2, 2 }, alw[] = { 1, 6, 6, 6, 1, 1, 1 };
    s.fn_mode = CH->pick( std::vector< unsigned >( fnw, fnw + FN_N) );
    s.al_mode = CH->pick( std::vector< unsigned >( alw, alw + AL_N) );
    if ( W->default_stacks) s.al_mode = AL_DEFAULT;
#if defined(BOOST_USE_SEGMENTED_STACKS)
    s.al_mode = AL_DEFAULT;     // the ledger allocators do not provide segment contexts
#endif
    s.coro = x; s.alloc_fails = s.copy_fails = false;
    bool catching = CH->chance( 3, 5), thrown = false;
    if ( fault) {
#if ! defined(BOOST_USE_SEGMENTED_STACKS)
        if ( CH->chance( 1, 2) ) { s.alloc_fails = true; s.al_mode = AL_CONST_LV + CH->below( 3); }
        else
#endif
        { s.copy_fails = true; s.fn_mode = CH->chance( 1, 2) ? FN_LVALUE : FN_CLVALUE; }
    }
    {
        Coro n = Coro();
        n.id = x; n.kind = b.kind; n.pull = b.pull; n.st = C_BUILDING; n.box = bi; n.al_mode = s.al_mode; n.fn_mode = s.fn_mode;
        W->coro.push_back( n);
    }
    eng::trace( 7000 + x);
    BoxBase * r = b.raw;
    bool pull = b.pull;
    eng::note( "%u: create %s<%s> %u in box %d (function: mode %d, allocator: mode %d)%s%s", a.id, pull ? "pull" : "push", info( b.kind).name, x, bi, s.fn_mode, s.al_mode,
               s.alloc_fails ? " ALLOCATION THROWS" : s.copy_fails ? " FUNCTION COPY THROWS" : "", catching ? " (exceptions caught)" : "");
    if ( fault) {
        ++W->n_fault;
        C( x).st = C_DEAD; C( x).box = -1;
        int type = s.alloc_fails ? X_ALLOC : X_FAULT;
        if ( catching) w::expect( w::EV_OPCATCH, a.id, type, x); else model_throw( type, x);
        {
            LenientStack ls( s.copy_fails && catching);
            if ( catching) VERIF_CALL( a.id, true, r->create( s) );
            else {
                // no stack may be left: checked by the final ledger and check_all_gone()
                bool old = w::stack_events;
                struct Restore { bool o; ~Restore() { w::stack_events = o; } } rs = { old };
                // an allocation that is taken back immediately is permitted; other stacks may be
                // released while the exception passes enclosing frames, they are expected events
                r->create( s);
            }
        }
        check_current( a.id, "after failed construction");
        if ( ! thrown) eng::fail( eng::FAULT, "failure during construction was not reported");
        check_gone( x);
        return;
    }
    b.content = BUILDING;
    ++W->n_alloc;
    if ( ledger_stack( s.al_mode) ) w::expect( w::EV_ALLOC, x);
    W->ncopies_of_fn = 0; W->fn_copied_coro = x;
    W->carrying = pull && ! info( b.kind).is_void;
    if ( pull) {
        Coro & c = C( x);
        c.resumer = a.id; c.by_create = true; c.op_catch = catching; c.st = C_ACTIVE; c.calls = true;
        W->chain.push_back( x);
        if ( W->chain.size() > W->maxchain) W->maxchain = W->chain.size();
        w::expect( w::EV_CALL, x);
    } else C( x).st = C_UNSTARTED;
    bool flight = CH->chance( 1, 10);
    if ( flight) eng::note( "%u: ... in a destructor while an exception propagates", a.id);
    VERIF_CALL_FLIGHT( flight, a.id, catching, r->create( s) );
    check_current( a.id, "after construction");
    if ( ! thrown) {
        if ( C_DEAD == C( x).st) eng::fail( eng::EXC, "exception of the coroutine function was lost by the constructor");
        W->box[bi].content = x;
    } else check_gone( x);
}

static void do_yield( Act & a, bool fault) {
    Coro & c = C( a.id);
    for (;;) {
        u32 id = 0; int form = 0;
        if ( c.pull && ! info( c.kind).is_void) { id = new_value( a.id); form = CH->below( 3); }
        if ( fault) {
            ++W->n_fault;
            w::fault_id = ++W->nextexc;
            bool catching = CH->chance( 1, 2), thrown = false;
            u32 fid = w::fault_id;
            eng::note( "%u: push value, its %s throws%s", a.id, 0 == form ? "move" : "copy", catching ? " (caught)" : "");
            if ( catching) w::expect( w::EV_OPCATCH, a.id, X_FAULT, fid); else model_throw( X_FAULT, fid);
            VERIF_CALL( a.id, catching, a.peer->yield( id, form, true) );
            w::fault_in = 0;
            check_current( a.id, "after failed push");
            if ( ! thrown) eng::fail( eng::FAULT | eng::EXC, "exception of the value's copy/move was lost");
            return;
        }
        ++W->n_suspend;
        W->carrying = ! info( c.kind).is_void;
        if ( W->chain.size() > 2) ++W->n_nested;
        c.st = C_SUSPENDED; ++c.yields;
        W->chain.pop_back();
        if ( c.pull) { c.has_val = true; c.val = id; c.val_moved = false; }
        eng::note( "%u: suspend%s", a.id, c.pull && ! info( c.kind).is_void ? ( " with value " + std::to_string( id) ).c_str() : "");
        if ( a.peer->is_push() ) a.peer->yield( id, form, false); else a.peer->resume();
        check_current( a.id, "after suspension");
        if ( C( a.id).burst == 0) break;
        --C( a.id).burst;
        if ( ! c.pull) { read_check( C( a.id), a.peer->get(), "burst"); moved_by_get( C( a.id) ); }
    }
}

// ---------------------------------------------------------------- choosing operations
enum Op { O_CREATE, O_RESUME, O_DESTROY, O_MOVE, O_ASSIGN, O_SELF, O_SWAP, O_READ, O_GET, O_CHECK, O_PEER_CHECK, O_PEER_GET, O_YIELD, O_ENTER, O_LEAVE, O_THROW, O_FINISH, O_BURST, O_NULL, O_FAULT, O_N };

static bool has_object( BoxM const& b) { return b.exists && b.content >= NUL; }
static bool resumable( BoxM const& b) {
    return b.exists && b.content >= 0 && ( C_SUSPENDED == C( b.content).st || C_UNSTARTED == C( b.content).st) && ! conflict( b.content);
}
static bool idle( BoxM const& b) { return b.exists && b.content >= NUL && ( NUL == b.content || ! conflict( b.content) ); }    // object may be moved
static bool destroyable( BoxM const& b) { return b.exists && b.content >= NUL && ( NUL == b.content || ! conflict( b.content) ); }
static bool readable( BoxM const& b) {
    return b.exists && b.content >= 0 && b.pull && ! info( b.kind).is_void && C_SUSPENDED == C( b.content).st && C( b.content).has_val && ! C( b.content).val_moved;
}
static bool faultable( int kind) { return info( kind).is_class; }
template< typename P > static void all( std::vector< int > & v, P p) { v.clear(); for ( std::size_t i = 0; i < W->box.size(); ++i) if ( p( W->box[i]) ) v.push_back( static_cast< int >( i) ); }
// may the content of box f be put into box t (no cycle of ownership)
static bool placeable( int f, int t) {
    BoxM const& a = W->box[f]; BoxM const& b = W->box[t];
    if ( a.kind != b.kind || a.pull != b.pull) return false;
    if ( a.content >= 0 && 0 != b.owner && owned_by( b.owner, static_cast< u32 >( a.content) ) ) return false;
    return true;
}

static void op_enter( Act & a) {
    Coro & c = C( a.id);
    std::vector< unsigned > fw( W->pf->frame, W->pf->frame + F_N);
    if ( 0 == a.id || ! a.peer) fw[F_PEERMOVE] = 0;
    if ( c.frames.size() > 4) fw[F_DEEP] = 0;
    Frame f = Frame();
    f.kind = CH->pick( fw);
    f.fid = W->nextframe++;
    f.box = -1;
    if ( F_PLAIN == f.kind) f.nlocals = CH->below( 4);
    if ( F_DEEP == f.kind) f.nlocals = 1 + CH->below( 6);
    if ( F_BOX == f.kind) f.nlocals = 2;
    for ( int i = 0; i < f.nlocals; ++i) f.local[i] = ++W->nextlocal;
    if ( F_TRY == f.kind) f.handler = CH->below( H_N);
    if ( F_BOX == f.kind) {
        BoxM b = BoxM();
        b.kind = W->kinds[CH->below( static_cast< u32 >( W->kinds.size() ) )];
        b.pull = CH->chance( 1, 2); b.content = ABSENT; b.owner = a.id; b.exists = true;
        f.box = static_cast< int >( W->box.size() );
        W->box.push_back( b);
    }
    static char const* const names[] = { "plain", "deep", "try", "cleanup-handler", "in-handler", "own-coroutine", "moved-counterpart" };
    eng::note( "%u: enter %s frame %u (%d locals%s)", a.id, names[f.kind], f.fid, f.nlocals, F_BOX == f.kind ? ( ", box " + std::to_string( f.box) ).c_str() : "");
    C( a.id).frames.push_back( f);
    run_frame( a, f);
    if ( a.finish) {
        if ( cur() != a.id) eng::fail( eng::CONTROL, "control in context %u while returning, but context %u has to run", a.id, cur() );
        return;
    }
    check_current( a.id, "after leaving a frame");
    check_all_gone();
}

static void body( Act & a) {
    static std::vector< int > v, v2;
    for (;;) {
        if ( a.finish) return;
        check_current( a.id, "next statement");
        if ( a.peer && C( a.id).peer_lost) a.peer = nullptr;
        check_all_gone();
        Profile const& p = * W->pf;
        bool drain = W->ops >= W->maxops;
        bool coroutine = 0 != a.id;
        bool can_yield = coroutine && a.peer && ! in_catch( a.id);
        unsigned wt[O_N] = { 0 };
        if ( drain) {
            if ( ! coroutine) {
                a.finish = true;
                while ( ! C( 0).frames.empty() ) model_exit_frame( 0, M_NORMAL, 0, 0);
                return;
            }
            wt[O_FINISH] = 2;
            if ( W->ops < W->maxops + 40) { if ( can_yield) wt[O_YIELD] = 6; wt[O_THROW] = p.thrw ? 1 : 0; }
        } else {
            bool anyabs = false, anyres = false, anydes = false, anyread = false, anyobj = false, anyidle = false;
            for ( BoxM const& b : W->box) {
                if ( b.exists && ABSENT == b.content) anyabs = true;
                if ( ! b.exists) continue;
                if ( resumable( b) ) anyres = true;
                if ( destroyable( b) ) anydes = true;
                if ( readable( b) ) anyread = true;
                if ( has_object( b) ) anyobj = true;
                if ( idle( b) ) anyidle = true;
            }
            bool room = W->coro.size() < 26 && W->chain.size() < 9;
            if ( anyabs && room) wt[O_CREATE] = p.create;
            if ( anyres && W->chain.size() < 12) { wt[O_RESUME] = p.resume; wt[O_BURST] = p.burst; }
            if ( anydes) { wt[O_DESTROY] = p.destroy; wt[O_ASSIGN] = p.assign; }
            if ( anyidle) { if ( anyabs) wt[O_MOVE] = p.move; wt[O_SELF] = p.self; wt[O_SWAP] = p.swap; }
            if ( anyread) { wt[O_READ] = p.read; wt[O_GET] = p.get; }
            if ( anyobj) wt[O_CHECK] = p.check;
            if ( coroutine && a.peer) {
                wt[O_PEER_CHECK] = p.peer_check;
                if ( ! C( a.id).pull && ! info( C( a.id).kind).is_void && ! C( a.id).val_moved) wt[O_PEER_GET] = p.peer_get;
            }
            if ( can_yield) wt[O_YIELD] = p.yield;
            if ( C( a.id).frames.size() < 8) wt[O_ENTER] = p.enter;
            if ( ! C( a.id).frames.empty() ) wt[O_LEAVE] = p.leave;
            wt[O_THROW] = coroutine ? p.thrw : C( 0).frames.empty() ? 0 : ( p.thrw + 1) / 2;
            if ( coroutine) wt[O_FINISH] = p.finish;
            if ( anyabs) wt[O_NULL] = p.null_;
            wt[O_FAULT] = p.fault;
        }
        int op = CH->pick( std::vector< unsigned >( wt, wt + O_N) );
        bool any = false; for ( unsigned x : wt) any = any || x;
        if ( ! any) { if ( coroutine) op = O_FINISH; else { W->ops = W->maxops; continue; } }
        ++W->ops;
        eng::shape( op * 31 + a.id); eng::trace( op);
        switch ( op) {
        case O_CREATE: {
            all( v, []( BoxM const& b) { return b.exists && ABSENT == b.content; });
            int bi = v[CH->below( static_cast< u32 >( v.size() ) )];
            do_create( a, bi, false);
            break; }
        case O_RESUME: {
            all( v, resumable);
            int bi = v[CH->below( static_cast< u32 >( v.size() ) )];
            bool catching = CH->chance( 3, 5);
            do_resume( a, bi, catching, false);
            break; }
        case O_BURST: {
            all( v, []( BoxM const& b) { return resumable( b) && C_SUSPENDED == C( b.content).st && ! C( b.content).peer_lost && ! b.pull == ! C( b.content).pull; });
            if ( v.empty() ) break;
            int bi = v[CH->below( static_cast< u32 >( v.size() ) )];
            u32 n = 1 + CH->size( 60);
            u32 x = W->box[bi].content;
            eng::note( "%u: %u transfers in a row with coroutine %u", a.id, n, x);
            C( x).burst = n;
            for ( u32 i = 0; i < n; ++i) {
                do_resume( a, bi, false, false);
                if ( C( x).pull) { read_check( C( x), W->box[bi].raw->get(), "burst"); moved_by_get( C( x) ); }
            }
            eng::label( "burst");
            break; }
        case O_DESTROY: {
            all( v, destroyable);
            int bi = v[CH->below( static_cast< u32 >( v.size() ) )];
            BoxM & b = W->box[bi];
            int content = b.content;
            eng::note( "%u: destroy object in box %d (coroutine %d, state %d)", a.id, bi, content, content >= 0 ? C( content).st : -1);
            if ( content >= 0) eng::label( C_SUSPENDED == C( content).st ? "destroy suspended" : C_UNSTARTED == C( content).st ? "destroy unstarted" : "destroy complete");
            b.content = ABSENT;
            model_destroy( content);
            b.raw->destroy();
            w::expect_done( "after destruction");
            break; }
        case O_MOVE: {
            all( v, idle);
            int f = v[CH->below( static_cast< u32 >( v.size() ) )];
            v2.clear();
            for ( std::size_t i = 0; i < W->box.size(); ++i) if ( W->box[i].exists && ABSENT == W->box[i].content && placeable( f, static_cast< int >( i) ) ) v2.push_back( static_cast< int >( i) );
            if ( v2.empty() ) break;
            int t = v2[CH->below( static_cast< u32 >( v2.size() ) )];
            eng::note( "%u: move-construct box %d from box %d (coroutine %d)", a.id, t, f, W->box[f].content);
            W->box[t].content = W->box[f].content;
            if ( W->box[t].content >= 0) { C( W->box[t].content).box = t; if ( C_SUSPENDED == C( W->box[t].content).st) ++W->n_movelive; }
            W->box[f].content = NUL;
            W->box[t].raw->move_construct( * W->box[f].raw, static_cast< int >( CH->below( 6) ) );
            ++W->n_move;
            if ( W->box[f].raw->truth( 0) ) eng::fail( eng::MOVE | eng::VALID, "moved-from object tests true");
            break; }
        case O_ASSIGN: {
            all( v, idle);
            if ( v.empty() ) break;
            int f = v[CH->below( static_cast< u32 >( v.size() ) )];
            v2.clear();
            for ( std::size_t i = 0; i < W->box.size(); ++i) {
                if ( static_cast< int >( i) == f || ! destroyable( W->box[i]) || ! placeable( f, static_cast< int >( i) ) ) continue;
                // the source must survive the destruction of the target
                if ( W->box[f].owner != 0 && W->box[i].content >= 0 && owned_by( W->box[f].owner, static_cast< u32 >( W->box[i].content) ) ) continue;
                if ( W->box[f].content >= 0 && W->box[i].content >= 0 && owned_by( static_cast< u32 >( W->box[f].content), static_cast< u32 >( W->box[i].content) ) ) continue;
                v2.push_back( static_cast< int >( i) );
            }
            if ( v2.empty() ) break;
            int t = v2[CH->below( static_cast< u32 >( v2.size() ) )];
            int old = W->box[t].content, now = W->box[f].content;
            eng::note( "%u: move-assign box %d (coroutine %d) = box %d (coroutine %d)", a.id, t, old, f, now);
            if ( old >= 0 && C_SUSPENDED == C( old).st) eng::label( "assign over suspended");
            W->box[t].content = now; W->box[f].content = NUL;
            if ( now >= 0) { C( now).box = t; if ( C_SUSPENDED == C( now).st) ++W->n_movelive; }
            model_destroy( old);
            W->box[t].raw->move_assign( * W->box[f].raw, static_cast< int >( CH->below( 5) ) );
            w::expect_done( "after move assignment");
            ++W->n_move;
            if ( W->box[f].raw->truth( 0) ) eng::fail( eng::MOVE | eng::VALID, "moved-from object tests true");
            break; }
        case O_SELF: {
            all( v, idle);
            int f = v[CH->below( static_cast< u32 >( v.size() ) )];
            eng::note( "%u: self-move-assign box %d", a.id, f);
            W->box[f].raw->move_assign( * W->box[f].raw, 0);
            ++W->n_move; eng::label( "self move");
            break; }
        case O_SWAP: {
            all( v, idle);
            int f = v[CH->below( static_cast< u32 >( v.size() ) )];
            v2.clear();
            for ( int i : v) if ( i != f && placeable( f, i) && placeable( i, f) ) v2.push_back( i);
            if ( v2.empty() ) break;
            int t = v2[CH->below( static_cast< u32 >( v2.size() ) )];
            eng::note( "%u: swap box %d (coroutine %d) with box %d (coroutine %d)", a.id, f, W->box[f].content, t, W->box[t].content);
            std::swap( W->box[f].content, W->box[t].content);
            if ( W->box[f].content >= 0) C( W->box[f].content).box = f;
            if ( W->box[t].content >= 0) C( W->box[t].content).box = t;
            W->box[f].raw->swap( * W->box[t].raw);
            w::expect_done( "after swap");
            ++W->n_move; ++W->n_swap;
            break; }
        case O_READ: {
            all( v, readable);
            int f = v[CH->below( static_cast< u32 >( v.size() ) )];
            eng::note( "%u: read box %d through an iterator", a.id, f);
            read_check( C( W->box[f].content), W->box[f].raw->peek( CH->below( 2) ), "iterator");
            break; }
        case O_GET: {
            all( v, readable);
            int f = v[CH->below( static_cast< u32 >( v.size() ) )];
            Coro & c = C( W->box[f].content);
            eng::note( "%u: get() of box %d (value %u)", a.id, f, c.val);
            u32 before = w::copies( c.val);
            read_check( c, W->box[f].raw->get(), "get");
            if ( w::copies( c.val) != before) eng::fail( eng::PAYLOAD, "get() copied the value");
            moved_by_get( c);
            break; }
        case O_CHECK: {
            all( v, has_object);
            int f = v[CH->below( static_cast< u32 >( v.size() ) )];
            BoxM const& b = W->box[f];
            bool want = true;
            if ( b.content >= 0) {
                Coro const& c = C( b.content);
                if ( C_ACTIVE == c.st && c.pull && ! info( c.kind).is_void) break;     // between two values: not specified
                want = C_DONE != c.st;
            } else want = false;
            bool got = b.raw->truth( 0);
            eng::note( "%u: test box %d: %d", a.id, f, got);
            eng::trace( got); ++W->n_valcheck;
            if ( got != want) eng::fail( eng::VALID | ( NUL == b.content ? eng::MOVE : 0u), "box %d (coroutine %d, state %d) tests %d, expected %d", f, b.content, b.content >= 0 ? C( b.content).st : -1, got, want);
            check_current( a.id, "after test");
            break; }
        case O_PEER_CHECK:
            eng::note( "%u: test counterpart", a.id);
            ++W->n_valcheck;
            if ( ! a.peer->truth( 0) ) eng::fail( eng::VALID, "counterpart tests false inside of the running function");
            break;
        case O_PEER_GET: {
            Coro & c = C( a.id);
            if ( CH->chance( 1, 3) ) { eng::note( "%u: read received value through an iterator", a.id); read_check( c, a.peer->peek( CH->below( 2) ), "counterpart iterator"); break; }
            u32 before = w::copies( c.val);
            eng::note( "%u: get() received value (%u)", a.id, c.val);
            read_check( c, a.peer->get(), "counterpart get");
            if ( w::copies( c.val) != before) eng::fail( eng::PAYLOAD, "get() copied the value");
            moved_by_get( c);
            break; }
        case O_YIELD: do_yield( a, false); break;
        case O_ENTER: op_enter( a); break;
        case O_LEAVE:
            eng::note( "%u: leave frame %u", a.id, C( a.id).frames.back().fid);
            model_exit_frame( a.id, M_NORMAL, 0, 0);
            return;
        case O_THROW: {
            int type = X_BASE + CH->below( 4);
            u32 id = ++W->nextexc;
            eng::note( "%u: throw exception %u (type %d)", a.id, id, type);
            ++W->n_throw;
            eng::label( in_catch( a.id) ? "throw in handler" : 0 == a.id ? "throw in main" : C( a.id).yields ? "throw after first suspension" : "throw before first suspension");
            model_throw( type, id);
            throw_exc( type, id);
            break; }
        case O_FINISH:
            eng::note( "%u: return from the function", a.id);
            a.finish = true;
            while ( ! C( a.id).frames.empty() ) model_exit_frame( a.id, M_NORMAL, 0, 0);
            return;
        case O_NULL: {
            all( v, []( BoxM const& b) { return b.exists && ABSENT == b.content; });
            int bi = v[CH->below( static_cast< u32 >( v.size() ) )];
            eng::note( "%u: box %d becomes not-a-coroutine", a.id, bi);
            W->box[bi].raw->create_null();
            W->box[bi].content = NUL;
            break; }
        case O_FAULT: {
            // failure of construction or of a transfer
            all( v, []( BoxM const& b) { return resumable( b) && ! b.pull && faultable( b.kind); });
            all( v2, []( BoxM const& b) { return b.exists && ABSENT == b.content; });
            bool y = can_yield && C( a.id).pull && faultable( C( a.id).kind);
            unsigned fw[3] = { v2.empty() || W->coro.size() >= 26 ? 0u : 2u, v.empty() ? 0u : 4u, y ? 5u : 0u };
            if ( ! fw[0] && ! fw[1] && ! fw[2]) break;
            switch ( CH->pick( std::vector< unsigned >( fw, fw + 3) ) ) {
            case 0: do_create( a, v2[CH->below( static_cast< u32 >( v2.size() ) )], true); eng::label( "fault: construction"); break;
            case 1: { int bi = v[CH->below( static_cast< u32 >( v.size() ) )]; bool catching = CH->chance( 1, 2); eng::label( "fault: push from outside"); do_resume( a, bi, catching, true); break; }
            default: eng::label( "fault: push from inside"); do_yield( a, true); break;
            }
            break; }
        }
    }
}

void run_function( u32 id, PeerBase & peer) {
    if ( id >= W->coro.size() ) eng::fail( eng::FUNCTOR, "unknown function invoked");
    if ( cur() != id) eng::fail( eng::CONTROL | eng::FUNCTOR, "function of coroutine %u entered while context %u has to run", id, cur() );
    w::event( w::EV_CALL, id);
    check_current( id, "function entry");
    if ( W->fn_copied_coro == id && ( FN_RVALUE == C( id).fn_mode || FN_MOVEONLY == C( id).fn_mode) && W->ncopies_of_fn) eng::fail( eng::FUNCTOR, "rvalue function object was copied");
    Act a = { id, & peer, false };
    if ( peer.is_push() != C( id).pull) std::abort();
    if ( ! C( id).pull && ! info( C( id).kind).is_void && CH->chance( 1, 2) ) {
        read_check( C( id), peer.get(), "first value"); moved_by_get( C( id) );
    }
    body( a);
    check_current( id, "end of function");
    if ( ! a.finish) { /* top-level leave cannot happen */ std::abort(); }
    Coro & c = C( id);
    c.st = C_DONE;
    W->chain.pop_back();
    eng::note( "%u: end", id);
}

static void run( eng::Choices & ch, eng::Options const& o) {
    World world = World();
    W = & world; CH = & ch;
    eng::attribute = attribute;
    w::permit = permit;
    w::reset();
    long const exc_before = w::exc_live;
    std::vector< std::unique_ptr< w::Tracked > > ref_store;
    refs = & ref_store;
    world.pf = & profiles[0];
    for ( Profile const& p : profiles) if ( o.profile == p.name) world.pf = & p;
    world.default_stacks = "anystack" == o.profile;
    world.coro.reserve( 64); world.box.reserve( 512); world.chain.reserve( 32);
    static unsigned char const fills[] = { 0x00, 0xFF, 0xA5, 0x01, 0x7F };
    u32 fb = ch.below( 6);
    w::fill_random = 5 == fb; w::fill_byte = fills[fb % 5];
    Coro m = Coro(); m.st = C_ACTIVE; m.box = -1;
    world.coro.push_back( m);
    world.chain.push_back( 0);
    std::vector< unsigned > kw( world.pf->kinds, world.pf->kinds + K_N);
    u32 nk = 1 + ch.below( 2);
    for ( u32 i = 0; i < nk; ++i) world.kinds.push_back( ch.pick( kw) );
    u32 nb = 2 + ch.below( 5);
    for ( u32 i = 0; i < nb; ++i) {
        BoxM b = BoxM();
        b.kind = world.kinds[ch.below( nk)]; b.pull = ch.chance( 1, 2); b.content = ABSENT; b.owner = 0; b.exists = true;
        b.real.reset( make_box( b.kind, b.pull) ); b.raw = b.real.get();
        eng::note( "box %u: %s_type of coroutine<%s>", i, b.pull ? "pull" : "push", info( b.kind).name);
        eng::shape( b.kind * 2 + b.pull);
        world.box.push_back( b);
    }
    world.nextframe = 1;
    world.maxops = 6 + ( ch.chance( 2, 3) ? ch.below( world.pf->maxops) : ch.below( 16) );
    Act a = { 0, nullptr, false };
    while ( ! a.finish) {
        try { body( a); }
        catch ( boost::context::detail::forced_unwind const&) { eng::fail( eng::UNWIND | eng::EXC, "forced_unwind escaped to the main context"); }
        catch ( ...) { Seen s = classify(); w::event( w::EV_CATCH, 0, s.type, s.id); }
    }
    w::expect_done( "end of main");
    // destroy what is left, in random order
    std::vector< int > v;
    for (;;) {
        all( v, has_object);
        if ( v.empty() ) break;
        int bi = v[ch.below( static_cast< u32 >( v.size() ) )];
        int content = world.box[bi].content;
        if ( content >= 0 && ! active( content) ) {
            Coro const& c = C( content);
            bool want = C_DONE != c.st;
            if ( world.box[bi].raw->truth( 0) != want) eng::fail( eng::VALID, "box %d (coroutine %d, state %d) tests %d before its destruction", bi, content, c.st, ! want);
        }
        eng::note( "end: destroy box %d (coroutine %d)", bi, content);
        world.box[bi].content = ABSENT;
        model_destroy( content);
        world.box[bi].raw->destroy();
        w::expect_done( "after destruction");
        check_all_gone();
    }
    world.box.clear();
    ref_store.clear();
    w::stacks_end_of_case();
    if ( exc_before != w::exc_live) eng::fail( eng::EXC | eng::FAULT, "%ld exception objects outlive the coroutines", w::exc_live - exc_before);
    // classification
    if ( world.maxchain > 2) eng::label( "nested activation");
    if ( world.maxchain > 4) eng::label( "nested activation depth>=4");
    if ( world.n_unwound) eng::label( "unwound a suspended coroutine");
    if ( world.n_unwound_locals) eng::label( "unwound live locals");
    if ( world.n_excpass) eng::label( "exception left a coroutine");
    if ( world.n_excpass > 1) eng::label( "several exceptions left coroutines");
    if ( world.n_ctorthrow) eng::label( "pull constructor threw");
    if ( world.n_movelive) eng::label( "moved a suspended coroutine");
    if ( world.n_swap) eng::label( "swap");
    if ( world.n_fault) eng::label( "injected fault");
    if ( world.n_nested) eng::label( "suspended while nested");
    std::string const p = o.profile;
    bool nt = world.n_suspend >= 2;
    if ( "exc" == p) nt = world.n_excpass >= 1;
    else if ( "unwind" == p) nt = world.n_unwound_locals >= 1;
    else if ( "stack" == p) nt = world.n_alloc >= 2 && world.n_destroy >= 2 && ( world.n_unwound || world.n_ctorthrow || world.n_fault);
    else if ( "payload" == p || "value" == p) nt = world.n_transfer >= 3 && world.n_suspend >= 1;
    else if ( "functor" == p) nt = world.n_alloc >= 1;
    else if ( "move" == p) nt = world.n_movelive >= 1;
    else if ( "fault" == p) nt = world.n_fault >= 1;
    else if ( "valid" == p) nt = world.n_valcheck >= 3 && world.n_alloc >= 1;
    else if ( "compose" == p) nt = world.n_suspend >= 3 && world.n_alloc >= 2;
    if ( nt) eng::nontrivial();
    W = nullptr;
}

}

namespace eng {
Harness const harness = { "hist", hist::run,
    "random program over 2-6 global and any number of function-owned coroutine objects (creation, call, suspension, frames with locals/handlers/owned coroutines, throw, return, destroy, move, assign, swap, read, fault) run in lock-step with a model; non-trivial per profile: control/value/mixed: >=2 suspensions; exc: an exception left a coroutine function; unwind: live locals were unwound; stack: >=2 stacks and an unwinding, failed construction or fault; move: a suspended coroutine was moved; fault: a fault was injected; valid: >=3 tests" };
}
