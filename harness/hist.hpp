// Interfaces between the history interpreter (hist.cpp) and the typed parts (hist_kind.cpp).
#ifndef VERIF_HIST_HPP
#define VERIF_HIST_HPP

#include "world.hpp"

namespace hist {

enum KindId { K_INT, K_TRK, K_MOV, K_REF, K_CREF, K_VOID, K_BIG, K_N };
struct KindInfo { char const* name; bool is_void, is_ref, is_class, copyable; };
KindInfo const& info( int kind);

// how a function object and the allocator are handed over at construction
enum FnMode { FN_RVALUE, FN_LVALUE, FN_CLVALUE, FN_STDFUNCTION, FN_MOVEONLY, FN_N };
enum AllocMode { AL_DEFAULT, AL_CONST_LV, AL_LV, AL_RV, AL_STDFIXED, AL_POOLED, AL_PROTECTED, AL_N };
struct CreateSpec {
    std::uint32_t   coro;
    int             fn_mode;
    int             al_mode;
    bool            alloc_fails;
    bool            copy_fails;
};

// counterpart handed to a coroutine function
struct PeerBase {
    virtual ~PeerBase() {}
    virtual bool is_push() const = 0;
    virtual bool truth( int form) = 0;
    // push counterpart
    virtual void yield( std::uint32_t id, int form, bool fault) = 0;
    // pull counterpart
    virtual void resume() = 0;
    virtual std::uint32_t get() = 0;
    virtual std::uint32_t peek( int form) = 0;
    // moves the counterpart into a local object, runs f with it, moves it back
    virtual void with_moved( void (* f)( void *, PeerBase &), void * arg) = 0;
};

// memory for one coroutine object
struct BoxBase {
    virtual ~BoxBase() {}
    virtual void create( CreateSpec const&) = 0;        // into an absent box
    virtual void create_null() = 0;                     // not-a-coroutine: moved-from object
    virtual void destroy() = 0;
    virtual bool truth( int form) = 0;
    virtual void resume( std::uint32_t id, int form, bool fault) = 0;
    virtual std::uint32_t get() = 0;
    virtual std::uint32_t peek( int form) = 0;
    virtual void move_construct( BoxBase & from, int form) = 0;   // this box is absent
    virtual void move_assign( BoxBase & from, int form) = 0;
    virtual void swap( BoxBase & other) = 0;
};
BoxBase * make_box( int kind, bool pull);

// called by the function objects
void run_function( std::uint32_t coro, PeerBase & peer);
void functor_copy_made( std::uint32_t coro, bool copy);

template< int K > BoxBase * make_box_kind( bool pull);

// int values and the static objects of reference kinds
inline int encode( std::uint32_t id) { return static_cast< int >( id * 2654435761u); }
std::uint32_t decode( int v);
w::Tracked & ref_object( std::uint32_t id);
bool is_ref_object( w::Tracked const&, std::uint32_t id);

}

#endif
