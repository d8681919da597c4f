// Callable harness: zoo of function objects x hand-over x allocator x run / suspend / throw / never run.
#include "callable.hpp"
#include <cstring>

namespace eng {
static void run( Choices & ch, Options const&) {
    w::reset();
    callable::Ctx x; std::memset( & x, 0, sizeof( x) );
    x.id = 100 + ch.below( 1000);
    bool pull = ch.chance( 1, 2);
    using namespace callable;
    static int const e[] = { RETURN, THROW, DESTROY, NEVER };
    x.end = e[ch.below( pull ? 3 : 4)];
    x.n = ch.size( 8);
    int al = static_cast< int >( ch.below( ALLOC_N) );
    unsigned kind = ch.below( 3);
    w::stack_events = false;
    shape( pull); shape( x.end); shape( x.n); shape( al); shape( kind); shape( x.id);
    static char const* const en[] = { "returns", "throws", "is destroyed while suspended", "never runs" };
    note( "%s_type, element kind %u, the function makes %u steps and %s, allocator %d", pull ? "pull" : "push", kind, x.n, en[x.end], al);
    label( en[x.end]);
    typedef void (* Part)( callable::Ctx *, Choices &, int);
    static Part const parts[] = { callable::part0, callable::part1, callable::part2, callable::part3, callable::part4, callable::part5 };
    parts[( pull ? 0 : 3) + kind]( & x, ch, al);
    if ( w::count( w::FUNCTOR_OBJ) ) fail( FUNCTOR, "%u function objects still alive at the end", w::count( w::FUNCTOR_OBJ) );
    if ( w::stacks_live() ) fail( STACK, "stack still allocated at the end");
    w::stacks_end_of_case();
    trace( x.calls); trace( x.steps_in); trace( x.alive_checks);
    if ( x.calls && ( x.steps_in || x.end != RETURN) ) nontrivial();
}
Harness const harness = { "callable", run,
    "a case draws a callable from a zoo (functors: const, mutable, final, virtual, with a result, with overloaded operator&, 1-12 KB, over-aligned, copy-only, move-only, owning; functions, function pointers, "
    "std::function, std::bind, member functions, std::ref, lambdas of all kinds), the way it is handed over (rvalue, lvalue, const lvalue; the source object is destroyed and overwritten after construction), "
    "element kind (int, void, reference), side, allocator form, number of steps and how the run ends (return, throw, destroyed while suspended, never called), moving the coroutine in between. Oracle: ledger of "
    "copies, moves, invocations and destructions of the function object and its captured state at entry, after every resumption and during unwinding. Non-trivial: the callable ran and was suspended, threw or was destroyed." };
}
