// Callable harness: shared by the parts (one per element kind and side).
#ifndef VERIF_CALLABLE_HPP
#define VERIF_CALLABLE_HPP
#include "world.hpp"
namespace callable {
enum End { RETURN, THROW, DESTROY, NEVER };
struct Ctx {
    std::uint32_t calls, steps_in, n; int end; bool no_copy, counting, building; std::uint32_t copies, moves; bool in_body; std::uint32_t id; std::uint32_t alive_checks;
};
enum Alloc { DEFAULT, FIXED, POOLED, CONST_LV, LV, RV, ALLOC_N };
void part0( Ctx *, eng::Choices &, int); void part1( Ctx *, eng::Choices &, int); void part2( Ctx *, eng::Choices &, int);
void part3( Ctx *, eng::Choices &, int); void part4( Ctx *, eng::Choices &, int); void part5( Ctx *, eng::Choices &, int);
}
#endif
