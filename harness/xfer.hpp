// Transfer harness: element type zoo x value sequences x direction x inspections between transfers.
#ifndef VERIF_XFER_HPP
#define VERIF_XFER_HPP
#include "world.hpp"
namespace xfer {
typedef void (* Run)( eng::Choices &, bool dense);
extern long counted;         // living objects of the counted types
struct Entry { char const* name; Run run; };
void part0( std::vector< Entry > &);
void part1( std::vector< Entry > &);
void part2( std::vector< Entry > &);
void part3( std::vector< Entry > &);
void part4( std::vector< Entry > &);
}
#endif
