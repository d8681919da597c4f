#include "xfer.hpp"

long xfer::counted = 0;

namespace eng {
static void run( Choices & ch, Options const& o) {
    static std::vector< xfer::Entry > all;
    if ( all.empty() ) { xfer::part0( all); xfer::part1( all); xfer::part2( all); xfer::part3( all); xfer::part4( all); }
    w::reset();
    xfer::counted = 0;
    unsigned n = ch.below( static_cast< std::uint32_t >( all.size() ) );
    bool dense = "stable" == o.profile;
    shape( n);
    note( "element type %s", all[n].name);
    label( all[n].name);
    all[n].run( ch, dense);
    for ( w::Live const& l : w::live() )
        fail( PAYLOAD, "transferred object %u still alive at the end", l.id);
    if ( xfer::counted) fail( PAYLOAD, "%ld transferred objects %s", xfer::counted < 0 ? - xfer::counted : xfer::counted, xfer::counted < 0 ? "destroyed twice" : "still alive at the end");
}
Harness const harness = { "xfer", run,
    "a case draws an element type (arithmetic, pointers, trivially copyable classes of many sizes and alignments, owning classes, move-only, copy-only, "
    "references to objects / arrays / abstract classes), a direction (pull_type receives / push_type sends), a value sequence (random, edge values, repeats), "
    "a push form per value (lvalue, const lvalue, moved lvalue, temporary, output iterator), the depth of the sending and receiving frames, and between the transfers a list of "
    "inspections (test, *begin(), ->, get, held references, move/swap of the coroutine object, resuming another coroutine, overwriting the sender's original, "
    "running and destroying unrelated coroutines). Non-trivial: at least 2 values were transferred and compared (profile stable: and one value was inspected at least twice with an "
    "intervening disturbance)." };
}
