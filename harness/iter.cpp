// Iterator harness: iterator / range-for / algorithm programs against explicit transfers on a vector.
#include "world.hpp"

#include <algorithm>
#include <functional>
#include <iterator>
#include <memory>
#include <numeric>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#if __cplusplus >= 202002L
# include <ranges>
# if defined(__cpp_lib_ranges)
#  define VERIF_RANGES
# endif
#endif

#include <boost/coroutine2/all.hpp>

namespace {

typedef std::uint32_t u32;
namespace co = boost::coroutines2;
using eng::ITER;

struct Boom { u32 id; };

// element kinds. key( element) -> u32; make( v) -> something pushable; member access through ->
struct KInt {
    typedef int T; typedef int V; static char const* name() { return "int"; }
    static V make( u32 v) { return static_cast< int >( v); } static u32 key( int v) { return static_cast< u32 >( v); }
    template< typename I > static u32 arrow( I const& i) { return key( * i.operator->() ); }
    static bool const copy = true;
};
struct Rec { u32 a; std::string s; explicit Rec( u32 v) : a( v), s( std::to_string( v) + "............................") {} u32 val() const { return s == std::to_string( a) + "............................" ? a : ~a; } };
struct KRec {
    typedef Rec T; typedef Rec V; static char const* name() { return "class"; }
    static V make( u32 v) { return Rec( v); } static u32 key( Rec const& r) { return r.val(); }
    template< typename I > static u32 arrow( I const& i) { return i->val(); }
    static bool const copy = true;
};
struct KTrk {
    typedef w::Tracked T; typedef w::Tracked V; static char const* name() { return "tracked"; }
    static V make( u32 v) { return w::Tracked( v); } static u32 key( w::Tracked const& r) { return r.read( "iterator"); }
    template< typename I > static u32 arrow( I const& i) { return i->read( "iterator"); }
    static bool const copy = true;
};
struct KPtr {
    typedef int const* T; typedef int const* V; static int arena[4096]; static char const* name() { return "pointer"; }
    static V make( u32 v) { return arena + v; } static u32 key( int const* p) { return static_cast< u32 >( p - arena); }
    template< typename I > static u32 arrow( I const& i) { return key( * i.operator->() ); }
    static bool const copy = true;
};
int KPtr::arena[4096];
struct Slots { static Rec & at( u32 v) { static std::vector< Rec > * s = nullptr; if ( ! s) { s = new std::vector< Rec >(); for ( u32 i = 0; i < 4096; ++i) s->push_back( Rec( i) ); } return ( * s)[v]; } };
struct KRef {
    typedef Rec & T; typedef std::reference_wrapper< Rec > V; static char const* name() { return "reference"; }
    static Rec & make( u32 v) { return Slots::at( v); }
    static u32 key( Rec const& r) { if ( & r != & Slots::at( r.a) ) eng::fail( ITER | eng::VALUE, "reference names another object"); return r.val(); }
    template< typename I > static u32 arrow( I const& i) { return i->val(); }
    static bool const copy = true;
};
struct KCRef {
    typedef Rec const& T; typedef std::reference_wrapper< Rec const > V; static char const* name() { return "const reference"; }
    static Rec const& make( u32 v) { return Slots::at( v); }
    static u32 key( Rec const& r) { if ( & r != & Slots::at( r.a) ) eng::fail( ITER | eng::VALUE, "reference names another object"); return r.val(); }
    template< typename I > static u32 arrow( I const& i) { return i->val(); }
    static bool const copy = true;
};
struct KMov {
    typedef std::unique_ptr< u32 > T; typedef T V; static char const* name() { return "move-only"; }
    static V make( u32 v) { return T( new u32( v) ); } static u32 key( T const& p) { return p ? * p : 0xffffffffu; }
    template< typename I > static u32 arrow( I const& i) { return * i->get(); }
    static bool const copy = false;
};

// overloads unary &
struct Amp : Rec {
    explicit Amp( u32 v) : Rec( v) {}
    Amp * operator&() { return std::addressof( decoy() ); }
    Amp const* operator&() const { return std::addressof( decoy() ); }
    static Amp & decoy();
};
struct Box1 { Amp a; Box1() : a( 77777777) { a.s = "decoy"; } };
Amp & Amp::decoy() { static Box1 b; return b.a; }
struct KAmp {
    typedef Amp T; typedef Amp V; static char const* name() { return "class with operator&"; }
    static V make( u32 v) { return Amp( v); } static u32 key( Amp const& r) { return r.val(); }
    template< typename I > static u32 arrow( I const& i) { return i->val(); }
    static bool const copy = true;
};
struct AmpSlots { static Amp & at( u32 v) { static std::vector< Amp > * s = nullptr; if ( ! s) { s = new std::vector< Amp >(); for ( u32 i = 0; i < 4096; ++i) s->push_back( Amp( i) ); } return ( * s)[v]; } };
struct KAmpRef {
    typedef Amp & T; typedef std::reference_wrapper< Amp > V; static char const* name() { return "reference to class with operator&"; }
    static Amp & make( u32 v) { return AmpSlots::at( v); }
    static u32 key( Amp const& r) { if ( std::addressof( r) != std::addressof( AmpSlots::at( r.a) ) ) eng::fail( ITER | eng::VALUE, "reference names another object"); return r.val(); }
    template< typename I > static u32 arrow( I const& i) { return i->val(); }
    static bool const copy = true;
};

std::vector< u32 > draw( eng::Choices & ch, unsigned maxn) {
    std::vector< u32 > v;
    if ( maxn >= 30 && ch.chance( 1, 100) ) {       // a long sequence
        unsigned e = ch.chance( 1, 10) ? 16 : 11;
        unsigned n = ch.below( ( 1u << e) + 1000); u32 x = ch.below( 1u << 30);
        eng::label( n > 60000 ? "sequence > 60000" : n > 1000 ? "sequence > 1000" : "sequence up to 1000");
        for ( unsigned i = 0; i < n; ++i) { x = x * 1664525u + 1013904223u; v.push_back( x >> 20); }
        return v;
    }
    unsigned n = ch.size( maxn);
    for ( unsigned i = 0; i < n; ++i) v.push_back( ch.below( 4096) );
    return v;
}

template< typename K, typename P >
void push_plain( P & out, u32 v) { out( K::make( v) ); }

// ---- reading through a pull_type ---------------------------------------------------------------
template< typename K, typename Pull >
struct Reader {
    typedef typename Pull::iterator It;
    eng::Choices & ch; Pull & c; std::vector< u32 > const& vals; unsigned const& sent; bool throws; u32 exc_id; unsigned pos; unsigned limit; bool used;
    // c is at value pos, or at the end
    bool at_end() const { return pos >= vals.size(); }
    void state( char const* op) {
        bool t = c ? true : false;
        It b = c.begin(), e = c.end(), b2 = begin( c), e2 = end( c), d = It();
        if ( t == at_end() ) eng::fail( ITER | eng::VALID, "%s: after %u of %u values the coroutine tests %d", op, pos, static_cast< unsigned >( vals.size() ), t);
        if ( ( b == e) != at_end() || ( b != e) == at_end() || ( b2 == e2) != at_end() || ( b == d) != at_end() || ( e == b) != at_end() || ( e != b) == at_end() )
            eng::fail( ITER, "%s: begin() %s end() although the coroutine tests %d", op, b == e ? "==" : "!=", t);
        if ( ! ( e == e2) || e != d || ! ( b == b2) || b != b2) eng::fail( ITER, "%s: equal iterators compare different", op);
        if ( ! at_end() && sent != pos + 1) eng::fail( ITER | eng::CONTROL, "%s: the function is at value %u, the iterators at %u", op, sent, pos + 1);
    }
    void expect( u32 k, char const* op) {
        if ( at_end() ) eng::fail( ITER, "%s: visits more than the %u values", op, static_cast< unsigned >( vals.size() ) );
        if ( k != vals[pos]) eng::fail( ITER | eng::VALUE, "%s: value %u is %u instead of %u", op, pos, k, vals[pos]);
        eng::trace( k);
        if ( sent != pos + 1) eng::fail( ITER | eng::CONTROL, "%s: dereferencing transfers control", op);
    }
    void deref( It const& it, char const* op) {
        unsigned n = 1 + ch.below( 3);
        for ( unsigned i = 0; i < n; ++i) { expect( K::key( * it), op); expect( K::arrow( it), op); }
        if ( std::addressof( * it) != std::addressof( * it) ) eng::fail( ITER, "%s: dereferencing twice yields two objects", op);
    }
    // algorithms see the values from pos on; they see the exception of the function at the end
    template< typename F > void whole( char const* op, F f) {
        eng::label( op);
        eng::note( "%s from value %u", op, pos);
        used = true;
        bool thrown = false;
        try { f(); } catch ( Boom const& b) { thrown = true; if ( b.id != exc_id) eng::fail( ITER | eng::EXC, "%s: another exception", op); }
        if ( thrown != ( throws && at_end() && ! was_end) ) eng::fail( ITER | eng::EXC, "%s: %s", op, thrown ? "exception although the function did not throw" : "exception of the function lost");
    }
    bool was_end;
    void step() {
        was_end = at_end();
        switch ( ch.below( 12) ) {
        case 0: {
            bool broke = false;
            whole( "range-for", [&]{ for ( auto & x : c) { expect( K::key( x), "range-for"); if ( pos + 1 == limit) { broke = true; break; } ++pos; } });
            if ( broke) { state( "range-for break"); advance_plain(); } // still at the value the loop was left at
            break; }
        case 1: whole( "std::for_each", [&]{ std::for_each( c.begin(), c.end(), [&]( typename std::add_lvalue_reference< typename std::remove_reference< typename K::T >::type const >::type x){ expect( K::key( x), "for_each"); ++pos; }); }); break;
        case 2: whole( "std::accumulate", [&]{
                u32 s = std::accumulate( begin( c), end( c), 17u, [&]( u32 a, typename std::remove_reference< typename K::T >::type const& x) { expect( K::key( x), "accumulate"); ++pos; return a * 31 + vals[pos - 1]; });
                (void)s; }); break;
        case 3: { u32 target = at_end() ? 0 : vals[pos + ch.below( static_cast< u32 >( vals.size() ) - pos)];
            It r;
            whole( "std::find_if", [&]{
                r = std::find_if( c.begin(), c.end(), [&]( typename std::remove_reference< typename K::T >::type const& x) { u32 k = K::key( x); expect( k, "find_if"); if ( k == target) return true; ++pos; return false; });
                if ( at_end() != ( r == c.end() ) ) eng::fail( ITER, "find_if: result and coroutine disagree");
                if ( ! at_end() ) deref( r, "find_if result"); });
            break; }
        case 4: whole( "std::distance", [&]{ unsigned left = static_cast< unsigned >( vals.size() ) - pos; unsigned p0 = pos; pos = static_cast< unsigned >( vals.size() ); (void)p0;
                std::ptrdiff_t d = std::distance( c.begin(), c.end() ); if ( d != static_cast< std::ptrdiff_t >( left) ) eng::fail( ITER, "distance: %d of %u", static_cast< int >( d), left); }); break;
        case 5: whole( "std::equal", [&]{
                if ( ! std::equal( c.begin(), c.end(), vals.begin() + pos, [&]( typename std::remove_reference< typename K::T >::type const& x, u32 k) { expect( K::key( x), "equal"); ++pos; return K::key( x) == k; }) ) eng::fail( ITER, "equal: values differ"); }); break;
        case 6: whole( "std::transform", [&]{
                std::vector< u32 > out; unsigned p0 = pos;
                std::transform( c.begin(), c.end(), std::back_inserter( out), [&]( typename std::remove_reference< typename K::T >::type const& x) { expect( K::key( x), "transform"); ++pos; return K::key( x); });
                if ( out != std::vector< u32 >( vals.begin() + p0, vals.end() ) ) eng::fail( ITER, "transform: values differ"); }); break;
        case 7: collect( std::integral_constant< bool, K::copy >() ); break;
        case 8: ranges(); break;
        default: manual(); break;
        }
        state( "afterwards");
    }
    void collect( std::true_type) {
        whole( "vector( begin, end)", [&]{
            unsigned p0 = pos; pos = static_cast< unsigned >( vals.size() );
            std::vector< typename K::V > out( c.begin(), c.end() );
            if ( out.size() != vals.size() - p0) eng::fail( ITER, "vector( begin, end): %u values instead of %u", static_cast< unsigned >( out.size() ), static_cast< unsigned >( vals.size() ) - p0);
            for ( unsigned i = 0; i < out.size(); ++i) if ( K::key( out[i]) != vals[p0 + i]) eng::fail( ITER | eng::VALUE, "vector( begin, end): value %u differs", i); });
    }
    void collect( std::false_type) {
        whole( "move_iterator", [&]{
            unsigned p0 = pos; pos = static_cast< unsigned >( vals.size() );
            std::vector< typename K::V > out;
            std::copy( std::make_move_iterator( c.begin() ), std::make_move_iterator( c.end() ), std::back_inserter( out) );
            if ( out.size() != vals.size() - p0) eng::fail( ITER, "move_iterator: %u values instead of %u", static_cast< unsigned >( out.size() ), static_cast< unsigned >( vals.size() ) - p0);
            for ( unsigned i = 0; i < out.size(); ++i) if ( K::key( out[i]) != vals[p0 + i]) eng::fail( ITER | eng::VALUE, "move_iterator: value %u differs", i); });
    }
    // the same case with and without std::ranges: all builds draw the same numbers
    void ranges() {
        typedef typename std::remove_reference< typename K::T >::type const E;
        auto see = [&]( E & x) { expect( K::key( x), "ranges"); ++pos; };
        switch ( ch.below( 4) ) {
        case 0: whole( "views::transform", [&]{
#if defined(VERIF_RANGES)
            for ( u32 k : c | std::views::transform( []( E & x) { return K::key( x); }) ) { expect( k, "views::transform"); ++pos; }
#else
            for ( E & x : c) see( x);
#endif
            }); break;
        case 1: whole( "ranges::for_each", [&]{
#if defined(VERIF_RANGES)
            std::ranges::for_each( c, see);
#else
            std::for_each( c.begin(), c.end(), see);
#endif
            }); break;
        case 2: {
            u32 target = at_end() ? 0 : vals[pos + ch.below( static_cast< u32 >( vals.size() ) - pos)];
            auto hit = [&]( E & x) { u32 k = K::key( x); expect( k, "ranges::find_if"); if ( k == target) return true; ++pos; return false; };
            whole( "ranges::find_if", [&]{
#if defined(VERIF_RANGES)
                It r = std::ranges::find_if( c, hit);
                if ( at_end() != ( r == std::ranges::end( c) ) ) eng::fail( ITER, "ranges::find_if: result and coroutine disagree");
#else
                It r = std::find_if( begin( c), end( c), hit);
#endif
                if ( ! at_end() ) deref( r, "ranges::find_if result"); });
            break; }
        default: whole( "views::filter", [&]{
            u32 sum = 0, want = 0;
            for ( unsigned i = pos; i < vals.size(); ++i) if ( vals[i] % 3) want = want * 31 + vals[i];
            auto keep = []( E & x) { return 0 != K::key( x) % 3; };     // may be asked several times per value
            pos = static_cast< unsigned >( vals.size() );
#if defined(VERIF_RANGES)
            for ( E & x : std::ranges::ref_view( c) | std::views::filter( keep) ) sum = sum * 31 + K::key( x);
#else
            for ( E & x : c) if ( keep( x) ) sum = sum * 31 + K::key( x);
#endif
            if ( sum != want) eng::fail( ITER | eng::VALUE, "views::filter: other values"); }); break;
        }
    }
    void advance_plain() { ++pos; try { c(); } catch ( Boom const& b) { if ( b.id != exc_id || ! throws || ! at_end() ) eng::fail( ITER | eng::EXC, "unexpected exception"); return; } if ( throws && at_end() ) eng::fail( ITER | eng::EXC, "exception of the function lost"); }
    void manual() {
        eng::label( "manual");
        It it = ch.chance( 1, 2) ? c.begin() : begin( c);
        unsigned n = 1 + ch.below( 8);
        eng::note( "manual iteration from value %u, %u steps", pos, n);
        for ( unsigned i = 0; i < n; ++i) {
            if ( ( it == c.end() ) != at_end() || ( it != end( c) ) == at_end() ) eng::fail( ITER, "iterator after %u of %u values: == end() is %d", pos, static_cast< unsigned >( vals.size() ), it == c.end() );
            if ( at_end() ) return;
            used = true;
            switch ( ch.below( 7) ) {
            case 0: deref( it, "*it"); break;
            case 1: case 2: case 3: {
                bool post = ch.chance( 1, 2);
                ++pos;
                bool last = at_end() && throws;
                try {
                    if ( post) it++;
                    else { It & r = ++it; if ( & r != & it) eng::fail( ITER, "++it does not return the iterator"); }
                } catch ( Boom const& b) {
                    if ( ! last || b.id != exc_id) eng::fail( ITER | eng::EXC, "increment throws");
                    return;     // the state of an iterator whose increment threw is not specified
                }
                if ( last) eng::fail( ITER | eng::EXC, "exception of the function lost");
                if ( at_end() ? c || it != c.end() : ! c || it == c.end() || sent != pos + 1) eng::fail( ITER | eng::CONTROL, "increment: %u of %u values, function at %u", pos, static_cast< unsigned >( vals.size() ), sent);
                break; }
            case 4: { It j( it), k; k = it; if ( j != it || ! ( k == it) ) eng::fail( ITER, "copy of an iterator differs"); deref( j, "copied iterator"); it = k; break; }
            case 5: { // explicit transfer; iterators are obtained anew
                advance_plain(); it = c.begin(); break; }
            default: { It x = c.begin(), y; std::swap( x, y); if ( x != c.end() || y != it) eng::fail( ITER, "swap of iterators"); break; }
            }
        }
    }
};

template< typename K >
void run_pull( eng::Choices & ch) {
    typedef co::coroutine< typename K::T > C;
    typedef typename C::pull_type pull_t; typedef typename C::push_type push_t;
    std::vector< u32 > vals = draw( ch, 40);
    bool throws = ch.chance( 1, 6) && ! vals.empty();
    bool inside = ch.chance( 1, 3);     // the reader is the function of a push_type
    bool gen_iter = K::copy && ch.chance( 1, 3); // the generator writes through an output iterator
    unsigned sent = 0;
    eng::shape( vals.size() ); eng::shape( inside); eng::shape( throws); for ( u32 v : vals) eng::shape( v);
    eng::note( "pull_type< %s >, %u values%s%s", K::name(), static_cast< unsigned >( vals.size() ), throws ? ", function throws at the end" : "", inside ? ", read inside of a push_type's function" : "");
    (void)gen_iter;
    unsigned limit = ch.below( static_cast< u32 >( vals.size() ) + 2);
    if ( ! inside) {
        pull_t c( [&]( push_t & out) {
            for ( u32 v : vals) { ++sent; push_plain< K >( out, v); }
            if ( throws) throw Boom{ 99 };
        });
        Reader< K, pull_t > r = { ch, c, vals, sent, throws, 99, 0, limit, false, false };
        r.state( "at the beginning");
        unsigned steps = 1 + ch.below( 6);
        for ( unsigned i = 0; i < steps; ++i) r.step();
        eng::shape( steps);
        if ( r.used && vals.size() >= 2) eng::nontrivial();
    } else {
        // the sender ends the sequence by destroying the push_type: the function is unwound in ++it / c()
        bool used = false; unsigned done = 0; bool finished = false;
        {
            push_t s( [&]( pull_t & c) {
                struct Done { unsigned & d; bool & f; ~Done() { ++d; f = true; } } guard{ done, finished };
                // bounded reading: never steps behind the last value that will be sent
                Reader< K, pull_t > r = { ch, c, vals, sent, false, 0, 0, limit, false, false };
                typename pull_t::iterator it = begin( c);
                bool loop = ch.chance( 1, 2);
                used = true;
                if ( loop) { for ( auto & x : c) { r.expect( K::key( x), "range-for in a push_type's function"); if ( r.pos == limit) return; ++r.pos; } eng::fail( ITER, "range-for ended although more values are sent"); }
                for ( ;;) {
                    if ( it == c.end() ) eng::fail( ITER, "iterator equals end() although a value is available");
                    r.deref( it, "*it in a push_type's function");
                    if ( r.pos == limit) return;
                    ++r.pos;
                    if ( ch.chance( 1, 2) ) ++it; else it++;
                }
            });
            for ( u32 v : vals) {
                if ( ! s) break;
                ++sent; push_plain< K >( s, v);
            }
            if ( ! vals.empty() && ( limit < vals.size() ) == ( s ? true : false) ) eng::fail( ITER | eng::VALID, "receiver stopped after %u, push_type tests %d", limit, s ? 1 : 0);
        }
        if ( ! vals.empty() && 1 != done) eng::fail( ITER | eng::UNWIND, "function was left %u times", done);
        if ( used && vals.size() >= 2) eng::nontrivial();
    }
}

// ---- writing through a push_type ---------------------------------------------------------------
template< typename K, typename Push >
struct Writer {
    typedef typename Push::iterator It;
    eng::Choices & ch; Push & s; std::vector< u32 > const& vals; std::vector< u32 > const& got; unsigned pos; unsigned limit; bool used;
    unsigned left() const { return static_cast< unsigned >( std::min< std::size_t >( vals.size(), limit) ) - pos; }
    bool open() const { return pos < limit; }
    void state( char const* op) {
        if ( got.size() != pos) eng::fail( ITER | eng::CONTROL | eng::VALUE, "%s: %u values written, %u received", op, pos, static_cast< unsigned >( got.size() ) );
        for ( unsigned i = 0; i < pos; ++i) if ( got[i] != vals[i]) eng::fail( ITER | eng::VALUE, "%s: value %u is %u instead of %u", op, i, got[i], vals[i]);
        bool t = s ? true : false;
        It b = begin( s), e = end( s), d = It();
        if ( t != open() ) eng::fail( ITER | eng::VALID, "%s: push_type tests %d after %u of %u values", op, t, pos, limit);
        if ( ( b == e) == t || ( b != e) != t || ( b == d) == t || e != d || ! ( e == d) ) eng::fail( ITER, "%s: iterator comparison with end does not agree with the push_type (tests %d)", op, t);
        It b2 = begin( s);
        if ( b != b2 || ! ( b == b2) ) eng::fail( ITER, "%s: equal iterators compare different", op);
    }
    void after( It const& it, char const* op) { state( op); if ( ( it == end( s) ) == open() || ( it != It() ) != open() ) eng::fail( ITER, "%s: iterator and push_type disagree about the end", op); }
    typedef typename std::remove_reference< typename K::T >::type E;
    It assign( It it, u32 v, bool star) {
        typename K::V tmp( K::make( v) );
        typename K::T x = tmp;
        if ( star) { It & r = ( * it = x); if ( & r != & it) eng::fail( ITER, "assignment does not return the iterator"); }
        else { It & r = ( it = x); if ( & r != & it) eng::fail( ITER, "assignment does not return the iterator"); }
        return it;
    }
    void step() {
        It it = begin( s);
        if ( ! open() ) { after( it, "closed"); return; }
        unsigned n = left() ? 1 + ch.below( left() ) : 0;
        if ( 0 == n) return;
        used = true;
        unsigned p0 = pos;
        switch ( ch.below( 6) ) {
        case 0: eng::note( "std::transform %u", n); eng::label( "std::transform"); pos += n; it = algo_transform( it, p0, n); after( it, "std::transform"); break;
        case 1: eng::note( "std::copy %u", n); eng::label( "std::copy"); pos += n; it = algo_copy( it, p0, n); after( it, "std::copy"); break;
        case 2: { eng::note( "std::generate_n %u", n); eng::label( "std::generate_n"); pos += n; unsigned k = p0; it = algo_generate( it, n, k); after( it, "std::generate_n"); break; }
        default: {
            eng::note( "manual %u", n); eng::label( "manual write");
            for ( unsigned i = 0; i < n; ++i) {
                unsigned pre = ch.below( 3);
                for ( unsigned j = 0; j < pre; ++j) { if ( ch.chance( 1, 2) ) { It & r = ++it; if ( & r != & it) eng::fail( ITER, "++ does not return the iterator"); } else { It & r = * it; if ( & r != & it) eng::fail( ITER, "* does not return the iterator"); } }
                if ( ch.chance( 1, 4) ) { It c2( it); it = c2; if ( c2 != it) eng::fail( ITER, "copy of an iterator differs"); }
                state( "++ and *");
                ++pos;
                if ( ch.chance( 1, 5) ) { push_plain< K >( s, vals[pos - 1]); it = begin( s); }
                else it = assign( it, vals[pos - 1], ch.chance( 1, 2) );
                after( it, "assignment");
                if ( ! open() ) break;
            }
            break; }
        }
    }
    struct Conv { E & operator()( u32 v) const { static typename std::remove_const< E >::type * t = nullptr; delete t; t = nullptr; t = new typename std::remove_const< E >::type( K::make( v) ); return * t; } };
    struct ConvRef { typename K::T operator()( u32 v) const { return K::make( v); } };
    It algo_transform( It it, unsigned p0, unsigned n) { return std::transform( vals.begin() + p0, vals.begin() + p0 + n, it, ConvRef() ); }
    It algo_copy( It it, unsigned p0, unsigned n) {
        std::vector< typename K::V > src; for ( unsigned i = 0; i < n; ++i) src.push_back( K::make( vals[p0 + i]) );
        return std::copy( src.begin(), src.end(), it);
    }
    It algo_generate( It it, unsigned n, unsigned & k) { return std::generate_n( it, n, [&]() -> typename K::T { return K::make( vals[k++]); }); }
};

template< typename K >
void run_push( eng::Choices & ch) {
    typedef co::coroutine< typename K::T > C;
    typedef typename C::pull_type pull_t; typedef typename C::push_type push_t;
    std::vector< u32 > vals = draw( ch, 40), got;
    unsigned limit = ch.chance( 1, 2) ? ch.below( static_cast< u32 >( vals.size() ) + 2) + 1 : 1000000;
    bool inside = ch.chance( 1, 3);
    bool rf = ch.chance( 1, 2);
    eng::shape( vals.size() ); eng::shape( inside); eng::shape( limit); for ( u32 v : vals) eng::shape( v);
    eng::note( "push_type< %s >, %u values, receiver stops after %u%s", K::name(), static_cast< unsigned >( vals.size() ), limit, inside ? ", written inside of a pull_type's function" : "");
    bool used = false;
    if ( ! inside) {
        push_t s( [&]( pull_t & in) {
            if ( rf) { for ( auto & x : in) { got.push_back( K::key( x) ); if ( got.size() >= limit) return; } }
            else while ( in) { got.push_back( K::key( * begin( in) ) ); if ( got.size() >= limit) return; in(); }
        });
        Writer< K, push_t > wr = { ch, s, vals, got, 0, limit, false };
        wr.state( "at the beginning");
        unsigned steps = 1 + ch.below( 5);
        for ( unsigned i = 0; i < steps; ++i) wr.step();
        wr.state( "at the end");
        eng::shape( steps);
        used = wr.used;
    } else {
        // the function of a pull_type writes through the iterator of its counterpart: never ends
        unsigned before = 0;
        pull_t c( [&]( push_t & out) {
            typename push_t::iterator it = begin( out);
            if ( it == end( out) ) eng::fail( ITER, "begin() of a live counterpart equals end()");
            bool alg = ch.chance( 1, 2);
            if ( alg) {
                std::vector< typename K::V > src; for ( u32 v : vals) src.push_back( K::make( v) );
                it = std::copy( src.begin(), src.end(), it);
            } else for ( u32 v : vals) {
                typename K::V tmp( K::make( v) ); typename K::T x = tmp;
                ++before;
                if ( ch.chance( 1, 2) ) { * it = x; ++it; } else it = x;
                if ( it == end( out) ) eng::fail( ITER, "iterator of a live counterpart equals end()");
            }
            if ( it == end( out) || ! ( it != typename push_t::iterator() ) ) eng::fail( ITER, "iterator of a live counterpart equals end()");
        });
        for ( u32 v : vals) {
            used = true;
            if ( ! c) eng::fail( ITER | eng::VALID, "value missing");
            if ( K::key( * begin( c) ) != v) eng::fail( ITER | eng::VALUE, "another value");
            c();
        }
        if ( c) eng::fail( ITER | eng::VALID, "more values than were written");
    }
    if ( used && vals.size() >= 2) eng::nontrivial();
}

template< typename K > void either( eng::Choices & ch) { if ( ch.chance( 1, 2) ) run_push< K >( ch); else run_pull< K >( ch); }

}

namespace eng {
static void run( Choices & ch, Options const&) {
    w::reset();
    unsigned k = ch.below( 9); shape( k);
    switch ( k) {
    case 0: either< KInt >( ch); break;
    case 1: either< KRec >( ch); break;
    case 2: either< KTrk >( ch); break;
    case 3: either< KPtr >( ch); break;
    case 4: either< KRef >( ch); break;
    case 5: either< KCRef >( ch); break;
    case 6: either< KAmp >( ch); break;
    case 7: either< KAmpRef >( ch); break;
    default: run_pull< KMov >( ch); break;
    }
    if ( w::count( w::PAYLOAD_OBJ) ) fail( PAYLOAD, "transferred object still alive at the end");
}
Harness const harness = { "iter", run,
    "a case draws an element kind (int, class, tracked class, pointer, reference, const reference, classes with operator&, move-only), a value list, and a program of iterator operations: "
    "repeated * and ->, ++ in both forms, copies and comparisons with end / default iterators, explicit transfers in between, range-for with break, standard algorithms (for_each, accumulate, "
    "find_if, distance, equal, transform, copy, generate_n, vector construction, move_iterator, C++20 views) in the main context and inside coroutine functions, functions that stop early or throw. "
    "Oracle: the value list and the count of transfers. Non-trivial: at least two values and at least one iterator operation on them." };
}
