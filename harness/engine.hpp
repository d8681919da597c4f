// Small property-based-testing engine: choice sequences, forked workers, confirmation, shrinking.
// C++11 only, independent of the code under test.
#ifndef VERIF_ENGINE_HPP
#define VERIF_ENGINE_HPP

#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace eng {

// ---- choice sequence: every random decision of a case is drawn here --------------------------
// A case is the list of the numbers drawn. Replaying a (possibly edited) list is total: values are
// reduced modulo the requested range, and 0 is returned behind the end.
class Choices {
    std::vector< std::uint32_t >            rec_;
    std::vector< std::uint32_t > const  *   replay_;
    std::size_t                             pos_;
    std::uint64_t                           s_;
    std::uint64_t next_();
public:
    explicit Choices( std::uint64_t seed);
    explicit Choices( std::vector< std::uint32_t > const& replay);
    // uniform in [0,n), n >= 1
    std::uint32_t below( std::uint32_t n);
    // true with probability num/den; false is the simple value
    bool chance( std::uint32_t num, std::uint32_t den);
    // in [lo,hi]
    std::uint32_t range( std::uint32_t lo, std::uint32_t hi) { return lo + below( hi - lo + 1); }
    // index with probability w[i]/sum(w); index of the first positive weight is the simple value
    int pick( std::vector< unsigned > const& w);
    // skewed size: mostly small, sometimes up to max
    std::uint32_t size( std::uint32_t max);
    std::vector< std::uint32_t > const& recorded() const { return rec_; }
};

// ---- reporting from inside a case ------------------------------------------------------------
// which part of the specification an observation contradicts
enum Aspect {
    CONTROL = 1u << 0, FRAME   = 1u << 1, VALUE   = 1u << 2, VALID   = 1u << 3,
    EXC     = 1u << 4, UNWIND  = 1u << 5, STACK   = 1u << 6, PAYLOAD = 1u << 7,
    FUNCTOR = 1u << 8, ITER    = 1u << 9, ALIGN   = 1u << 10, STABLE = 1u << 11,
    FAULT   = 1u << 12, THREAD = 1u << 13, PIPE   = 1u << 14, MOVE   = 1u << 15,
    ALLOC   = 1u << 16,
    ALL     = 0xffffffffu
};

#if defined(__GNUC__)
# define VERIF_PRINTF(a,b) __attribute__((format(printf,a,b)))
#else
# define VERIF_PRINTF(a,b)
#endif

// contradiction: ends the process. Own aspects give a violation, others are counted as foreign.
[[noreturn]] void fail( unsigned aspect, char const* fmt, ...) VERIF_PRINTF(2,3);
// the same, but a contradiction of a foreign aspect lets the case go on: its consequences may contradict an own one
void soft( unsigned aspect, char const* fmt, ...) VERIF_PRINTF(2,3);
// optional: the harness knows more about the moment of the contradiction than its observer does
extern unsigned (* attribute)( unsigned aspect);
// known finding observed (counted, the case goes on)
void known( char const* id);
// classification counter
void label( char const* name);
// marks the current case as non-trivial
void nontrivial();
// structure hash (distinctness) and observable trace hash (comparison of configurations)
void shape( std::uint64_t v);
void trace( std::uint64_t v);
bool verbose();
void note( char const* fmt, ...) VERIF_PRINTF(1,2);

inline std::uint64_t mix( std::uint64_t h, std::uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + ( h << 6) + ( h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
    return h;
}

struct Options {
    std::string     prop;
    std::string     profile;
    unsigned        mask;
    std::uint64_t   seed;
    std::uint64_t   salt;
};

// implemented by each harness
struct Harness {
    char const  *   name;
    void        (*  run)( Choices &, Options const&);
    // optional: rule of what is generated and what is non-trivial
    char const  *   rule;
};
extern Harness const harness;

}

#endif
