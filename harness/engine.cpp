#include "engine.hpp"

#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <map>
#include <sstream>
#include <unordered_set>

#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace eng {

// draws of the running case, visible to the parent even if the case ends the process
enum { MIRROR = 1 << 20 };
static std::uint32_t * mirror = nullptr;
static volatile std::uint32_t * mirror_n = nullptr;

// ---------------------------------------------------------------- Choices
static std::uint64_t splitmix( std::uint64_t & x) {
    std::uint64_t z = ( x += 0x9e3779b97f4a7c15ull);
    z = ( z ^ ( z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = ( z ^ ( z >> 27)) * 0x94d049bb133111ebull;
    return z ^ ( z >> 31);
}
Choices::Choices( std::uint64_t seed) : replay_( nullptr), pos_( 0), s_( seed) { rec_.reserve( 256); }
Choices::Choices( std::vector< std::uint32_t > const& r) : replay_( & r), pos_( 0), s_( 0) { rec_.reserve( r.size() + 16); }
std::uint64_t Choices::next_() { return splitmix( s_); }
std::uint32_t Choices::below( std::uint32_t n) {
    std::uint32_t v = 0;
    if ( n > 1) {
        if ( replay_) v = pos_ < replay_->size() ? ( * replay_)[pos_] % n : 0;
        else v = static_cast< std::uint32_t >( ( ( next_() >> 32) * n) >> 32);
    }
    ++pos_;
    rec_.push_back( v);
    if ( mirror && *mirror_n < MIRROR) { mirror[*mirror_n] = v; *mirror_n = *mirror_n + 1; }
    return v;
}
bool Choices::chance( std::uint32_t num, std::uint32_t den) { return below( den) >= den - num; }
int Choices::pick( std::vector< unsigned > const& w) {
    std::uint32_t sum = 0;
    for ( unsigned x : w) sum += x;
    if ( 0 == sum) { below( 1); return 0; }
    std::uint32_t v = below( sum);
    for ( std::size_t i = 0; i < w.size(); ++i) {
        if ( v < w[i]) return static_cast< int >( i);
        v -= w[i];
    }
    return 0;
}
std::uint32_t Choices::size( std::uint32_t max) {
    std::uint32_t k = below( 8);
    std::uint32_t m = k < 4 ? 4 : ( k < 7 ? 16 : max);
    if ( m > max) m = max;
    return below( m + 1);
}

// ---------------------------------------------------------------- shared state with the workers
enum { MSG = 4096, NSAMPLE = 3, SAMPLE = 6000, NLABEL = 160, LABEL = 56, BATCH = 4000, STDERRN = 6000 };
enum Verdict { V_NONE = 0, V_FAIL = 77, V_FOREIGN = 78, V_HANG = 79 };

struct Shm {
    volatile std::uint64_t  cur;            // case that runs
    volatile std::uint64_t  done;           // finished cases
    unsigned                aspect;
    char                    msg[MSG];
    char                    text[SAMPLE * 4];   // op log of the current verbose case
    std::uint64_t           hashes[BATCH];  // shape hash of non-trivial cases (0: trivial)
    std::uint64_t           traces[BATCH];
    std::uint32_t           nlabels;
    struct { char name[LABEL]; std::uint64_t n; } labels[NLABEL];
    std::uint32_t           nsamples;
    char                    samples[NSAMPLE][SAMPLE];
    std::uint64_t           known;
    char                    known_id[32];
    volatile std::uint32_t  nrec;
    std::uint64_t           draws;
    volatile std::uint32_t  soft, soft_total, soft_lost;    // foreign contradiction in the current case; such cases; of those that did not come to an end
};
static Shm * shm = nullptr;
static bool counting = false;
static Options opt;
static bool verbose_ = false;
static bool nontriv_ = false;
static std::uint64_t shape_ = 0, trace_ = 0;

bool verbose() { return verbose_; }
void nontrivial() { nontriv_ = true; }
void shape( std::uint64_t v) { shape_ = mix( shape_, v); }
void trace( std::uint64_t v) { trace_ = mix( trace_, v); }
void note( char const* fmt, ...) {
    if ( ! verbose_) return;
    char buf[512];
    va_list ap; va_start( ap, fmt); std::vsnprintf( buf, sizeof( buf), fmt, ap); va_end( ap);
    std::size_t n = std::strlen( shm->text);
    if ( n + std::strlen( buf) + 3 < sizeof( shm->text) ) { std::strcat( shm->text + n, buf); std::strcat( shm->text + n, "\n"); }
}
void label( char const* name) {
    if ( ! counting) return;
    for ( std::uint32_t i = 0; i < shm->nlabels; ++i)
        if ( 0 == std::strcmp( shm->labels[i].name, name) ) { ++shm->labels[i].n; return; }
    if ( shm->nlabels < NLABEL) {
        std::strncpy( shm->labels[shm->nlabels].name, name, LABEL - 1);
        shm->labels[shm->nlabels].n = 1;
        ++shm->nlabels;
    }
}
void known( char const* id) {
    if ( ! counting) return;
    ++shm->known;
    std::strncpy( shm->known_id, id, sizeof( shm->known_id) - 1);
}
unsigned (* attribute)( unsigned) = nullptr;

void fail( unsigned aspect, char const* fmt, ...) {
    if ( attribute) aspect = attribute( aspect);
    va_list ap; va_start( ap, fmt); std::vsnprintf( shm->msg, MSG, fmt, ap); va_end( ap);
    shm->aspect = aspect;
    note( "FAIL: %s", shm->msg);
    ::_exit( ( aspect & opt.mask) ? V_FAIL : V_FOREIGN);
}

static void arm( unsigned);
void soft( unsigned aspect, char const* fmt, ...) {
    if ( attribute) aspect = attribute( aspect);
    bool own = 0 != ( aspect & opt.mask);
    if ( own || ! shm->soft) {
        va_list ap; va_start( ap, fmt); std::vsnprintf( shm->msg, MSG, fmt, ap); va_end( ap);
        shm->aspect = aspect;
        note( "FAIL: %s", shm->msg);
    }
    if ( own) ::_exit( V_FAIL);
    if ( shm->soft) return;
    if ( shm->soft_lost >= 20 || shm->soft_total >= 20000) ::_exit( V_FOREIGN);
    shm->soft = 1;
    shm->soft_total = shm->soft_total + 1;
    arm( 1);
}

static void on_timer( int) { ::_exit( V_HANG); }

static unsigned cpu_limit = 20, wall_limit = 300;

static void arm( unsigned sec) {
    struct itimerval it; std::memset( & it, 0, sizeof( it) );
    it.it_value.tv_sec = sec;
    ::setitimer( ITIMER_VIRTUAL, & it, nullptr);
}

static std::uint64_t case_seed( std::uint64_t idx) {
    std::uint64_t h = mix( 0x1234567, opt.seed);
    for ( char c : opt.profile) h = mix( h, static_cast< unsigned char >( c) );
    for ( char const* p = harness.name; * p; ++p) h = mix( h, static_cast< unsigned char >( * p) );
    h = mix( h, opt.salt);
    return mix( h, idx);
}

static void child_setup( int errfd) {
    ::dup2( errfd, 2);
    static char alt[65536];
    stack_t ss; std::memset( & ss, 0, sizeof( ss) ); ss.ss_sp = alt; ss.ss_size = sizeof( alt);
    ::sigaltstack( & ss, nullptr);
    struct sigaction sa; std::memset( & sa, 0, sizeof( sa) );
    sa.sa_handler = on_timer; sa.sa_flags = SA_ONSTACK;
    ::sigaction( SIGVTALRM, & sa, nullptr);
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0;
    ::setrlimit( RLIMIT_CORE, & rl);
}

static void run_one( Choices & ch) {
    nontriv_ = false; shape_ = 1; trace_ = 1;
    shm->text[0] = 0;
    *mirror_n = 0;
    shm->soft = 0;
    arm( cpu_limit);
    harness.run( ch, opt);
    if ( shm->soft) ::_exit( V_FOREIGN);
    trace( ch.recorded().size() );
    arm( 0);
    if ( counting) shm->draws += ch.recorded().size();
}

struct Outcome { bool ok; int verdict; std::string what; };

// runs fn in a forked child
template< typename F >
static Outcome in_child( F f) {
    char name[] = "/tmp/verif_err_XXXXXX";
    int efd = ::mkstemp( name);
    if ( efd >= 0) ::unlink( name);
    shm->msg[0] = 0; shm->aspect = 0; shm->soft = 0;
    std::fflush( nullptr);
    pid_t pid = ::fork();
    if ( pid < 0) { std::perror( "fork"); std::exit( 2); }
    if ( 0 == pid) {
        child_setup( efd);
        f();
        std::fflush( nullptr);
        ::_exit( 0);
    }
    // wall-clock guard against blocking (no progress of shm->done within wall_limit)
    int st = 0;
    bool killed = false;
    std::uint64_t last = shm->done;
    std::time_t since = std::time( nullptr);
    unsigned us = 200;
    for (;;) {
        pid_t r = ::waitpid( pid, & st, WNOHANG);
        if ( r == pid) break;
        if ( r < 0 && errno != EINTR) break;
        ::usleep( us); if ( us < 5000) us += us / 2;
        if ( shm->done != last) { last = shm->done; since = std::time( nullptr); }
        if ( std::time( nullptr) - since > static_cast< std::time_t >( wall_limit) ) {
            ::kill( pid, SIGKILL); killed = true;
            ::waitpid( pid, & st, 0);
            break;
        }
    }
    Outcome o; o.ok = false; o.verdict = 0;
    std::string err;
    if ( efd >= 0) {
        char buf[STDERRN]; ::lseek( efd, 0, SEEK_SET);
        ssize_t n = ::read( efd, buf, sizeof( buf) );
        if ( n > 0) err.assign( buf, n);
        ::close( efd);
    }
    if ( shm->soft && ! ( WIFEXITED( st) && ( V_FAIL == WEXITSTATUS( st) || V_FOREIGN == WEXITSTATUS( st) ) ) ) { // a consequence of the foreign contradiction
        shm->soft_lost = shm->soft_lost + 1; o.verdict = V_FOREIGN; o.what = shm->msg; return o;
    }
    if ( killed) { o.verdict = V_HANG; o.what = "no progress (blocked)"; return o; }
    if ( WIFEXITED( st) && 0 == WEXITSTATUS( st) ) { o.ok = true; return o; }
    if ( WIFEXITED( st) && ( V_FAIL == WEXITSTATUS( st) || V_FOREIGN == WEXITSTATUS( st) ) ) {
        o.verdict = WEXITSTATUS( st); o.what = shm->msg;
        return o;
    }
    if ( WIFEXITED( st) && V_HANG == WEXITSTATUS( st) ) { o.verdict = V_HANG; o.what = "hang: CPU limit of one case exceeded"; return o; }
    std::ostringstream os;
    if ( WIFSIGNALED( st) ) os << "crash: signal " << WTERMSIG( st); else os << "crash: exit status " << WEXITSTATUS( st);
    if ( ! err.empty() ) os << "; stderr: " << err.substr( 0, 3000);
    o.verdict = V_FAIL; o.what = os.str();
    return o;
}

static std::string esc( std::string const& s) {
    std::string r;
    char b[8];
    for ( unsigned char c : s) {
        if ( c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ( c == '\n') r += "\\n";
        else if ( c < 32 || c > 126) { std::snprintf( b, sizeof( b), "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

static Outcome try_choices( std::vector< std::uint32_t > const& c, bool verb) {
    return in_child( [&]{ verbose_ = verb; Choices ch( c); run_one( ch); });
}

static double now() { struct timespec t; ::clock_gettime( CLOCK_MONOTONIC, & t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void shrink( std::vector< std::uint32_t > & c, double seconds, int verdict) {
    double end = now() + seconds;
    unsigned save_cpu = cpu_limit, save_wall = wall_limit;
    cpu_limit = 3; wall_limit = 20;
    auto bad = [&]( std::vector< std::uint32_t > const& x) {
        Outcome o = try_choices( x, false);
        return ! o.ok && verdict == o.verdict;
    };
    bool progress = true;
    while ( progress && now() < end) {
        progress = false;
        // truncate
        for ( std::size_t n = c.size() / 2; n > 0 && now() < end; n /= 2) {
            while ( c.size() > n && now() < end) {
                std::vector< std::uint32_t > x( c.begin(), c.end() - n);
                if ( ! bad( x) ) break;
                c.swap( x); progress = true;
            }
        }
        // delete chunks
        for ( std::size_t n = c.size() / 2; n > 0 && now() < end; n /= 2) {
            for ( std::size_t i = 0; i + n <= c.size() && now() < end; ) {
                std::vector< std::uint32_t > x( c);
                x.erase( x.begin() + i, x.begin() + i + n);
                if ( bad( x) ) { c.swap( x); progress = true; } else i += n;
            }
        }
        // zero / lower
        for ( std::size_t i = 0; i < c.size() && now() < end; ++i) {
            if ( 0 == c[i]) continue;
            std::vector< std::uint32_t > x( c);
            x[i] = 0;
            if ( bad( x) ) { c.swap( x); progress = true; continue; }
            x = c; x[i] = c[i] / 2;
            if ( x[i] != c[i] && bad( x) ) { c.swap( x); progress = true; continue; }
            x = c; x[i] = c[i] - 1;
            if ( bad( x) ) { c.swap( x); progress = true; }
        }
    }
    while ( ! c.empty() && 0 == c.back() ) c.pop_back();
    cpu_limit = save_cpu; wall_limit = save_wall;
}


static std::vector< std::uint32_t > mirrored() {
    return std::vector< std::uint32_t >( mirror, mirror + *mirror_n);
}

static int finish_usage() {
    std::fprintf( stderr, "usage: prog --prop P --profile X --mask M --seed S --first A --count N --out F [--cpu s] [--shrink s] [--traces F]\n"
                          "       prog ... --replay FILE (list of numbers)   |  --range A B (cases A..B in one process)\n");
    return 2;
}

int engine_main( int argc, char ** argv) {
    std::uint64_t first = 0, count = 1000, batch = BATCH, stride = 1;
    std::string out, replay, traces;
    double shrink_s = 40, time_limit = 0;
    bool diff = false;      // comparison of builds: every failure is just a trace value
    bool dump = false;      // print the choices of one case
    bool range = false; std::uint64_t ra = 0, rb = 0;
    opt.mask = ALL; opt.seed = 1; opt.salt = 0;
    for ( int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> char const* { return i + 1 < argc ? argv[++i] : "0"; };
        if ( a == "--prop") opt.prop = val();
        else if ( a == "--profile") opt.profile = val();
        else if ( a == "--mask") opt.mask = std::strtoul( val(), nullptr, 0);
        else if ( a == "--seed") opt.seed = std::strtoull( val(), nullptr, 0);
        else if ( a == "--salt") opt.salt = std::strtoull( val(), nullptr, 0);
        else if ( a == "--first") first = std::strtoull( val(), nullptr, 0);
        else if ( a == "--count") count = std::strtoull( val(), nullptr, 0);
        else if ( a == "--stride") stride = std::strtoull( val(), nullptr, 0);
        else if ( a == "--batch") batch = std::strtoull( val(), nullptr, 0);
        else if ( a == "--out") out = val();
        else if ( a == "--cpu") cpu_limit = std::strtoul( val(), nullptr, 0);
        else if ( a == "--wall") wall_limit = std::strtoul( val(), nullptr, 0);
        else if ( a == "--shrink") shrink_s = std::atof( val() );
        else if ( a == "--time") time_limit = std::atof( val() );
        else if ( a == "--replay") replay = val();
        else if ( a == "--traces") traces = val();
        else if ( a == "--diff") diff = true;
        else if ( a == "--dump") { dump = true; ra = std::strtoull( val(), nullptr, 0); }
        else if ( a == "--range") { range = true; ra = std::strtoull( val(), nullptr, 0); rb = std::strtoull( val(), nullptr, 0); }
        else return finish_usage();
    }
    if ( batch > BATCH) batch = BATCH;
    if ( 0 == batch) batch = 1;
    // same addresses in every run: failures that depend on addresses replay
    if ( nullptr == std::getenv( "VERIF_NOASLR") ) {
        ::setenv( "VERIF_NOASLR", "1", 1);
        int p = ::personality( 0xffffffff);
        if ( -1 != p && -1 != ::personality( p | ADDR_NO_RANDOMIZE) ) ::execv( "/proc/self/exe", argv);
    }
    shm = static_cast< Shm * >( ::mmap( nullptr, sizeof( Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0) );
    mirror = static_cast< std::uint32_t * >( ::mmap( nullptr, MIRROR * sizeof( std::uint32_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0) );
    if ( MAP_FAILED == static_cast< void * >( shm) || MAP_FAILED == static_cast< void * >( mirror) ) return 2;
    mirror_n = & shm->nrec;

    if ( ! replay.empty() ) {
        std::ifstream in( replay.c_str() );
        std::vector< std::uint32_t > c; std::uint32_t v;
        while ( in >> v) c.push_back( v);
        Outcome o = in_child( [&]{ verbose_ = true; Choices ch( c); run_one( ch); shm->traces[0] = trace_; });
        std::printf( "%s", shm->text);
        std::printf( "trace %llx\n", static_cast< unsigned long long >( o.ok ? shm->traces[0] : 0xbad0bad0bad0badull) );
        if ( o.ok) { std::printf( "replay: no violation\n"); return 0; }
        std::printf( "replay: %s%s\n", V_FOREIGN == o.verdict ? "(other property) " : "", o.what.c_str() );
        return V_FOREIGN == o.verdict ? 0 : 1;
    }
    auto run_range = [&]( std::uint64_t a, std::uint64_t b) {
        return in_child( [&]{
            for ( std::uint64_t i = a; i <= b; i += stride) { shm->cur = i; Choices ch( case_seed( i) ); run_one( ch); shm->done = shm->done + 1; }
        });
    };
    if ( range) {
        Outcome o = run_range( ra, rb);
        if ( o.ok) { std::printf( "replay: no violation\n"); return 0; }
        std::printf( "replay: case %llu: %s\n", static_cast< unsigned long long >( shm->cur), o.what.c_str() );
        return V_FOREIGN == o.verdict ? 0 : 1;
    }

    if ( dump) {
        in_child( [&]{ Choices ch( case_seed( ra) ); run_one( ch); });
        for ( std::uint32_t v : mirrored() ) std::printf( "%u ", v);
        std::printf( "\n");
        return 0;
    }
    double t0 = now();
    std::unordered_set< std::uint64_t > distinct;
    std::uint64_t evals = 0, nontriv = 0, foreign = 0, unconfirmed = 0;
    std::string foreign_msg, unconf_msg, violation, vio_text, vio_kind;
    std::vector< std::uint32_t > vio_choices;
    std::uint64_t vio_case = 0, vio_first = 0;
    bool vio_range = false;
    std::ofstream tf;
    if ( ! traces.empty() ) tf.open( traces.c_str(), std::ios::binary);

    std::uint64_t i = first, end = first + count * stride;
    while ( i < end && violation.empty() ) {
        if ( time_limit > 0 && now() - t0 > time_limit) break;
        std::uint64_t stop = i + batch * stride; if ( stop > end) stop = end;
        std::uint64_t begin = i;
        std::memset( shm->hashes, 0, sizeof( shm->hashes) );
        std::memset( shm->traces, 0, sizeof( shm->traces) );
        shm->cur = i;
        counting = true;
        Outcome o = in_child( [&]{
            for ( std::uint64_t c = begin; c < stop; c += stride) {
                shm->cur = c;
                Choices ch( case_seed( c) );
                run_one( ch);
                std::size_t k = ( c - begin) / stride;
                shm->traces[k] = trace_;
                if ( nontriv_) shm->hashes[k] = shape_ ? shape_ : 1;
                shm->done = shm->done + 1;
            }
        });
        counting = false;
        std::uint64_t ran = o.ok ? ( stop - begin) / stride : ( shm->cur - begin) / stride + 1;
        evals += ran;
        for ( std::uint64_t k = 0; k < ran; ++k) if ( shm->hashes[k]) { ++nontriv; distinct.insert( shm->hashes[k]); }
        if ( ! o.ok && ran <= BATCH) shm->traces[ran - 1] = 0xbad0bad0bad0badull;
        if ( tf) tf.write( reinterpret_cast< char const* >( shm->traces), ran * sizeof( std::uint64_t) );
        i = begin + ran * stride;
        if ( o.ok) continue;
        if ( V_FOREIGN == o.verdict || diff) {
            ++foreign; if ( foreign_msg.empty() ) foreign_msg = o.what;
            if ( foreign > 400) break;
            continue;
        }
        // confirm in fresh processes
        std::uint64_t bad = shm->cur;
        int solo = 0;
        Outcome oo = o; std::vector< std::uint32_t > rec;
        for ( int k = 0; k < 3; ++k) {
            Outcome p = in_child( [&]{ Choices ch( case_seed( bad) ); run_one( ch); });
            if ( ! p.ok && V_FOREIGN != p.verdict) { ++solo; oo = p; rec = mirrored(); }
        }
        if ( solo >= 2) {
            violation = oo.what; vio_case = bad; vio_choices = rec;
            if ( rec.size() < MIRROR) {
                shrink( vio_choices, shrink_s, oo.verdict);
                Outcome p = try_choices( vio_choices, true);
                if ( p.ok || V_FOREIGN == p.verdict) { vio_choices = rec; p = try_choices( vio_choices, true); }
                if ( ! p.ok) violation = p.what;
                vio_text = shm->text;
            }
            continue;
        }
        int rng = 0;
        for ( int k = 0; k < 3; ++k) {
            Outcome p = run_range( begin, bad);
            if ( ! p.ok && V_FOREIGN != p.verdict) { ++rng; oo = p; }
        }
        if ( rng >= 2) {
            // shorten the range from the front
            std::uint64_t a = begin, step = ( bad - begin) / stride / 2;
            double e = now() + shrink_s;
            while ( step > 0 && now() < e) {
                if ( a + step * stride <= bad) {
                    Outcome p = run_range( a + step * stride, bad);
                    if ( ! p.ok && V_FOREIGN != p.verdict) { a += step * stride; continue; }
                }
                step /= 2;
            }
            violation = oo.what + " (needs the preceding cases in the same process)";
            vio_range = true; vio_first = a; vio_case = bad;
            continue;
        }
        ++unconfirmed; if ( unconf_msg.empty() ) unconf_msg = o.what;
        if ( unconfirmed > 50) break;
    }
    if ( tf) tf.close();
    // samples
    std::vector< std::string > samples;
    for ( std::uint64_t k = first; k < end && k < first + 40 * stride && samples.size() < NSAMPLE; k += stride) {
        if ( ! violation.empty() ) break;
        std::uint64_t & flag = shm->hashes[0]; flag = 0;
        Outcome p = in_child( [&]{ verbose_ = true; Choices ch( case_seed( k) ); run_one( ch); flag = nontriv_ ? 1 : 0; });
        if ( p.ok && flag) samples.push_back( std::string( shm->text).substr( 0, 1500) );
    }
    std::ostringstream js;
    js << "{\"harness\":\"" << harness.name << "\",\"rule\":\"" << esc( harness.rule ? harness.rule : "") << "\",\"prop\":\"" << esc( opt.prop) << "\",\"profile\":\"" << esc( opt.profile)
       << "\",\"seed\":" << opt.seed << ",\"evaluations\":" << evals << ",\"nontrivial\":" << nontriv << ",\"foreign\":" << foreign
       << ",\"foreign_msg\":\"" << esc( foreign_msg) << "\",\"unconfirmed\":" << unconfirmed << ",\"unconfirmed_msg\":\"" << esc( unconf_msg)
       << "\",\"known\":" << shm->known << ",\"known_id\":\"" << esc( shm->known_id) << "\",\"draws\":" << shm->draws << ",\"wall_s\":" << now() - t0;
    js << ",\"labels\":{";
    for ( std::uint32_t k = 0; k < shm->nlabels; ++k) js << ( k ? "," : "") << "\"" << esc( shm->labels[k].name) << "\":" << shm->labels[k].n;
    js << "},\"samples\":[";
    for ( std::size_t k = 0; k < samples.size(); ++k) js << ( k ? "," : "") << "\"" << esc( samples[k]) << "\"";
    js << "],\"distinct\":" << distinct.size(); // the set itself goes to a side file so that shards can be united

    if ( ! violation.empty() ) {
        js << ",\"violation\":{\"message\":\"" << esc( violation) << "\",\"case\":" << vio_case << ",\"range\":" << ( vio_range ? "true" : "false")
           << ",\"first\":" << vio_first << ",\"stride\":" << stride << ",\"text\":\"" << esc( vio_text) << "\",\"choices\":[";
        for ( std::size_t k = 0; k < vio_choices.size(); ++k) js << ( k ? "," : "") << vio_choices[k];
        js << "]}";
    }
    js << "}\n";
    if ( out.empty() ) std::printf( "%s", js.str().c_str() );
    else {
        std::ofstream o( out.c_str() ); o << js.str();
        std::ofstream h( ( out + ".set").c_str(), std::ios::binary);
        for ( std::uint64_t v : distinct) h.write( reinterpret_cast< char const* >( & v), sizeof( v) );
    }
    return violation.empty() ? 0 : 1;
}

}

int main( int argc, char ** argv) { return eng::engine_main( argc, argv); }
