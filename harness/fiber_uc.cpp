#if defined(BOOST_USE_UCONTEXT)
#include <boost/context/fiber_ucontext.hpp>
namespace boost { namespace context { namespace detail {
static fiber_activation_record *& cur() noexcept { static thread_local fiber_activation_record * p = nullptr; return p; }
fiber_activation_record *& fiber_activation_record::current() noexcept {
    static thread_local fiber_activation_record main_rec;
    static thread_local bool init = false;
    if (!init) { init = true; cur() = &main_rec; }
    return cur();
}
}}}
#endif
