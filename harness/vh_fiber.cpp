// Boost.Context's installed library has no sanitizer-aware fibers; the
// sanitizer builds use the ucontext ones, whose two out-of-line pieces are here.
#if defined(BOOST_USE_UCONTEXT)
#include <boost/context/fiber_ucontext.hpp>
#include <boost/context/fiber.hpp>

namespace boost
{
namespace context
{
namespace detail
{
// the record of a thread's own stack lives as long as the thread
struct OwnStack
{
    fiber_activation_record main;
    fiber_activation_record* current = &main;
};
fiber_activation_record*& fiber_activation_record::current() noexcept
{
    static thread_local OwnStack own;
    return own.current;
}
fiber_activation_record_initializer::fiber_activation_record_initializer() noexcept
{
}
fiber_activation_record_initializer::~fiber_activation_record_initializer()
{
}
} // namespace detail
} // namespace context
} // namespace boost
#endif
