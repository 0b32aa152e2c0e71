// Fresh memory is zero: apertium/perceptron_spec.h reads the type of stack values that were
// never given one (a known finding), and what that does must not depend on the allocator.
#include <cstdlib>
#include <new>
void* operator new(std::size_t n) {
  if (void* p = std::calloc(1, n ? n : 1)) return p;
  throw std::bad_alloc();
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
