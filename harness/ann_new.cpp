/* The C++ parts of examples/ann allocate with the interposed allocator too. */
#include <new>
#include <cstddef>
extern "C" { void* vf_malloc(std::size_t n); void vf_free(void* p); }
void* operator new(std::size_t n) { void* p = vf_malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { void* p = vf_malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { vf_free(p); }
void operator delete[](void* p) noexcept { vf_free(p); }
void operator delete(void* p, std::size_t) noexcept { vf_free(p); }
void operator delete[](void* p, std::size_t) noexcept { vf_free(p); }
