// Source form of the polymorphic memory resources that libstdc++ only ships as compiled code, so that they can be executed symbolically.
#pragma once
#include <memory_resource>
#include <new>
namespace std::pmr {
memory_resource::~memory_resource() = default;
namespace { struct plain_resource final : memory_resource {
  void *do_allocate(size_t n, size_t) override { return ::operator new(n); }
  void do_deallocate(void *p, size_t, size_t) override { ::operator delete(p); }
  bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
}; [[clang::no_destroy]] plain_resource plain; }
memory_resource *new_delete_resource() noexcept { return &plain; }
memory_resource *get_default_resource() noexcept { return &plain; }
class monotonic_buffer_resource::_Chunk { public: _Chunk *next; size_t size; };
void monotonic_buffer_resource::_M_new_buffer(size_t bytes, size_t) {
  const size_t n = (bytes > _M_next_bufsiz ? bytes : _M_next_bufsiz) + 32; char *p = static_cast<char *>(_M_upstream->allocate(n, 16));
  _Chunk *c = reinterpret_cast<_Chunk *>(p); c->next = _M_head; c->size = n; _M_head = c; _M_current_buf = p + 32; _M_avail = n - 32; _M_next_bufsiz *= 2;
}
void monotonic_buffer_resource::_M_release_buffers() noexcept { while (_M_head) { _Chunk *c = _M_head; _M_head = c->next; _M_upstream->deallocate(c, c->size, 16); } }
monotonic_buffer_resource::~monotonic_buffer_resource() { release(); }
}
