// std::allocator and std::pmr allocators routed to the ledger.
#ifndef MC_H_NEW_HPP
#define MC_H_NEW_HPP
#include "types.hpp"
#if __cplusplus >= 201703L
#include <memory_resource>
struct MemRes : std::pmr::memory_resource {
  int id;
  explicit MemRes(int i) : id(i) {}
  void* do_allocate(std::size_t bytes, std::size_t align) override {
    return w::arena_alloc(id, al_class(id), 1, bytes, align, nullptr);
  }
  void do_deallocate(void* p, std::size_t bytes, std::size_t) override {
    w::arena_dealloc(id, al_class(id), p, 1, bytes, nullptr);
  }
  bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override {
    return al_class(id) == al_class(static_cast<const MemRes&>(o).id);
  }
};
inline MemRes& mem_res(int i) {
  static MemRes r[4] = {MemRes(0), MemRes(1), MemRes(2), MemRes(3)};
  return r[i];
}
static const bool pmr_default_set =
    (std::pmr::set_default_resource(&mem_res(3)), true);
template <class T>
struct AlMake<std::pmr::polymorphic_allocator<T>> {
  static std::pmr::polymorphic_allocator<T> make(int id) { return &mem_res(id); }
  static int id(const std::pmr::polymorphic_allocator<T>& a) {
    return static_cast<MemRes*>(a.resource())->id;
  }
};
#endif
#endif
