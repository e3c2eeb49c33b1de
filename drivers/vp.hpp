// Opaque element type of the verification drivers: every operation on it is an external function with a contract.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <stdexcept>
#include <tuple>
#include <utility>
extern "C" {
void vp_copy(void *, const void *) noexcept;
void vp_move(void *, void *) noexcept;
void vp_acopy(void *, const void *) noexcept;
void vp_amove(void *, void *) noexcept;
void vp_dtor(void *) noexcept;
void vp_init(void *, std::uint64_t) noexcept;
void vp_default(void *) noexcept;
std::uint64_t vp_hash(const void *) noexcept;
bool vp_eq(const void *, const void *) noexcept;
bool vp_same(const void *, const void *) noexcept;
void *vp_alloc(std::size_t n, std::size_t sz) noexcept;
void vp_dealloc(void *, std::size_t n, std::size_t sz) noexcept;
}
struct Obj
{
	std::uint64_t v;
	Obj() noexcept { vp_default(this); }
	Obj(const Obj &o) noexcept { vp_copy(this, &o); }
	Obj(Obj &&o) noexcept { vp_move(this, &o); }
	Obj &operator=(const Obj &o) noexcept { vp_acopy(this, &o); return *this; }
	Obj &operator=(Obj &&o) noexcept { vp_amove(this, &o); return *this; }
	~Obj() { vp_dtor(this); }
	friend bool operator==(const Obj &a, const Obj &b) noexcept { return vp_same(&a, &b); }
	friend bool operator!=(const Obj &a, const Obj &b) noexcept { return !vp_same(&a, &b); }
};
struct H { std::size_t operator()(const Obj &o) const noexcept { return vp_hash(&o); } };
struct E { bool operator()(const Obj &a, const Obj &b) const noexcept { return vp_eq(&a, &b); } };
template<class T>
struct A
{
	using value_type = T;
	using is_always_equal = std::true_type;
	A() noexcept = default;
	template<class U> A(const A<U> &) noexcept {}
	T *allocate(std::size_t n) noexcept { return (T *) vp_alloc(n, sizeof(T)); }
	void deallocate(T *p, std::size_t n) noexcept { vp_dealloc(p, n, sizeof(T)); }
	bool operator==(const A &) const noexcept { return true; }
	bool operator!=(const A &) const noexcept { return false; }
};
