// C++ allocations (the ANTLR front end and the runner itself) use a plain size-class
// allocator: they are not under test and the address sanitizer's allocator makes
// every forked run pay for them.  The C code's malloc keeps the sanitizer.
#include <cstddef>
#include <cstdlib>
#include <new>
#include <sys/mman.h>

namespace {
constexpr size_t MAXC = 2048, STEP = 16;
struct Node {
	Node* next;
};
Node* freel[MAXC / STEP + 1];
char *bump, *bend;
struct Big {
	size_t n;
	size_t pad;
};
inline void* get(size_t n)
{
	size_t c = (n + STEP + STEP - 1) / STEP; // one header granule
	if (c <= MAXC / STEP) {
		Node* p = freel[c];
		if (p) {
			freel[c] = p->next;
		} else {
			if ((size_t)(bend - bump) < c * STEP) {
				bump = (char*)mmap(nullptr, 4 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
				if (bump == MAP_FAILED) {
					abort();
				}
				bend = bump + (4 << 20);
			}
			p = (Node*)bump;
			bump += c * STEP;
		}
		*(size_t*)p = c;
		return (char*)p + STEP;
	}
	size_t t = (n + 4096 + STEP) & ~(size_t)4095;
	char* p = (char*)mmap(nullptr, t, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) {
		abort();
	}
	((size_t*)p)[0] = 0;
	((size_t*)p)[1] = t;
	return p + STEP;
}
inline void put(void* v)
{
	if (!v) {
		return;
	}
	char* p = (char*)v - STEP;
	size_t c = *(size_t*)p;
	if (c) {
		((Node*)p)->next = freel[c];
		freel[c] = (Node*)p;
		return;
	}
	munmap(p, ((size_t*)p)[1]);
}
} // namespace

void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }
