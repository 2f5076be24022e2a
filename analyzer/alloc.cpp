// Small-object allocator: the analyser is single-threaded and allocates very many small values.
#include <cstdint>
#include <cstdlib>
#include <new>
#include <sys/mman.h>
namespace {
const size_t ARENA = (size_t)8 << 30, PAGE = 1 << 16;
char *base = nullptr, *top = nullptr, *end_ = nullptr; bool tried = false;
uint8_t cls[ARENA / PAGE];
struct Node { Node *next; };
Node *freeL[33]; char *cur[33], *lim[33];
inline void *take(size_t c) {
  if (Node *n = freeL[c]) { freeL[c] = n->next; return n; }
  if (cur[c] == lim[c]) {
    if (!tried) {
      tried = true;
      void *p = mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (p != MAP_FAILED) { base = (char *)(((uintptr_t)p + PAGE - 1) & ~(uintptr_t)(PAGE - 1)); top = base; end_ = (char *)p + ARENA - PAGE; }
    }
    if (!base || top + PAGE > end_) return nullptr;
    cls[(top - base) / PAGE] = (uint8_t)c;
    cur[c] = top; lim[c] = top + PAGE / (c * 16) * (c * 16); top += PAGE;
  }
  void *r = cur[c]; cur[c] += c * 16; return r;
}
}
void *operator new(size_t n) {
  if (n <= 512) { size_t c = n ? (n + 15) / 16 : 1; if (void *p = take(c)) return p; }
  if (void *p = malloc(n)) return p;
  throw std::bad_alloc();
}
void operator delete(void *p) noexcept {
  if (!p) return;
  char *q = (char *)p;
  if (q >= base && q < top) { uint8_t c = cls[(q - base) / PAGE]; Node *n = (Node *)p; n->next = freeL[c]; freeL[c] = n; return; }
  free(p);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void *operator new[](size_t n) { return operator new(n); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
