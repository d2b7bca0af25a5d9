// Bitcode-only pieces of libc / libstdc++ needed by the code under test.
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <list>
#include <map>
#include <string>
#include <unordered_map>
extern "C" {
static int g_errno;
int* __errno_location() noexcept { return &g_errno; }
size_t strlen(const char* s) noexcept { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) noexcept { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) noexcept { for (; n; n--, a++, b++) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) break; } return 0; }
char* strcpy(char* d, const char* s) noexcept { char* r = d; while ((*d++ = *s++)) {} return r; }
void* memchr(const void* p, int c, size_t n) noexcept { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return nullptr; }
char* strchr(const char* s, int c) noexcept { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
int socket(int, int, int) noexcept { return 3; }
int fcntl(int, int, ...) { return 0; }
int close(int) { return 0; }
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
int isxdigit(int c) noexcept { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isalpha(int c) noexcept { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) noexcept { return isalpha(c) || isdigit(c); }
int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
unsigned long __isoc23_strtoul(const char* s, char** end, int base) noexcept
{
    const char* p = s;
    while (isspace((unsigned char)*p)) p++;
    bool neg = false;
    if (*p == '+') p++; else if (*p == '-') { neg = true; p++; }
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) {
        char h = p[2];
        if ((h >= '0' && h <= '9') || (h >= 'a' && h <= 'f') || (h >= 'A' && h <= 'F')) { p += 2; base = 16; }
    }
    if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long v = 0; bool any = false, ovf = false;
    for (;; p++) {
        int d; char c = *p;
        if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
        if (d >= base) break;
        unsigned long nv;
        if (__builtin_mul_overflow(v, (unsigned long)base, &nv) || __builtin_add_overflow(nv, (unsigned long)d, &nv)) ovf = true; else v = nv;
        any = true;
    }
    if (end) *end = (char*)(any ? p : s);
    if (ovf) { g_errno = 34; return ~0ul; }
    return neg ? -v : v;
}
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) noexcept { return __isoc23_strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) noexcept
{
    unsigned long v = __isoc23_strtoul(s, e, b);
    return (long)v;
}
int pthread_mutex_lock(void*) { return 0; }
int pthread_mutex_unlock(void*) { return 0; }
int pthread_mutex_trylock(void*) { return 0; }
unsigned long pthread_self() { return 1; }
int pthread_once(int* f, void (*fn)()) { if (!*f) { *f = 1; fn(); } return 0; }
int vsnprintf(char* b, size_t n, const char*, __builtin_va_list) noexcept { if (n) b[0] = 0; return 0; }
int fprintf(FILE*, const char*, ...) { return 0; }
int vfprintf(FILE*, const char*, __builtin_va_list) { return 0; }
int fputc(int, FILE*) { return 0; }
static int pton4(const char* src, const char* end, unsigned char* dst)
{
    unsigned char tmp[4] = {}, *tp = tmp; bool saw = false; int octets = 0;
    while (src < end) {
        char c = *src++;
        if (c >= '0' && c <= '9') {
            unsigned v = *tp * 10u + (unsigned)(c - '0');
            if (saw && *tp == 0) return 0;
            if (v > 255) return 0;
            *tp = (unsigned char)v;
            if (!saw) { if (++octets > 4) return 0; saw = true; }
        } else if (c == '.' && saw) { if (octets == 4) return 0; *++tp = 0; saw = false; } else return 0;
    }
    if (octets < 4) return 0;
    for (int i = 0; i < 4; i++) dst[i] = tmp[i];
    return 1;
}
static int pton6(const char* src, const char* end, unsigned char* dst)
{
    unsigned char tmp[16] = {}, *tp = tmp, *endp = tmp + 16, *colon = nullptr;
    if (src == end) return 0;
    if (*src == ':') { ++src; if (src == end || *src != ':') return 0; }
    const char* tok = src; int seen = 0; unsigned val = 0;
    while (src < end) {
        char c = *src++; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
        if (d >= 0) { if (seen == 4) return 0; val = val << 4 | (unsigned)d; ++seen; continue; }
        if (c == ':') {
            tok = src;
            if (!seen) { if (colon) return 0; colon = tp; continue; }
            if (src == end || tp + 2 > endp) return 0;
            *tp++ = (unsigned char)(val >> 8); *tp++ = (unsigned char)val; seen = 0; val = 0;
            continue;
        }
        if (c == '.' && tp + 4 <= endp && pton4(tok, end, tp) > 0) { tp += 4; seen = 0; break; }
        return 0;
    }
    if (seen) { if (tp + 2 > endp) return 0; *tp++ = (unsigned char)(val >> 8); *tp++ = (unsigned char)val; }
    if (colon) {
        if (tp == endp) return 0;
        long n = tp - colon;
        for (long i = 1; i <= n; i++) { endp[-i] = colon[n - i]; }
        for (unsigned char* q = colon; q < endp - n; q++) *q = 0;
        tp = endp;
    }
    if (tp != endp) return 0;
    for (int i = 0; i < 16; i++) dst[i] = tmp[i];
    return 1;
}
int inet_pton(int af, const char* s, void* d) noexcept { return af == 2 ? pton4(s, s + strlen(s), (unsigned char*)d) : af == 10 ? pton6(s, s + strlen(s), (unsigned char*)d) : -1; }
void _ZSt21ios_base_library_initv() {}
long lround(double d) noexcept { return d >= 0 ? (long)(d + 0.5) : (long)(d - 0.5); }
}
namespace std
{
namespace __detail
{
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
    if (x._M_next != &x) {
        if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
    if (this != last) {
        last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
        _List_node_base* const tmp = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
    }
}
// same growth policy shape as libstdc++ (iteration order of unordered containers is unspecified anyway)
static const size_t primes[] = {2, 5, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
    if (n < sizeof(fast)) { if (n == 0) return 1; _M_next_resize = fast[n]; return fast[n]; }
    for (size_t p : primes) if (p >= n) { _M_next_resize = p; return p; }
    _M_next_resize = n | 1; return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
{
    if (ne + ni > _M_next_resize) {
        size_t want = ne + ni;
        if (_M_next_resize == 0 && want < 11) want = 11;
        if (want >= nb) { size_t g = nb * 2; if (want + 1 > g) g = want + 1; return {true, _M_next_bkt(g)}; }
        _M_next_resize = nb;
        return {false, 0};
    }
    return {false, 0};
}
} // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
    // any deterministic function will do; cheap on symbolic data: only length and first/last byte
    (void)seed;
    const unsigned char* s = (const unsigned char*)p;
    return n * 31 + (n ? s[0] + 7 * s[n - 1] : 0);
}
// red-black tree (same interface as libstdc++'s tree.cc)
typedef _Rb_tree_node_base NB;
NB* _Rb_tree_increment(NB* x) throw()
{
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { NB* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x;
}
const NB* _Rb_tree_increment(const NB* x) throw() { return _Rb_tree_increment(const_cast<NB*>(x)); }
NB* _Rb_tree_decrement(NB* x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { NB* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
    else { NB* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x;
}
const NB* _Rb_tree_decrement(const NB* x) throw() { return _Rb_tree_decrement(const_cast<NB*>(x)); }
static void rotl(NB* x, NB*& root)
{
    NB* y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
    y->_M_left = x; x->_M_parent = y;
}
static void rotr(NB* x, NB*& root)
{
    NB* y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
    y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, NB* x, NB* p, NB& h) throw()
{
    NB*& root = h._M_parent;
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        NB* const xpp = x->_M_parent->_M_parent;
        if (x->_M_parent == xpp->_M_left) {
            NB* const y = xpp->_M_right;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); }
        } else {
            NB* const y = xpp->_M_left;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); }
        }
    }
    root->_M_color = _S_black;
}
static NB* mn(NB* x) { while (x->_M_left) x = x->_M_left; return x; }
static NB* mx(NB* x) { while (x->_M_right) x = x->_M_right; return x; }
NB* _Rb_tree_rebalance_for_erase(NB* const z, NB& h) throw()
{
    NB*& root = h._M_parent; NB*& leftmost = h._M_left; NB*& rightmost = h._M_right;
    NB* y = z; NB* x = nullptr; NB* xp = nullptr;
    if (!y->_M_left) x = y->_M_right;
    else if (!y->_M_right) x = y->_M_left;
    else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
        else xp = y;
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
    } else {
        xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (leftmost == z) leftmost = !z->_M_right ? z->_M_parent : mn(x);
        if (rightmost == z) rightmost = !z->_M_left ? z->_M_parent : mx(x);
    }
    if (y->_M_color != _S_red) {
        while (x != root && (!x || x->_M_color == _S_black))
            if (x == xp->_M_left) {
                NB* w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
                if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break;
                }
            } else {
                NB* w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
                if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break;
                }
            }
        if (x) x->_M_color = _S_black;
    }
    return y;
}
} // namespace std
// std::call_once
namespace std { __thread void* __once_callable; __thread void (*__once_call)(); }
extern "C" void __once_proxy() { void (*f)() = std::__once_call; std::__once_call = nullptr; f(); }
