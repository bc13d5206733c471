// Model of the C/C++ runtime the code under test links with, as ordinary C++ executed by the symbolic engine.
#include <cerrno>
#include <cmath>
#include <climits>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <new>
#include <ostream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <valarray>

extern "C" {
int tsx_strtod_concrete(const char *, char **, double *, int *);
void *tsx_exc_pop(void **dtor);
void tsx_exc_free(void *);
void tsx_skip(const char *);
}

// ---- exceptions ----
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }

static const char *dupText(const char *s, size_t n) {
    char *p = new char[n + 1];
    memcpy(p, s, n);
    p[n] = 0;
    return p;
}
__cow_string::__cow_string() { _M_p = dupText("", 0); }
__cow_string::__cow_string(const std::string &s) { _M_p = dupText(s.data(), s.size()); }
__cow_string::__cow_string(const char *s, size_t n) { _M_p = dupText(s, n); }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = dupText(o._M_p, strlen(o._M_p)); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept {
    const char *q = dupText(o._M_p, strlen(o._M_p));
    delete[] _M_p;
    _M_p = q;
    return *this;
}
__cow_string::~__cow_string() { delete[] _M_p; }
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = dupText(o._M_p, strlen(o._M_p)); }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { return *this = (const __cow_string &)o; }

#define EXC_BASE(T)                                                                                                    \
    T::T(const string &s) : exception(), _M_msg(s) {}                                                                  \
    T::T(const char *s) : exception(), _M_msg(s, strlen(s)) {}                                                         \
    T::T(T &&o) noexcept : exception(), _M_msg(o._M_msg) {}                                                            \
    T &T::operator=(T &&o) noexcept { _M_msg = o._M_msg; return *this; }                                               \
    T::T(const T &o) noexcept : exception(), _M_msg(o._M_msg) {}                                                       \
    T &T::operator=(const T &o) noexcept { _M_msg = o._M_msg; return *this; }                                          \
    T::~T() noexcept {}                                                                                                \
    const char *T::what() const noexcept { return _M_msg._M_p; }
EXC_BASE(logic_error)
EXC_BASE(runtime_error)
#define EXC_SUB(T, B)                                                                                                  \
    T::T(const string &s) : B(s) {}                                                                                    \
    T::T(const char *s) : B(s) {}                                                                                      \
    T::~T() noexcept {}
EXC_SUB(domain_error, logic_error)
EXC_SUB(invalid_argument, logic_error)
EXC_SUB(length_error, logic_error)
EXC_SUB(out_of_range, logic_error)
EXC_SUB(range_error, runtime_error)
EXC_SUB(overflow_error, runtime_error)
EXC_SUB(underflow_error, runtime_error)

void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }

// ---- streams ----
static tsx_buf theSink;
static struct SinkInit { SinkInit() { theSink.keep = false; } } sinkInit __attribute__((init_priority(101)));
ostream cout __attribute__((init_priority(102))) (&theSink);
ostream cerr __attribute__((init_priority(102))) (&theSink);
ostream clog __attribute__((init_priority(102))) (&theSink);
static tsx_buf theSource;
istream cin __attribute__((init_priority(102))) (&theSource);
template ostream &operator<<(ostream &, const string &);

// ---- red-black trees ----
static _Rb_tree_node_base *incr(_Rb_tree_node_base *x) throw() {
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
    } else {
        _Rb_tree_node_base *y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y;
    }
    return x;
}
static _Rb_tree_node_base *decr(_Rb_tree_node_base *x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) {
        _Rb_tree_node_base *y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        x = y;
    } else {
        _Rb_tree_node_base *y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        x = y;
    }
    return x;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return incr(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return incr(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return decr(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return decr(const_cast<_Rb_tree_node_base *>(x)); }
static void rotL(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
    _Rb_tree_node_base *y = x->_M_right;
    x->_M_right = y->_M_left;
    if (y->_M_left) y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
    else x->_M_parent->_M_right = y;
    y->_M_left = x;
    x->_M_parent = y;
}
static void rotR(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
    _Rb_tree_node_base *y = x->_M_left;
    x->_M_left = y->_M_right;
    if (y->_M_right) y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
    else x->_M_parent->_M_left = y;
    y->_M_right = x;
    x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
    _Rb_tree_node_base *&root = h._M_parent;
    x->_M_parent = p;
    x->_M_left = 0;
    x->_M_right = 0;
    x->_M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        _Rb_tree_node_base *const g = x->_M_parent->_M_parent;
        if (x->_M_parent == g->_M_left) {
            _Rb_tree_node_base *const u = g->_M_right;
            if (u && u->_M_color == _S_red) {
                x->_M_parent->_M_color = _S_black;
                u->_M_color = _S_black;
                g->_M_color = _S_red;
                x = g;
            } else {
                if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); }
                x->_M_parent->_M_color = _S_black;
                g->_M_color = _S_red;
                rotR(g, root);
            }
        } else {
            _Rb_tree_node_base *const u = g->_M_left;
            if (u && u->_M_color == _S_red) {
                x->_M_parent->_M_color = _S_black;
                u->_M_color = _S_black;
                g->_M_color = _S_red;
                x = g;
            } else {
                if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); }
                x->_M_parent->_M_color = _S_black;
                g->_M_color = _S_red;
                rotL(g, root);
            }
        }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
    // unlinks z; the colours are not maintained (balance is not observable)
    _Rb_tree_node_base *&root = h._M_parent;
    _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
    if (!y->_M_left) x = y->_M_right;
    else if (!y->_M_right) x = y->_M_left;
    else {
        y = y->_M_right;
        while (y->_M_left) y = y->_M_left;
        x = y->_M_right;
    }
    if (y != z) {
        z->_M_left->_M_parent = y;
        y->_M_left = z->_M_left;
        if (y != z->_M_right) {
            xp = y->_M_parent;
            if (x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        } else xp = y;
        if (root == z) root = y;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
        else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        y->_M_color = z->_M_color;
        y = z;
    } else {
        xp = y->_M_parent;
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
        else z->_M_parent->_M_right = x;
        if (h._M_left == z) {
            if (!z->_M_right) h._M_left = z->_M_parent;
            else { _Rb_tree_node_base *m = x; while (m->_M_left) m = m->_M_left; h._M_left = m; }
        }
        if (h._M_right == z) {
            if (!z->_M_left) h._M_right = z->_M_parent;
            else { _Rb_tree_node_base *m = x; while (m->_M_right) m = m->_M_right; h._M_right = m; }
        }
    }
    if (root) root->_M_color = _S_black;
    return y;
}
} // namespace std
#include <list>
#include <unordered_map>
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *q = _M_prev; q->_M_next = n; n->_M_prev = q; }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    auto fix = [](_List_node_base &to, _List_node_base *n, _List_node_base *p, _List_node_base *old) {
        if (n == old) { to._M_next = to._M_prev = &to; return; }
        to._M_next = n; to._M_prev = p; n->_M_prev = &to; p->_M_next = &to;
    };
    _List_node_base *xn = x._M_next, *xp = x._M_prev, *yn = y._M_next, *yp = y._M_prev;
    fix(x, yn, yp, &y);
    fix(y, xn, xp, &x);
}
void _List_node_base::_M_reverse() noexcept {
    _List_node_base *t = this;
    do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
    if (this != l) {
        l->_M_prev->_M_next = this;
        f->_M_prev->_M_next = l;
        this->_M_prev->_M_next = f;
        _List_node_base *t = this->_M_prev;
        this->_M_prev = l->_M_prev;
        l->_M_prev = f->_M_prev;
        f->_M_prev = t;
    }
}
} }
namespace std {
// ---- gslice ----
gslice::_Indexer::_Indexer(size_t o, const valarray<size_t> &l, const valarray<size_t> &s)
    : _M_count(1), _M_start(o), _M_size(l), _M_stride(s), _M_index(l.size() == 0 ? 0 : [&] { size_t n = 1; for (size_t i = 0; i < l.size(); i++) n *= l[i]; return n; }()) {
    size_t n = _M_index.size();
    size_t d = l.size();
    for (size_t k = 0; k < n; k++) {
        size_t r = k, a = o;
        for (size_t j = d; j-- > 0;) { a += (r % l[j]) * s[j]; r /= l[j]; }
        _M_index[k] = a;
    }
}
// ---- hash tables ----
// One hash value for every text: which value a hash function has must not matter, and comparing keys is cheaper than hashing symbolic ones.
size_t _Hash_bytes(const void *, size_t, size_t seed) { return seed; }
size_t _Fnv_hash_bytes(const void *, size_t, size_t seed) { return seed; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    static const size_t primes[] = {2, 5, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753};
    for (size_t p : primes) if (p >= n) { _M_next_resize = p; return p; }
    _M_next_resize = n;
    return n;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
    if (elt + ins <= _M_next_resize) return {false, 0};
    size_t want = elt + ins;
    if (_M_next_resize == 0 && want < 11) want = 11;
    if (want < bkt) { _M_next_resize = bkt; return {false, 0}; }
    size_t n = want + 1;
    if (n < bkt * 2) n = bkt * 2;
    return {true, _M_next_bkt(n)};
}
} // namespace __detail
} // namespace std

// ---- end of a handler ----
extern "C" void __cxa_end_catch() {
    void *dtor = nullptr;
    if (void *p = tsx_exc_pop(&dtor)) {
        if (dtor) ((void (*)(void *))dtor)(p);
        tsx_exc_free(p);
    }
}

// ---- C library ----
extern "C" {
static int theErrno;
int *__errno_location() { return &theErrno; }
char __libc_single_threaded = 1;
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) {
    while (*a && *a == *b) { a++; b++; }
    return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int strncmp(const char *a, const char *b, size_t n) {
    for (; n; n--, a++, b++) if (*a != *b || !*a) return (int)(unsigned char)*a - (int)(unsigned char)*b;
    return 0;
}
char *tsx_strchr(const char *, int) __asm__("strchr");
void *tsx_memchr(const void *, int, size_t) __asm__("memchr");
char *tsx_strchr(const char *s, int c) {
    for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; }
}
void *tsx_memchr(const void *p, int c, size_t n) {
    const unsigned char *s = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i);
    return nullptr;
}
char *tsx_strrchr(const char *, int) __asm__("strrchr");
char *tsx_strstr(const char *, const char *) __asm__("strstr");
char *tsx_strpbrk(const char *, const char *) __asm__("strpbrk");
char *tsx_strrchr(const char *s, int c) {
    const char *r = nullptr;
    for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; }
}
char *tsx_strstr(const char *s, const char *t) {
    size_t n = strlen(t);
    for (;; s++) { if (strncmp(s, t, n) == 0) return (char *)s; if (!*s) return nullptr; }
}
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s++)) d++; return d; }
char *strncpy(char *d, const char *s, size_t n) {
    size_t i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) {
    char *r = d;
    d += strlen(d);
    while (n-- && *s) *d++ = *s++;
    *d = 0;
    return r;
}
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && tsx_strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !tsx_strchr(a, s[n])) n++; return n; }
char *tsx_strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : nullptr; }
// character classes of the "C" locale, without branches
int isspace(int c) { return (int)((unsigned)(c == 32) | ((unsigned)(c >= 9) & (unsigned)(c <= 13))); }
int isdigit(int c) { return (int)((unsigned)(c >= '0') & (unsigned)(c <= '9')); }
int isalpha(int c) { unsigned l = (unsigned)c | 32u; return (int)((unsigned)(l >= 'a') & (unsigned)(l <= 'z') & (unsigned)(c < 128)); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isupper(int c) { return (int)((unsigned)(c >= 'A') & (unsigned)(c <= 'Z')); }
int islower(int c) { return (int)((unsigned)(c >= 'a') & (unsigned)(c <= 'z')); }
int isxdigit(int c) { unsigned l = (unsigned)c | 32u; return isdigit(c) | (int)((unsigned)(l >= 'a') & (unsigned)(l <= 'f')); }
int ispunct(int c) { return (int)((unsigned)(c > 32) & (unsigned)(c < 127) & (unsigned)!isalnum(c)); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
static int lowerIs(char c, char l) { return (int)((unsigned)(c == l) | (unsigned)(c == l - 32)); }
static bool word(const char *s, const char *w) {
    for (; *w; ++w, ++s) if (!lowerIs(*s, *w)) return false;
    return true;
}
static double pow10i(int k) { double r = 1; while (k-- > 0) r *= 10; return r; }
static char oneOf(char c) {
    static const char cand[] = ".eE-+0123456789";
    int i = 0;
    while (cand[i] && cand[i] != c) ++i;
    return cand[i];
}
double strtod(const char *s, char **end) {
    double out;
    int range = 0;
    char *e = nullptr;
    if (tsx_strtod_concrete(s, &e, &out, &range)) {
        if (end) *end = e;
        if (range) theErrno = ERANGE;
        return out;
    }
    const char *p = s;
    while (isspace((unsigned char)*p)) ++p;
    bool neg = false;
    if (*p == '-') { neg = true; ++p; }
    else if (*p == '+') ++p;
    if (!((unsigned)isdigit((unsigned char)*p) | (unsigned)(*p == '.'))) {
        if (lowerIs(*p, 'i')) {
            if (word(p, "inf")) {
                p += 3;
                if (word(p, "inity")) p += 5;
                if (end) *end = (char *)p;
                return neg ? -__builtin_inf() : __builtin_inf();
            }
        } else if (lowerIs(*p, 'n')) {
            if (word(p, "nan")) {
                p += 3;
                if (*p == '(') {
                    const char *q = p + 1;
                    while ((unsigned)isalnum((unsigned char)*q) | (unsigned)(*q == '_')) ++q;
                    if (*q == ')') p = q + 1;
                }
                if (end) *end = (char *)p;
                return __builtin_nan("");
            }
        }
        if (end) *end = (char *)s;
        return 0;
    }
    if (*p == '0' && lowerIs(p[1], 'x')) {
        const char *q = p + 2;
        unsigned long long m = 0;
        int n = 0, frac = 0;
        bool dot = false, any = false;
        for (;; ++q) {
            if (!dot && *q == '.') { dot = true; continue; }
            if (!isxdigit((unsigned char)*q)) break;
            any = true;
            int d = isdigit((unsigned char)*q) ? *q - '0' : (*q | 32) - 'a' + 10;
            if (++n > 12) tsx_skip("long hexadecimal literal");
            m = m * 16 + (unsigned)d;
            if (dot) frac++;
        }
        if (!any) { if (end) *end = (char *)(p + 1); return neg ? -0.0 : 0.0; }
        if (lowerIs(*q, 'p')) {
            const char *r = q + 1;
            if ((unsigned)(*r == '+') | (unsigned)(*r == '-')) ++r;
            if (isdigit((unsigned char)*r)) tsx_skip("hexadecimal exponent");
        }
        double v = (double)m;
        for (int i = 0; i < frac; i++) v /= 16;
        if (end) *end = (char *)q;
        return neg ? -v : v;
    }
    unsigned long long m = 0;
    int n = 0, frac = 0;
    bool dot = false, any = false;
    for (;; ++p) {
        if (*p == '.') { if (dot) break; dot = true; continue; }
        if (!isdigit((unsigned char)*p)) break;
        any = true;
        if (++n > 15) tsx_skip("decimal literal of more than 15 digits");
        m = m * 10 + (unsigned)(*p - '0');
        if (dot) frac++;
    }
    if (!any) { if (end) *end = (char *)s; return 0; }
    int ex = 0;
    if (lowerIs(*p, 'e')) {
        const char *r = p + 1;
        bool en = false;
        if (*r == '+') ++r;
        else if (*r == '-') { en = true; ++r; }
        if (isdigit((unsigned char)*r)) {
            int k = 0;
            while (isdigit((unsigned char)*r)) {
                int d = 0;
                while (d < 9 && *r != '0' + d) d++;
                k = k * 10 + d;
                if (k > 400) tsx_skip("large decimal exponent");
                ++r;
            }
            ex = en ? -k : k;
            p = r;
        }
    }
    if (end) *end = (char *)p;
    int k = ex - frac;
    double v = (double)m;
    if (k > 22 || k < -22) {
        if (m == 0) return neg ? -0.0 : 0.0;
        // decide every character, then convert the concrete text
        char buf[64];
        int j = 0;
        for (const char *q = s; q < p && j < 60; ++q) buf[j++] = oneOf(*q);
        buf[j] = 0;
        char *e2 = nullptr;
        if (!tsx_strtod_concrete(buf, &e2, &out, &range)) tsx_skip("decimal scale beyond 10^22");
        if (range) theErrno = ERANGE;
        return out;
    }
    if (k < 0) v = v / pow10i(-k); // correctly rounded: both operands are exact
    else if (k > 0) v = v * pow10i(k);
    return neg ? -v : v;
}
float strtof(const char *s, char **e) { return (float)strtod(s, e); }
int strcasecmp(const char *a, const char *b) {
    for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y || !x) return x - y; }
}
int strncasecmp(const char *a, const char *b, size_t n) {
    for (; n; n--, a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y || !x) return x - y; }
    return 0;
}
static unsigned long long digits(const char *s, char **end, int base, bool sign, bool u) {
    const char *p = s;
    while (isspace((unsigned char)*p)) p++;
    bool neg = false, any = false, over = false;
    if (*p == '+' || *p == '-') neg = *p++ == '-';
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; }
    if (base == 0) base = *p == '0' ? 8 : 10;
    const unsigned long long lim = u ? ~0ull : neg ? 1ull << 63 : (1ull << 63) - 1;
    unsigned long long r = 0;
    for (;; p++) {
        int c = (unsigned char)*p, d = isdigit(c) ? c - '0' : isalpha(c) ? tolower(c) - 'a' + 10 : 99;
        if (d >= base) break;
        any = true;
        if (r > (lim - (unsigned)d) / (unsigned)base) over = true; else r = r * (unsigned)base + (unsigned)d;
    }
    if (end) *end = (char *)(any ? p : s);
    if (over) { theErrno = 34; return lim; }
    return neg ? 0 - r : r;
}
long strtol(const char *s, char **e, int b) { return (long)digits(s, e, b, true, false); }
long long strtoll(const char *s, char **e, int b) { return (long long)digits(s, e, b, true, false); }
unsigned long strtoul(const char *s, char **e, int b) { return digits(s, e, b, true, true); }
unsigned long long strtoull(const char *s, char **e, int b) { return digits(s, e, b, true, true); }
int atoi(const char *s) { return (int)strtol(s, nullptr, 10); }
long atol(const char *s) { return strtol(s, nullptr, 10); }
double atof(const char *s) { return strtod(s, nullptr); }
double modf(double x, double *ip) { *ip = trunc(x); return x - *ip; }
long lround(double x) { return (long)round(x); }
long long llround(double x) { return (long long)round(x); }
long lrint(double x) { return (long)rint(x); }
double fdim(double x, double y) { return x > y ? x - y : x != x ? x : y != y ? y : 0; }
int printf(const char *, ...) { return 1; }
int puts(const char *) { return 1; }
int putchar(int c) { return c; }
int fputs(const char *, FILE *) { return 1; }
int fprintf(FILE *, const char *, ...) { return 1; }
int fflush(FILE *) { return 0; }
long labs(long x) { return x < 0 ? -x : x; }
}
