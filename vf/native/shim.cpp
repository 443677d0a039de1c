// Compiled into the sanitized build of the native reader, whose PyObject_GetBuffer and
// PyBuffer_Release are renamed to the functions below: the reader gets its data in a heap block
// of exactly the size of the data, so that AddressSanitizer sees any access beside it or after
// its release.  Allocations made while a block is held are added up.
#include <Python.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <map>

extern "C" int PyPyObject_GetBuffer(PyObject *obj, Py_buffer *view, int flags);
extern "C" void PyPyBuffer_Release(Py_buffer *view);

struct Held { void *orig; void *copy; };
static std::map<Py_buffer *, Held> *held;
static uint64_t buffers, released, bytes, current, peak, blocks, hooked;
static bool inside;

static void note(size_t n)
{
    if (!inside)
        return;
    current += n;
    blocks++;
    if (n > peak)
        peak = n;
}

// the allocations of the reader itself (linked with --wrap)
extern "C" {
void *__real__Znwm(size_t n);
void *__wrap__Znwm(size_t n) { hooked++; note(n); return __real__Znwm(n); }
void *__real__Znam(size_t n);
void *__wrap__Znam(size_t n) { hooked++; note(n); return __real__Znam(n); }
void *__real_malloc(size_t n);
void *__wrap_malloc(size_t n) { note(n); return __real_malloc(n); }
void *__real_calloc(size_t k, size_t n);
void *__wrap_calloc(size_t k, size_t n) { note(k * n); return __real_calloc(k, n); }
void *__real_realloc(void *p, size_t n);
void *__wrap_realloc(void *p, size_t n) { note(n); return __real_realloc(p, n); }
}

extern "C" __attribute__((visibility("default"))) int vf_GetBuffer(PyObject *obj, Py_buffer *view, int flags)
{
    int r = PyPyObject_GetBuffer(obj, view, flags);
    if (r != 0 || !view)
        return r;
    inside = false;
    if (!held)
        held = new std::map<Py_buffer *, Held>();
    Held h;
    h.orig = view->buf;
    h.copy = malloc(view->len);
    if (view->len)
        memcpy(h.copy, view->buf, view->len);
    (*held)[view] = h;
    view->buf = h.copy;
    buffers++;
    bytes += view->len;
    current = peak = blocks = 0;
    inside = true;
    return 0;
}

extern "C" __attribute__((visibility("default"))) void vf_Release(Py_buffer *view)
{
    inside = false;
    if (held && held->count(view)) {
        Held h = (*held)[view];
        held->erase(view);
        view->buf = h.orig;
        free(h.copy);
        released++;
    }
    PyPyBuffer_Release(view);
}

// buffers handed out, released, bytes in them, allocations seen,
// allocated for the last one: total, largest block, blocks
extern "C" __attribute__((visibility("default"))) void vf_stats(uint64_t *out)
{
    out[0] = buffers;
    out[1] = released;
    out[2] = bytes;
    out[3] = hooked;
    out[4] = current;
    out[5] = peak;
    out[6] = blocks;
}
