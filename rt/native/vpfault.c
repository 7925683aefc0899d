/* Allocation monitor and fault injector.
 *
 * Redirects malloc/calloc/realloc/free (and PyMem_Malloc/PyMem_Realloc/PyObject_Malloc) of the library's extension modules by
 * rewriting their own relocated slots, and installs a numpy data allocator, so that every native allocation made by the library
 * and every array buffer is counted, its lifetime tracked, and any one of them (or all from one on) can be made to fail.
 */
#define _GNU_SOURCE
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <elf.h>
#include <link.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

enum { NATIVE = 0, PYMEM = 1, DATA = 2, KINDS = 3 };
static long count[KINDS], failed[KINDS], live[KINDS], total[KINDS];
static long target[KINDS];        /* fail the target-th allocation from arming; 0: none */
static int persist[KINDS];        /* and every later one */
static long double_free, unknown_free, patched;

/* open-addressing table of pointers: state 1 live, 2 freed */
#define TB (1u << 20)
static void *tab[TB];
static unsigned char st[TB];
static long used;

static unsigned slot(void *p) {
    uint64_t h = (uint64_t)(uintptr_t)p * 0x9E3779B97F4A7C15ull;
    unsigned i = (unsigned)(h >> 44);
    while (tab[i] && tab[i] != p) i = (i + 1) & (TB - 1);
    return i;
}
static void add(void *p) {
    if (!p) return;
    unsigned i = slot(p);
    if (!tab[i]) {
        if (used > (long)(TB / 2)) return;
        tab[i] = p; used++;
    }
    st[i] = 1;
    live[NATIVE]++;
}
/* 1: free it, 0: already freed */
static int drop(void *p) {
    unsigned i = slot(p);
    if (!tab[i]) { unknown_free++; return 1; }
    if (st[i] == 1) { st[i] = 2; live[NATIVE]--; return 1; }
    double_free++;
    return 0;
}
static int deny(int k) {
    total[k]++;
    if (!target[k]) return 0;
    count[k]++;
    if (count[k] == target[k] || (persist[k] && count[k] > target[k])) { failed[k]++; return 1; }
    return 0;
}
static void *h_malloc(size_t n) { if (deny(NATIVE)) return NULL; void *p = malloc(n); add(p); return p; }
static void *h_calloc(size_t a, size_t b) { if (deny(NATIVE)) return NULL; void *p = calloc(a, b); add(p); return p; }
static void *h_realloc(void *q, size_t n) {
    if (deny(NATIVE)) return NULL;
    if (q && !drop(q)) return NULL;
    void *p = realloc(q, n);
    add(p);
    return p;
}
static void h_free(void *p) { if (p && drop(p)) free(p); }
static void *h_pymalloc(size_t n) { if (deny(PYMEM)) return NULL; return PyMem_Malloc(n); }
static void *h_pyrealloc(void *q, size_t n) { if (deny(PYMEM)) return NULL; return PyMem_Realloc(q, n); }
static void *h_obmalloc(size_t n) { if (deny(PYMEM)) return NULL; return PyObject_Malloc(n); }

static struct { const char *name; void *fn; } HOOKS[] = {
    {"malloc", h_malloc}, {"calloc", h_calloc}, {"realloc", h_realloc}, {"free", h_free},
    {"PyMem_Malloc", h_pymalloc}, {"PyMem_Realloc", h_pyrealloc}, {"PyObject_Malloc", h_obmalloc}, {NULL, NULL}};

static void patch(const char *name, void **where) {
    for (int i = 0; HOOKS[i].name; i++)
        if (!strcmp(name, HOOKS[i].name) && *where != HOOKS[i].fn) {
            long pg = sysconf(_SC_PAGESIZE);
            void *page = (void *)((uintptr_t)where & ~(uintptr_t)(pg - 1));
            if (mprotect(page, pg, PROT_READ | PROT_WRITE) == 0) { *where = HOOKS[i].fn; patched++; }
        }
}
static int each(struct dl_phdr_info *info, size_t size, void *data) {
    if (!info->dlpi_name || !strstr(info->dlpi_name, "/pywt/_extensions/")) return 0;
    for (int i = 0; i < info->dlpi_phnum; i++) {
        if (info->dlpi_phdr[i].p_type != PT_DYNAMIC) continue;
        ElfW(Dyn) *d = (ElfW(Dyn) *)(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr);
        ElfW(Rela) *rela = NULL, *jmp = NULL;
        size_t nrela = 0, njmp = 0;
        ElfW(Sym) *sym = NULL;
        const char *str = NULL;
        for (; d->d_tag != DT_NULL; d++) {
            if (d->d_tag == DT_RELA) rela = (void *)d->d_un.d_ptr;
            else if (d->d_tag == DT_RELASZ) nrela = d->d_un.d_val / sizeof(ElfW(Rela));
            else if (d->d_tag == DT_JMPREL) jmp = (void *)d->d_un.d_ptr;
            else if (d->d_tag == DT_PLTRELSZ) njmp = d->d_un.d_val / sizeof(ElfW(Rela));
            else if (d->d_tag == DT_SYMTAB) sym = (void *)d->d_un.d_ptr;
            else if (d->d_tag == DT_STRTAB) str = (void *)d->d_un.d_ptr;
        }
        for (int pass = 0; pass < 2; pass++) {
            ElfW(Rela) *r = pass ? jmp : rela;
            size_t n = pass ? njmp : nrela;
            for (size_t k = 0; r && k < n; k++) {
                unsigned type = ELF64_R_TYPE(r[k].r_info);
                if (type == R_X86_64_JUMP_SLOT || type == R_X86_64_GLOB_DAT)
                    patch(str + sym[ELF64_R_SYM(r[k].r_info)].st_name, (void **)(info->dlpi_addr + r[k].r_offset));
            }
        }
    }
    return 0;
}

/* numpy data buffers */
static void *d_malloc(void *c, size_t n) { if (deny(DATA)) return NULL; void *p = malloc(n ? n : 1); if (p) live[DATA]++; return p; }
static void *d_calloc(void *c, size_t a, size_t b) { if (deny(DATA)) return NULL; void *p = calloc(a ? a : 1, b ? b : 1); if (p) live[DATA]++; return p; }
static void *d_realloc(void *c, void *q, size_t n) { if (deny(DATA)) return NULL; return realloc(q, n ? n : 1); }
static void d_free(void *c, void *p, size_t n) { if (p) { live[DATA]--; free(p); } }
static PyDataMem_Handler handler = {"vpfault", 1, {NULL, d_malloc, d_calloc, d_realloc, d_free}};

static PyObject *install(PyObject *self, PyObject *args) {
    PyObject *cap = PyCapsule_New(&handler, "mem_handler", NULL);
    if (!cap) return NULL;
    PyObject *old = PyDataMem_SetHandler(cap);
    Py_DECREF(cap);
    if (!old) return NULL;
    Py_DECREF(old);
    dl_iterate_phdr(each, NULL);
    return PyLong_FromLong(patched);
}
static PyObject *arm(PyObject *self, PyObject *args) {
    int k, p; long n;
    if (!PyArg_ParseTuple(args, "ilp", &k, &n, &p)) return NULL;
    for (int i = 0; i < KINDS; i++) { count[i] = failed[i] = 0; target[i] = 0; persist[i] = 0; }
    persist[k] = p; target[k] = n;
    Py_RETURN_NONE;
}
static PyObject *disarm(PyObject *self, PyObject *args) {
    long f = 0;
    for (int i = 0; i < KINDS; i++) { f += failed[i]; target[i] = 0; }
    return PyLong_FromLong(f);
}
static PyObject *stats(PyObject *self, PyObject *args) {
    return Py_BuildValue("(lll)(ll)(ll)", total[0], total[1], total[2], live[0], live[2], double_free, unknown_free);
}
static PyMethodDef M[] = {{"install", install, METH_NOARGS, ""}, {"arm", arm, METH_VARARGS, ""}, {"disarm", disarm, METH_NOARGS, ""},
                          {"stats", stats, METH_NOARGS, ""}, {NULL}};
static struct PyModuleDef D = {PyModuleDef_HEAD_INIT, "vpfault", "", -1, M};
PyMODINIT_FUNC PyInit_vpfault(void) {
    import_array();
    return PyModule_Create(&D);
}
