// Compiled models under symbolic inputs. MODEL(name, opset, R"(graph)" [, "options"])
// (MODELT: once per element type $T, C++ accessor name<type>()) states a model in ONNX text; run.py compiles it with the compiler built from
// /repo at -O0 and -O3 and links the resulting LLVM IR, instrumented, here.
#ifndef MODEL_H
#define MODEL_H
#include "rtdecl.h"
#include <errno.h>
#include <math.h>
#include <initializer_list>
struct Model { const char *name; OMTensorList *(*run[3])(OMTensorList *); const char *(*sig[2][3])(const char *); };
#define MODEL(n, opset, text, ...)  // run.py declares it in models_<harness>.h
#define MODELT(n, opset, text, types)
template <class T> struct TypeOf;
#define TO(t, c) template <> struct TypeOf<t> { static const int code = c; };
TO(float, 1) TO(uint8_t, 2) TO(int8_t, 3) TO(uint16_t, 4) TO(int16_t, 5) TO(int32_t, 6) TO(int64_t, 7) TO(bool, 9) TO(double, 11) TO(uint32_t, 12) TO(uint64_t, 13)
enum { MAXR = 6, MAXE = 96 };
struct Shape {
  int rank; int64_t d[MAXR];
  Shape() : rank(0) {}
  Shape(std::initializer_list<int64_t> l) : rank(0) { for (int64_t x : l) d[rank++] = x; }
  int64_t size() const { int64_t n = 1; for (int i = 0; i < rank; ++i) n *= d[i]; return n; }
  void push(int64_t x) { d[rank++] = x; }
};
struct Ix { int64_t i[MAXR]; Ix() {} Ix(std::initializer_list<int64_t> l) { int k = 0; for (int64_t x : l) i[k++] = x; } int64_t &operator[](int a) { return i[a]; } int64_t operator[](int a) const { return i[a]; } };
static inline Ix unlin(const Shape &s, int64_t l) { Ix r; for (int a = s.rank - 1; a >= 0; --a) { r.i[a] = l % s.d[a]; l /= s.d[a]; } return r; }
static inline int64_t lin(const Shape &s, const Ix &x) { int64_t l = 0; for (int a = 0; a < s.rank; ++a) l = l * s.d[a] + x.i[a]; return l; }
template <class T> struct Ten {
  Shape s; int64_t n; T v[MAXE];
  Ten() : n(1) {}
  Ten(const Shape &sh) : s(sh), n(sh.size()) {}
  Ten(std::initializer_list<int64_t> l) : s(l), n(s.size()) {}
  T &operator[](int64_t i) { return v[i]; }
  T operator[](int64_t i) const { return v[i]; }
  T at(const Ix &x) const { return v[lin(s, x)]; }
  T &at(const Ix &x) { return v[lin(s, x)]; }
  T bc(const Shape &o, const Ix &x) const { // element for position x of the broadcast shape o
    Ix y; for (int a = 0; a < s.rank; ++a) y.i[a] = s.d[a] == 1 ? 0 : x.i[a + o.rank - s.rank];
    return v[lin(s, y)];
  }
  Ten &range(const char *nm, int64_t lo, int64_t hi) { for (int64_t i = 0; i < n; ++i) v[i] = (T)sx_range(nm, lo, hi); return *this; }
  Ten &any(const char *nm) { for (int64_t i = 0; i < n; ++i) v[i] = (T)sx_u64(nm, 8 * (int)sizeof(T)); return *this; }
  Ten &set(std::initializer_list<T> l) { int64_t i = 0; for (T x : l) v[i++] = x; return *this; }
};
template <> inline Ten<bool> &Ten<bool>::any(const char *nm) { for (int64_t i = 0; i < n; ++i) v[i] = sx_u64(nm, 1) != 0; return *this; }
static inline Shape broadcast(const Shape &a, const Shape &b) {
  Shape o; o.rank = a.rank > b.rank ? a.rank : b.rank;
  for (int i = 0; i < o.rank; ++i) {
    int64_t x = i < o.rank - a.rank ? 1 : a.d[i - (o.rank - a.rank)], y = i < o.rank - b.rank ? 1 : b.d[i - (o.rank - b.rank)];
    o.d[i] = x == 1 ? y : x;
  }
  return o;
}
struct Call {
  OMTensor *in[8]; void *data[8]; void *keep[8]; int64_t bytes[8]; int nin; OMTensorList *out; int64_t live;
  int64_t used;
};
template <class T> static void addIn(Call &c, const Ten<T> &t) {
  int k = c.nin++;
  c.bytes[k] = t.n * (int64_t)sizeof(T);
  T *p = (T *)malloc(c.bytes[k] ? c.bytes[k] : 1), *q = (T *)malloc(c.bytes[k] ? c.bytes[k] : 1);
  for (int64_t i = 0; i < t.n; ++i) p[i] = q[i] = t.v[i];
  c.data[k] = p; c.keep[k] = q;
  c.in[k] = omTensorCreate(p, t.s.d, t.s.rank, (OM_DATA_TYPE)TypeOf<T>::code);
}
static inline int optLevel() { return (int)sx_pick("O0/O3/SIMD", 0, 2); }
static inline void invoke(const Model &m, Call &c, int opt) {
  OMTensorList *l = omTensorListCreate(c.in, c.nin);
  errno = 0;
  c.out = m.run[opt](l);
  for (int k = 0; k < c.nin; ++k) {
    unsigned char *p = (unsigned char *)c.data[k], *q = (unsigned char *)c.keep[k];
    sx_assert(omTensorGetDataPtr(c.in[k]) == c.data[k], "the input tensors are not modified");
    int same = 1;
    for (int64_t i = 0; i < c.bytes[k]; ++i) same &= p[i] == q[i];
    sx_assert(same, "the input data is not modified");
  }
  omTensorListDestroyShallow(l);
}
static inline void addAll(Call &) {}
template <class T, class... R> static void addAll(Call &c, const Ten<T> &t, const R &...r) { addIn(c, t); addAll(c, r...); }
template <class... A> static Call run(const Model &m, int opt, const A &...a) {
  Call c; c.nin = 0; c.used = 0; c.live = sx_live_allocs();
  addAll(c, a...);
  invoke(m, c, opt);
  sx_assert(c.out != 0, "the model runs");
  return c;
}
static inline OMTensor *output(Call &c, int k) {
  sx_assert(k < omTensorListGetSize(c.out), "the model returns all its outputs");
  ++c.used;
  return omTensorListGetOmtByIndex(c.out, k);
}
template <class T> static void expectShape(Call &c, int k, const Shape &s) {
  OMTensor *o = output(c, k);
  sx_assert(omTensorGetDataType(o) == TypeOf<T>::code, "the output has the type of the specification");
  sx_assert(omTensorGetRank(o) == s.rank, "the output has the rank of the specification");
  for (int a = 0; a < s.rank; ++a) sx_assert(omTensorGetShape(o)[a] == s.d[a], "the output has the shape of the specification");
  int64_t st = 1;
  for (int a = s.rank - 1; a >= 0; --a) { sx_assert(s.d[a] <= 1 || omTensorGetStrides(o)[a] == st, "the output is contiguous"); st *= s.d[a]; }
}
template <class T> static T *outData(Call &c, int k) { return (T *)omTensorGetDataPtr(omTensorListGetOmtByIndex(c.out, k)); }
template <class T> static void expect(Call &c, int k, const Ten<T> &r) {
  expectShape<T>(c, k, r.s);
  T *p = outData<T>(c, k);
  for (int64_t i = 0; i < r.n; ++i) {
    if (getenv("SX_SHOW")) fprintf(stderr, "output %d[%d]: %g, specified %g\n", k, (int)i, (double)p[i], (double)r.v[i]);
    sx_assert(p[i] == r.v[i], "every output element is that of the specification");
  }
}
static inline void done(Call &c) {
  sx_assert(c.used == omTensorListGetSize(c.out), "the model returns only its outputs");
  omTensorListDestroy(c.out);
  for (int k = 0; k < c.nin; ++k) { omTensorDestroy(c.in[k]); free(c.data[k]); free(c.keep[k]); }
  sx_assert(sx_live_allocs() == c.live, "no memory is leaked");
}
#endif
