// Shared by the constant-folding harnesses: an MLIR context with a dialect that
// owns a DisposablePool, memory buffers on the checked heap and elements
// attributes with symbolic contents.
#ifndef ELTS_H
#define ELTS_H
#include "sx.h"
#include "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttributeStorage.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposablePool.hpp"
#include "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.hpp"
#include "src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.hpp"
#include "src/Dialect/ONNX/ElementsAttr/Strides.hpp"
#include "src/Dialect/ONNX/ElementsAttr/WideNum.hpp"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinDialect.h"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/MLIRContext.h"
#include <stdlib.h>
#include <string.h>
using namespace onnx_mlir;
using mlir::ElementsAttr; using mlir::DenseElementsAttr; using mlir::DisposableElementsAttr; using mlir::Type; using mlir::RankedTensorType; using mlir::ShapedType;
using mlir::ArrayRef; using mlir::MutableArrayRef; using mlir::SmallVector; using mlir::StringRef;
struct SxDialect : mlir::Dialect {
  SxDialect(mlir::MLIRContext *c) : Dialect("sx", c, mlir::TypeID::get<SxDialect>()) {
    addInterface<DisposablePool>(c); addAttributes<DisposableElementsAttr>(); allowUnknownOperations();
  }
  static constexpr StringRef getDialectNamespace() { return "sx"; }
};
static mlir::MLIRContext *ctx;
static DisposablePool *pool;
static void eltsInit() {
  ctx = new mlir::MLIRContext(mlir::MLIRContext::Threading::DISABLED);
  ctx->loadDialect<SxDialect>();
  pool = DisposablePool::get<SxDialect>(ctx);
}
__attribute__((constructor)) static void eltsReg() { sx_set_init(eltsInit); }
// Buffers of the code under test live on the checked heap.
struct HeapBuffer : llvm::WritableMemoryBuffer {
  char *p;
  HeapBuffer(size_t n) : p((char *)malloc(n ? n : 1)) { init(p, p + n, false); }
  ~HeapBuffer() override { free(p); }
  BufferKind getBufferKind() const override { return MemoryBuffer_Malloc; }
};
extern "C" std::unique_ptr<llvm::WritableMemoryBuffer> __wrap__ZN4llvm20WritableMemoryBuffer21getNewUninitMemBufferEmRKNS_5TwineESt8optionalINS_5AlignEE(size_t n, const llvm::Twine &, std::optional<llvm::Align>) {
  return std::unique_ptr<llvm::WritableMemoryBuffer>(new HeapBuffer(n));
}
static std::unique_ptr<llvm::MemoryBuffer> bufferOf(const void *d, size_t n) {
  auto *b = new HeapBuffer(n); memcpy(b->p, d, n); return std::unique_ptr<llvm::MemoryBuffer>(b);
}
typedef SmallVector<int64_t, 6> Shape;
static int64_t count(ArrayRef<int64_t> s) { int64_t n = 1; for (int64_t d : s) n *= d; return n; }
static void unflat(ArrayRef<int64_t> s, int64_t k, uint64_t *ix) { for (int a = (int)s.size(); a-- > 0;) { ix[a] = k % s[a]; k /= s[a]; } }
static Type tyOf(BType t) { return mlirTypeOfBType(t, ctx); }
// Disposable attribute over the given row-major data.
template <typename T> static ElementsAttr disposable(ArrayRef<int64_t> shape, const T *d) {
  return ElementsAttrBuilder(*pool).fromMemoryBuffer(RankedTensorType::get(shape, tyOf(toBType<T>)), bufferOf(d, count(shape) * sizeof(T)));
}
// Dense attribute over the given row-major data: its storage is created with
// placeholder values and then overwritten, so that the contents stay symbolic.
template <typename T> static ElementsAttr dense(ArrayRef<int64_t> shape, const T *d) {
  int64_t n = count(shape);
  auto type = RankedTensorType::get(shape, tyOf(toBType<T>));
  static int serial = 0; ++serial;
  std::vector<char> raw(n * sizeof(T));
  for (size_t i = 0; i < raw.size(); ++i) raw[i] = (char)(i == 0 ? 2 * serial : 2 * i + 1); // not a splat
  DenseElementsAttr a = DenseElementsAttr::getFromRawBuffer(type, raw);
  if (n) memcpy(const_cast<char *>(a.getRawData().data()), d, a.isSplat() ? sizeof(T) : n * sizeof(T));
  return a;
}
// With SX_WRAP_DENSE, dense attributes the code under test makes from raw bytes
// keep symbolic contents too.
#ifdef SX_WRAP_DENSE
extern "C" DenseElementsAttr __real__ZN4mlir17DenseElementsAttr16getFromRawBufferENS_10ShapedTypeEN4llvm8ArrayRefIcEE(ShapedType t, ArrayRef<char> d);
extern "C" DenseElementsAttr __wrap__ZN4mlir17DenseElementsAttr16getFromRawBufferENS_10ShapedTypeEN4llvm8ArrayRefIcEE(ShapedType t, ArrayRef<char> d) {
  static int serial = 0; ++serial;
  std::vector<char> raw(d.size());
  for (size_t i = 0; i < raw.size(); ++i) raw[i] = (char)(i == 0 ? serial : i == 1 ? serial >> 8 : 2 * i + 1);
  DenseElementsAttr a = __real__ZN4mlir17DenseElementsAttr16getFromRawBufferENS_10ShapedTypeEN4llvm8ArrayRefIcEE(t, raw);
  sx_assert(a.getRawData().size() == d.size(), "raw bytes of a dense attribute");
  memcpy(const_cast<char *>(a.getRawData().data()), d.data(), d.size());
  return a;
}
#endif
// Reference tensors, symbolic values and the check that every way of reading an
// attribute gives the reference elements.
template <typename T> static T sym(const char *nm) { T x; sx_bytes(&x, sizeof x, nm); return x; }
template <> bool sym<bool>(const char *nm) { return sx_u64(nm, 1); }
template <typename T> static bool same(T a, T b) { return !memcmp(&a, &b, sizeof a); }
template <typename T> static T val(const char *nm) { return sym<T>(nm); }
// floating point data are numbers: NaN payloads need not survive widening
template <> float val<float>(const char *nm) { float x = sym<float>(nm); uint32_t u; memcpy(&u, &x, 4); sx_assume((u & 0x7f800000) != 0x7f800000); return x; }
template <> double val<double>(const char *nm) { double x = sym<double>(nm); uint64_t u; memcpy(&u, &x, 8); sx_assume((u & 0x7ffull << 52) != 0x7ffull << 52); return x; }
template <typename T> struct Ref { Shape shape; SmallVector<T, 16> v; int fns = 0; };
template <typename T> static void checkViews(ElementsAttr e, const Ref<T> &r) {
  int64_t n = count(r.shape);
  constexpr BType B = toBType<T>;
  auto st = e.getShapedType();
  sx_assert(st.hasStaticShape() && Shape(st.getShape()) == r.shape, "shape of the view");
  sx_assert(btypeOfMlirType(st.getElementType()) == B && e.size() == n, "element type and count of the view");
  {
    auto w = getElementsWideNums(e); auto a = getElementsArray<T>(e);
    sx_assert((int64_t)w.get().size() == n && (int64_t)a.get().size() == n, "number of elements read");
    std::vector<WideNum> rd(n); readElementsWideNums(e, MutableArrayRef<WideNum>(rd));
    auto vals = e.getValues<T>();
    for (int64_t i = 0; i < n; ++i) {
      sx_assert(same(a.get()[i], r.v[i]), "element of the array");
      sx_assert(same(w.get()[i].template narrow<B>(), r.v[i]), "element of the wide numbers");
      sx_assert(same(rd[i].template narrow<B>(), r.v[i]), "element of the copied wide numbers");
      sx_assert(same(vals[i], r.v[i]), "element of the value range");
    }
  }
  if (auto d = mlir::dyn_cast<DisposableElementsAttr>(e)) {
    auto raw = d.getRawBytes();
    sx_assert(raw.get().size() == n * sizeof(T), "number of raw bytes");
    for (int64_t i = 0; i < n; ++i) { T x; memcpy(&x, raw.get().data() + i * sizeof(T), sizeof(T)); sx_assert(same(x, r.v[i]), "element of the raw bytes"); }
  }
  if (e.isSplat()) {
    for (int64_t i = 0; i < n; ++i) {
      sx_assert(same(e.getSplatValue<T>(), r.v[i]), "splat value");
      sx_assert(same(getElementsSplatWideNum(e).template narrow<B>(), r.v[i]), "wide splat value");
    }
  }
}
// The elements of an attribute that may be dense: MLIR's own reading of dense
// storage would only see one concrete value, so it is wrapped first.
template <typename T> static void checkElements(ElementsAttr e, const Ref<T> &r) { checkViews<T>(ElementsAttrBuilder(*pool).toDisposableElementsAttr(e), r); }
#endif
