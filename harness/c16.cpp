// C16: the pool of disposable constants keeps what the module refers to and
// releases the rest, whatever the history; scrubbing turns every constant of the
// module into a dense attribute with the same elements.
#define SX_WRAP_DENSE
#include "elts.h"
#include "mlir/IR/BuiltinOps.h"
static unsigned threads = 1;
extern "C" unsigned __wrap__ZN4mlir11MLIRContext13getNumThreadsEv(mlir::MLIRContext *) { return threads; }
enum { MAXB = 40, MAXA = 40 };
static int freed[MAXB], nbuf;
struct CountBuffer : HeapBuffer { int id; CountBuffer(size_t n, int id) : HeapBuffer(n), id(id) {} ~CountBuffer() override { ++freed[id]; } };
struct Made { DisposableElementsAttr a; SmallVector<int32_t, 4> v; Shape shape; int buf; bool disposed; };
static Made made[MAXA]; static int nmade;
static const DisposablePool::OpAttrPair DICT[] = {{"sx.a", "value"}, {"sx.b", "data"}};
struct World {
  mlir::OwningOpRef<mlir::ModuleOp> top; mlir::Operation *op[2]; int has[2]; // index into made, or -1
  World() {
    auto loc = mlir::UnknownLoc::get(ctx); mlir::OpBuilder b(ctx);
    top = mlir::ModuleOp::create(loc); b.setInsertionPointToEnd(top->getBody());
    auto inner = b.create<mlir::ModuleOp>(loc);
    op[0] = b.create(loc, mlir::StringAttr::get(ctx, "sx.a"), {}, {}, {});
    b.setInsertionPointToEnd(inner.getBody());
    op[1] = b.create(loc, mlir::StringAttr::get(ctx, "sx.b"), {}, {}, {});
    has[0] = has[1] = -1;
  }
  const char *name(int i) { return i ? "data" : "value"; }
  void put(int i, mlir::Attribute a, int m) { op[i]->setAttr(name(i), a); has[i] = m; }
};
static int record(ElementsAttr e, ArrayRef<int32_t> v, ArrayRef<int64_t> shape, int buf) {
  auto d = mlir::dyn_cast<DisposableElementsAttr>(e); sx_assert(!!d, "an active pool makes disposable constants");
  made[nmade] = {d, SmallVector<int32_t, 4>(v), Shape(shape), buf, false}; return nmade++;
}
static ElementsAttr fresh(const int32_t *v, int n, int *buf) {
  auto *cb = new CountBuffer(n * 4, nbuf); memcpy(cb->p, v, n * 4); *buf = nbuf++;
  return ElementsAttrBuilder(*pool).fromMemoryBuffer(RankedTensorType::get({n}, tyOf(BType::INT32)), std::unique_ptr<llvm::MemoryBuffer>(cb));
}
static void checkMade() { // what is live reads back, what is disposed is; buffers live as long as a constant uses them
  for (int i = 0; i < nmade; ++i) {
    if (made[i].disposed) continue;
    Ref<int32_t> r; r.shape = made[i].shape; r.v.assign(made[i].v.begin(), made[i].v.end()); checkViews<int32_t>(made[i].a, r);
  }
  for (int b = 0; b < nbuf; ++b) {
    bool used = false; for (int i = 0; i < nmade; ++i) used |= made[i].buf == b && !made[i].disposed;
    sx_assert(freed[b] == !used, "a buffer is released when its last constant is disposed");
  }
}
static void checkScrubbed(mlir::Operation *op, const char *name, ArrayRef<int32_t> v, ArrayRef<int64_t> shape) {
  auto d = op->getAttrOfType<DenseElementsAttr>(name); sx_assert(!!d, "scrubbing makes every constant dense");
  sx_assert(Shape(d.getType().getShape()) == Shape(shape) && d.getElementType() == tyOf(BType::INT32), "type of the scrubbed constant");
  int64_t k = 0; for (int32_t x : d.getValues<int32_t>()) sx_assert(x == v[k++], "element of the scrubbed constant");
}
SX_TEST(histories) {
  World w; ElementsAttrBuilder b(*pool); int steps = sx_thorough() ? 5 : 4; 
  for (int s = 0; s < steps; ++s) {
    int i = (int)sx_pick("slot", 0, 1), o = 1 - i;
    switch (sx_pick("step", 0, 6)) {
    case 0: { int32_t v[2] = {sx_i32("x"), sx_i32("y")}; int buf; auto e = fresh(v, 2, &buf); w.put(i, e, record(e, v, {2}, buf)); break; }
    case 1: { // a view of the other constant, sharing its buffer
      if (w.has[o] < 0) { sx_assume(0); return; }
      Made m = made[w.has[o]]; ElementsAttr e = m.a; Shape t = m.shape.size() == 1 ? Shape{1, 2} : Shape{2};
      if (sx_pick("how", 0, 1)) { e = b.transform(e, e.getElementType(), [](WideNum n) { n.i64 += 1; return n; }); for (auto &x : m.v) ++x; t = m.shape; } else e = b.reshape(e, t);
      w.put(i, e, record(e, m.v, t, m.buf)); sx_reach("view"); break;
    }
    case 2: if (w.has[o] < 0) { sx_assume(0); return; } w.put(i, made[w.has[o]].a, w.has[o]); break; // the same constant twice
    case 3: w.op[i]->removeAttr(w.name(i)); w.has[i] = -1; break;
    case 4: pool->garbageCollectUnreachable(*w.top, DICT);
      for (int m = 0; m < nmade; ++m) if (m != w.has[0] && m != w.has[1]) { if (!made[m].disposed) sx_reach("collected"); made[m].disposed = true; } break;
    case 5: { int32_t v[2] = {sx_i32("x"), 3}; int buf; record(fresh(v, 2, &buf), v, {2}, nbuf - 1); break; } // never attached
    default: { pool->scrub(*w.top, DICT); threads = 1;
      for (int k = 0; k < 2; ++k) if (w.has[k] >= 0) { checkScrubbed(w.op[k], w.name(k), made[w.has[k]].v, made[w.has[k]].shape); w.has[k] = -1; sx_reach("scrubbed"); }
      for (int m = 0; m < nmade; ++m) made[m].disposed = true;
      sx_assert(pool->isActive(), "scrubbing leaves the pool open"); }
    }
    checkMade();
  }
  // At the end everything is scrubbed and the pool closed: later constants are dense.
  pool->scrub(*w.top, DICT);
  for (int k = 0; k < 2; ++k) if (w.has[k] >= 0) checkScrubbed(w.op[k], w.name(k), made[w.has[k]].v, made[w.has[k]].shape);
  for (int m = 0; m < nmade; ++m) made[m].disposed = true; checkMade();
  pool->close(); sx_assert(!pool->isActive(), "a closed pool is not active");
  int32_t v[2] = {sx_i32("x"), sx_i32("y")}; int buf; ElementsAttr e = fresh(v, 2, &buf);
  auto d = mlir::dyn_cast<DenseElementsAttr>(e); sx_assert(!!d, "a closed pool makes dense constants");
  sx_assert(d.getValues<int32_t>()[0] == v[0] && d.getValues<int32_t>()[1] == v[1] && d.size() == 2 && freed[buf] == 1, "a closed pool keeps the elements and releases the buffer");
  sx_assert(!b.toDisposableElementsAttr(d), "a closed pool wraps nothing");
  sx_reach("histories");
}
// Many constants, scrubbed in batches by several workers.
SX_TEST(batches) {
  static const int N[] = {1, 9, 10, 11, 21, 30}; int n = N[sx_pick("n", 0, 5)]; threads = (unsigned)sx_pick("threads", 1, 4); int big = (int)sx_pick("big", 0, 2); // index of a large constant
  auto loc = mlir::UnknownLoc::get(ctx); mlir::OpBuilder b(ctx); mlir::OwningOpRef<mlir::ModuleOp> top = mlir::ModuleOp::create(loc); b.setInsertionPointToEnd(top->getBody());
  std::vector<mlir::Operation *> ops; std::vector<std::vector<int32_t>> v;
  for (int i = 0; i < n; ++i) {
    int size = i == big * 7 ? 1001 : 2; v.emplace_back(size); for (int k = 0; k < size; ++k) v[i][k] = k < 3 ? sx_i32("x") : 100 * i + k;
    int buf; auto e = fresh(v[i].data(), size, &buf); bool isA = i & 1; ops.push_back(b.create(loc, mlir::StringAttr::get(ctx, isA ? "sx.a" : "sx.b"), {}, {}, {})); ops[i]->setAttr(isA ? "value" : "data", e);
  }
  pool->scrub(*top, DICT);
  for (int i = 0; i < n; ++i) { int64_t size = v[i].size(); checkScrubbed(ops[i], i & 1 ? "value" : "data", v[i], {size}); sx_assert(freed[i] == 1, "scrubbing releases the buffer"); }
  sx_reach("batches");
}
// Views made when the pool is closed are computed at once.
static void checkDense(ElementsAttr e, ArrayRef<int32_t> v, ArrayRef<int64_t> shape) {
  auto d = mlir::dyn_cast<DenseElementsAttr>(e); sx_assert(!!d, "a closed pool makes dense constants");
  sx_assert(Shape(d.getType().getShape()) == Shape(shape) && d.getElementType() == tyOf(BType::INT32), "type of a constant of a closed pool");
  int64_t k = 0; for (int32_t x : d.getValues<int32_t>()) sx_assert(x == v[k++], "element of a constant of a closed pool");
}
SX_TEST(closed) {
  mlir::OwningOpRef<mlir::ModuleOp> top = mlir::ModuleOp::create(mlir::UnknownLoc::get(ctx)); pool->scrub(*top, DICT); pool->close();
  ElementsAttrBuilder b(*pool); int32_t v[4]; for (auto &x : v) x = sx_i32("x"); int32_t w[4]; int buf;
  ElementsAttr e = fresh(v, 4, &buf); checkDense(e, v, {4}); sx_assert(freed[buf] == 1, "a closed pool releases the buffer"); e = b.reshape(e, {2, 2}); checkDense(e, v, {2, 2});
  switch (sx_pick("view", 0, 4)) {
  case 0: for (int i = 0; i < 4; ++i) w[i] = v[i] + 1; checkDense(b.transform(e, e.getElementType(), [](WideNum n) { n.i64 += 1; return n; }), w, {2, 2}); break;
  case 1: w[0] = v[0]; w[1] = v[2]; w[2] = v[1]; w[3] = v[3]; checkDense(b.transpose(e, {1, 0}), w, {2, 2}); break;
  case 2: checkDense(b.fromWideNums(RankedTensorType::get({4}, tyOf(BType::INT32)), [&](MutableArrayRef<WideNum> o) { for (int i = 0; i < 4; ++i) o[i].i64 = v[i]; }), v, {4}); break;
  case 3: w[0] = w[2] = v[0]; w[1] = w[3] = v[1]; { int32_t u[2] = {v[0], v[1]}; checkDense(b.expand(fresh(u, 2, &buf), {2, 2}), w, {2, 2}); } break;
  default: { float f[2] = {2.5f, -1.75f}; int32_t u[2] = {2, -2}; checkDense(b.castElementType(disposable<float>({2}, f), tyOf(BType::INT32)), u, {2}); }
  }
  sx_reach("closed");
}
