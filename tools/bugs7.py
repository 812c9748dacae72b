from mkbug import *
from bugs5 import EAB, EAH
DP = "src/Dialect/ONNX/ElementsAttr/DisposablePool.cpp"
H = EAH.replace('#include "mlir/IR/Dialect.h"', '#include "mlir/IR/BuiltinOps.h"\n#include "mlir/IR/Builders.h"\n#include "mlir/IR/Dialect.h"').replace("addAttributes<DisposableElementsAttr>();", "addAttributes<DisposableElementsAttr>(); allowUnknownOperations();") + """
static const DisposablePool::OpAttrPair DICT[] = {{"d.a", "value"}};
struct Buf : llvm::MemoryBuffer { int *freed; static inline int data[2] = {1, 2}; Buf(int *f) : freed(f) { init((char *)data, (char *)(data + 2), false); } ~Buf() override { ++*freed; } BufferKind getBufferKind() const override { return MemoryBuffer_Malloc; } };
static ElementsAttr counted(DisposablePool *p, int *f) { return ElementsAttrBuilder(*p).fromMemoryBuffer(RankedTensorType::get({2}, IntegerType::get(&ctx, 32)), std::unique_ptr<llvm::MemoryBuffer>(new Buf(f))); }
"""
def m(id, edits, needs, breaks, body): mk(id, "C16", [(DP, o, n) for o, n in edits], needs, breaks, {"demo.sh": EAB, "demo.cpp": H + body})
m("c16-collect-nested", [("  moduleOp.walk([&opAttrMap, &act](Operation *op) {", "  for (Operation &o : moduleOp.getBody()->getOperations()) {\n    Operation *op = &o;"),
  ("        act(op, attrName, attr);\n    }\n  });", "        act(op, attrName, attr);\n    }\n  }")],
 "a constant in an operation nested in a region of another operation", "constants inside nested regions are considered unreachable",
"""int main() { auto *p = pool(); int f = 0; auto loc = UnknownLoc::get(&ctx); OwningOpRef<ModuleOp> top = ModuleOp::create(loc); OpBuilder b(&ctx); b.setInsertionPointToEnd(top->getBody()); auto in = b.create<ModuleOp>(loc); b.setInsertionPointToEnd(in.getBody());
auto *op = b.create(loc, StringAttr::get(&ctx, "d.a"), {}, {}, {}); op->setAttr("value", counted(p, &f)); p->garbageCollectUnreachable(*top, DICT); return f != 0; }
""")
m("c16-scrub-leftovers", [("    eraseUnreachable({});", "    for (const auto &t : translations)\n      pool.erase(t.first);")],
 "constants that are no longer in the module when it is scrubbed", "scrubbing only releases the constants found in the module",
"""int main() { auto *p = pool(); int f = 0; OwningOpRef<ModuleOp> top = ModuleOp::create(UnknownLoc::get(&ctx)); auto e = counted(p, &f); (void)e; p->scrub(*top, DICT); return f != 1; }
""")
m("c16-closed-view", [("    auto dense = disposable.toDenseElementsAttr();\n    disposable.dispose();", "    auto dense = transformer || !disposable.isContiguous() ? disposable.toDenseElementsAttr()\n                     : DenseElementsAttr::getFromRawBuffer(type, ArrayRef<char>(buffer->getBufferStart(), buffer->getBufferSize()));\n    disposable.dispose();")],
 "a constant created after the pool is closed from a transformed or wide buffer", "a moved-from function is taken as absent and the raw buffer as the elements",
"""static WideNum inc(WideNum n) { n.i64 += 1; return n; }
int main() { auto *p = pool(); int f = 0; OwningOpRef<ModuleOp> top = ModuleOp::create(UnknownLoc::get(&ctx)); p->close(); ElementsAttrBuilder b(*p); auto e = b.transform(counted(p, &f), IntegerType::get(&ctx, 32), inc); return getElementsArray<int32_t>(e).get()[0] != 2; }
""")
