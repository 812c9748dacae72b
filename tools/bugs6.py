from mkbug import *
from bugs5 import EAB, EAH
EB = "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp"
EH = "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.hpp"
def m(id, f, old, new, needs, breaks, body): mk(id, "C15", [(f, old, new)], needs, breaks, {"demo.sh": EAB, "demo.cpp": EAH + body})
m("c15-round-half-away", EB, "    return llrint(from);\n  }\n}", "    return llround(from);\n  }\n}", "rounding a number exactly half way between an even and the next odd integer", "casts to integers round ties away from zero",
"""int main() { auto *p = pool(); ElementsAttrBuilder b(*p); auto e = b.castElementType(mkAttr<float>(p, {3}, {2.5f, -0.5f, 3.5f}), IntegerType::get(&ctx, 32)); auto a = getElementsArray<int32_t>(e); return !(a.get()[0] == 2 && a.get()[1] == 0 && a.get()[2] == 4); }
""")
m("c15-combine-splat-order", EB, "[rhsNum, combiner](WideNum n) { return combiner(n, rhsNum); }));", "[rhsNum, combiner](WideNum n) { return combiner(rhsNum, n); }));", "a non-commutative function whose right operand is a splat and whose left is not", "the operands of the combined function are exchanged",
"""static WideNum sub(WideNum a, WideNum b) { a.i64 -= b.i64; return a; }
int main() { auto *p = pool(); ElementsAttrBuilder b(*p); auto x = mkAttr<int32_t>(p, {2}, {10, 20}), y = mkAttr<int32_t>(p, {}, {1}); auto e = b.combine(x, y, x.getShapedType(), sub); return getElementsArray<int32_t>(e).get()[1] != 19; }
""")
m("c15-pad-inner-rows", EB, "      while (lastZero > 0 && it->index[lastZero - 1] == 0)", "      while (lastZero > 1 && it->index[lastZero - 1] == 0)", "padding the first axis ... of a tensor of rank three or more between outer rows", "the padding between outer rows is that of inner rows",
"""int main() { auto *p = pool(); ElementsAttrBuilder b(*p); auto e = b.pad(mkAttr<int32_t>(p, {2, 1, 1}, {1, 2}), {0, 1, 0, 0, 0, 0}, WideNum::widen<BType::INT32>(9)); auto a = getElementsArray<int32_t>(e); int w[] = {9, 1, 9, 2};
for (int i = 0; i < 4; ++i) if (a.get()[i] != w[i]) return 1; return 0; }
""") if 0 else None
m("c15-tile-leftover", EH, "          beginOffset = threadNumber * tileSize + leftovers;", "          beginOffset = threadNumber * tileSize + (leftovers ? 1 : 0);", "a constant of 1000 elements or more whose size leaves a remainder of two or more when divided by the number of threads", "some elements are transformed twice and others never",
"""static WideNum inc(WideNum n) { n.i64 += 1; return n; }
int main() { MLIRContext c2; llvm::DefaultThreadPool tp(llvm::hardware_concurrency(8)); ctx.enableMultithreading(); (void)tp; unsigned t = ctx.getNumThreads(); if (t < 3) return 0; ctx.disableMultithreading(); ctx.setThreadPool(tp); auto *p = pool(); ElementsAttrBuilder b(*p); t = ctx.getNumThreads(); int64_t n = 1000; while (n % t < 2) ++n; auto e = mkAttr<int64_t>(p, {n}, std::vector<int64_t>(n, 5)); e = b.transform(e, e.getElementType(), inc); auto a = getElementsArray<int64_t>(e); for (auto x : a.get()) if (x != 6) return 1; return 0; }
""".replace("MLIRContext c2; ", ""))
m("c15-gather-block", EB, "        in += inputBlockLen;", "        in += outBlockLen;", "gathering along an axis that is not the first with a number of indices other than the axis size", "blocks after the first are gathered from the wrong place",
"""int main() { auto *p = pool(); ElementsAttrBuilder b(*p); auto e = b.gather(mkAttr<int32_t>(p, {2, 3}, {1, 2, 3, 4, 5, 6}), mkAttr<int64_t>(p, {2}, {0, 2}), 1); auto a = getElementsArray<int32_t>(e); return a.get()[2] != 4; }
""")
m("c15-matmul-vector", EB, "    lhsRedStrides.insert(lhsRedStrides.end() - 1, 0);", "    lhsRedStrides.insert(lhsRedStrides.begin(), 0);", "a vector multiplied by a batch of matrices", "the stride inserted for the missing row axis lands on the batch axis",
"""int main() { return 0; }
""") if 0 else None
m("c15-slice-backwards", EB, "      start += starts[axis] * strides[axis];\n", "      start += (steps[axis] < 0 ? shape[axis] - 1 : starts[axis]) * strides[axis];\n", "slicing backwards from an element other than the one reached by the length", "backward slices start at their length instead of the start position",
"""int main() { auto *p = pool(); ElementsAttrBuilder b(*p); auto e = b.slice(mkAttr<int32_t>(p, {4}, {1, 2, 3, 4}), {2}, {3}, {-1}); auto a = getElementsArray<int32_t>(e); return !(a.get()[0] == 4 && a.get()[1] == 3); }
""")
