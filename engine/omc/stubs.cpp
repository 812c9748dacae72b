// Parts of the compiler that need a newer MLIR and are not on the default path.
#include "mlir/Pass/Pass.h"
#include <string>
namespace onnx_mlir {
std::unique_ptr<mlir::Pass> createConvertONNXToLinalg(const std::string &, bool) { return nullptr; }
std::unique_ptr<mlir::Pass> createConvertONNXToLinalg() { return nullptr; }
}
