// The library's public headers, as a C++ client sees them.
#pragma once
extern "C" {
#include "src/basic/broadcast.h"
#include "src/basic/cast.h"
#include "src/basic/duplicate.h"
#include "src/basic/factories.h"
#include "src/basic/index_utils.h"
#include "src/basic/reshape.h"
#include "src/basic/slice.h"
#include "src/basic/squeeze.h"
#include "src/core/allocator.h"
#include "src/core/tensor.h"
#include "src/math/binary_op.h"
#include "src/math/dot.h"
#include "src/math/matmul.h"
#include "src/math/sqrt.h"
#include "src/nn/batch_norm.h"
#include "src/nn/conv.h"
#include "src/nn/dropout.h"
#include "src/nn/pooling.h"
#include "src/nn/relu.h"
#include "src/nn/sigmoid.h"
#include "src/nn/softmax.h"
#include "src/nn/tanh.h"
}
