#pragma once
#include "pybind11.h"
#include <Eigen/Core>
#include <Eigen/SparseCore>
