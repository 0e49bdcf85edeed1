#include "models.hpp"
namespace h { static Register r("niw3", &make_runner<D::NormalInverseWishart<3>>); }
