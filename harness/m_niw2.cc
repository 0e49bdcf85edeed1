#include "models.hpp"
namespace h { static Register r("niw2", &make_runner<D::NormalInverseWishart<2>>); }
