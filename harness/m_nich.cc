#include "models.hpp"
namespace h { static Register r("nich", &make_runner<D::NormalInverseChiSq>); }
