#include "models.hpp"
namespace h { static Register r("gp", &make_runner<D::GammaPoisson>); }
