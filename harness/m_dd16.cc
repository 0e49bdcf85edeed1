#include "models.hpp"
namespace h { static Register r("dd16", &make_runner<D::DirichletDiscrete<16>>); }
