#include "models.hpp"
namespace h { static Register r("dpd", &make_runner<D::DirichletProcessDiscrete>); }
