#include "models.hpp"
namespace h { static Register r("dd256", &make_runner<D::DirichletDiscrete<256>>); }
