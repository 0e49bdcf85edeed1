#include "models.hpp"
namespace h { static Register r("bb", &make_runner<D::BetaBernoulli>); }
