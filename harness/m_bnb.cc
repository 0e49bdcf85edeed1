#include "models.hpp"
namespace h { static Register r("bnb", &make_runner<D::BetaNegativeBinomial>); }
