#include "models.hpp"
namespace h { static Register r("niw", &make_runner<D::NormalInverseWishart<-1>>); }
