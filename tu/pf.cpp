#include <richdem/common/Array2D.hpp>
#include <richdem/depressions/Barnes2014.hpp>
using namespace richdem;
template void richdem::PriorityFlood_Original<Topology::D8,double>(Array2D<double>&);
