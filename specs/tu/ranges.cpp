// instantiates the templates under contract; no code of its own
#include "RedshiftLibrary/common/range.h"
#include "RedshiftLibrary/common/indexing.h"
#include "RedshiftLibrary/common/vectorOperations.h"
template class NSEpic::CRange<double>;
template class NSEpic::CIndexing<double>;
template void NSEpic::insertWithDuplicates<double>(std::vector<double> &, NSEpic::Int32, std::vector<double>, NSEpic::Int32);
template void NSEpic::insertWithDuplicates<double>(std::vector<double> &, NSEpic::Int32, std::size_t, const double &, NSEpic::Int32);
