// Instantiations of the secure aggregation templates.
#include "fcp/secagg/server/secagg_scheduler.h"
#include "fcp/secagg/shared/secagg_vector.h"

template class fcp::secagg::Accumulator<fcp::secagg::SecAggUnpackedVectorMap>;
