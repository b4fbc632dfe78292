#ifndef VERIF_STUB_TFF_FCB_H_
#define VERIF_STUB_TFF_FCB_H_
#include "tensorflow_federated/cc/core/impl/aggregation/protocol/checkpoint_builder.h"
namespace tensorflow_federated { namespace aggregation {
class FederatedComputeCheckpointBuilderFactory : public CheckpointBuilderFactory { public: std::unique_ptr<CheckpointBuilder> Create() const override; };
} }
#endif
