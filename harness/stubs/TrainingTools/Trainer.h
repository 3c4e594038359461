// Stand-in of the interface of the (not available offline) TrainingTools library
#pragma once
#include <TrainingTools/ParametersAware.h>

namespace train {
class Trainer {
public:
  virtual ~Trainer() = default;
  virtual void train(ParametersAware &model) = 0;

protected:
  Trainer() = default;
};
} // namespace train
