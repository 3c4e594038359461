// Stand-in of the interface of the (not available offline) TrainingTools library
#pragma once
#include <Eigen/Core>

namespace train {
using Vect = Eigen::VectorXd;

class ParametersAware {
public:
  virtual ~ParametersAware() = default;
  virtual Vect getParameters() const = 0;
  virtual void setParameters(const Vect &parameters) = 0;
  virtual Vect getGradient() const = 0;

protected:
  ParametersAware() = default;
};
} // namespace train
