#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/optimization/multistart.hpp>
#include <sleipnir/optimization/ocp.hpp>
#include <sleipnir/optimization/problem.hpp>
template class slp::Problem<double>;
template class slp::OCP<double>;
template class slp::VariableMatrix<double>;
template class slp::Variable<double>;
template class slp::Gradient<double>;
template class slp::Jacobian<double>;
template class slp::Hessian<double, Eigen::Lower>;
template class slp::Hessian<double, Eigen::Lower | Eigen::Upper>;
