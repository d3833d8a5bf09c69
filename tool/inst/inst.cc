// Not product code. Instantiates the library's header templates for every
// constraint family, so that the extractor sees their type-checked bodies.
#include "conex/cone_program.h"
#include "conex/dense_lmi_constraint.h"
#include "conex/equality_constraint.h"
#include "conex/hermitian_psd.h"
#include "conex/linear_constraint.h"
#include "conex/quadratic_cone_constraint.h"
#include "conex/soc_constraint.h"

namespace verif_inst {
using namespace conex;

template <typename T>
void AddAll(Program* p, T& lvalue, const std::vector<int>& vars) {
  p->AddConstraint(lvalue);
  p->AddConstraint(lvalue, vars);
  p->AddConstraint(T(lvalue));
  p->AddConstraint(T(lvalue), vars);
}

void Use(Program* p, LinearConstraint& a, LowerBound& lb, UpperBound& ub,
         SOCConstraint& b, QuadraticConstraint& c, DenseLMIConstraint& d,
         HermitianPsdConstraint<Real>& h1, HermitianPsdConstraint<Complex>& h2,
         HermitianPsdConstraint<Quaternions>& h4,
         HermitianPsdConstraint<Octonions>& h8, EqualityConstraints& e,
         const std::vector<int>& vars) {
  AddAll(p, a, vars);
  AddAll(p, lb, vars);
  AddAll(p, ub, vars);
  AddAll(p, b, vars);
  AddAll(p, c, vars);
  AddAll(p, d, vars);
  AddAll(p, h1, vars);
  AddAll(p, h2, vars);
  AddAll(p, h4, vars);
  AddAll(p, h8, vars);
  AddAll(p, e, vars);
  Eigen::MatrixXd m;
  p->GetDualVariable(0, &m);
  Eigen::Map<Eigen::MatrixXd> mm(m.data(), 1, 1);
  p->GetDualVariable(0, &mm);
}

void Use2(const Eigen::MatrixXd& A, const Eigen::MatrixXd& b, Eigen::MatrixXd& A2) {
  LinearConstraint l1(A, b);
  LinearConstraint l2(2, A, b);
  LinearConstraint l3(2, &A2, &A2);
  SOCConstraint s1(A, b);
  QuadraticConstraint q1(A, b);
  QuadraticConstraint q2(A, A, b);
  QuadraticEpigraph q3(A);
}
}  // namespace verif_inst
