From 3c66764664e358650538980f51d6071cf816b1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:55 +0000
Subject: [PATCH 01/67] fix: differentiate powers whose exponent varies

The derivative of b^e left out b^e*log(b)*e', so that the derivative of 2^x or x^x was wrong.
---
 core/src/function_tree/operators/arithmetic.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index 0fde38a..3ee5b2d 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -958,7 +958,14 @@ std::shared_ptr<Node> PowerOperator::Differentiate(std::shared_ptr<Variable> con
 	auto ret_mult = MultOperator::Make(base_->Differentiate(v));
 	ret_mult->AddOperand(exponent_);
 	ret_mult->AddOperand(PowerOperator::Make(base_, exp_minus_one));
-	return ret_mult;
+
+	if (exponent_->Degree(v)==0) // the exponent is constant, so the power rule is all there is
+		return ret_mult;
+
+	// the exponent varies, too:  (b^e)' = e*b^(e-1)*b' + b^e*log(b)*e'
+	auto exponent_term = MultOperator::Make(PowerOperator::Make(base_, exponent_), LogOperator::Make(base_));
+	exponent_term->AddOperand(exponent_->Differentiate(v));
+	return SumOperator::Make(ret_mult, exponent_term);
 }
 
 
-- 
2.43.0


From 38e1629b1e2a0db24c0a17dc56cbbc46797af770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:22 +0000
Subject: [PATCH 02/67] fix: b^0 is 1, and its derivative 0, also where b is
 zero

In double precision the power of zero to a zero exponent was nan, so that x^1, read from an
input file, had a nan derivative at x=0.
---
 core/src/function_tree/operators/arithmetic.cpp | 12 ++++++++++--
 core/src/system/straight_line_program.cpp       |  5 ++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index 3ee5b2d..613dbe8 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -954,6 +954,9 @@ void PowerOperator::print(std::ostream & target) const
 std::shared_ptr<Node> PowerOperator::Differentiate(std::shared_ptr<Variable> const& v) const
 {
 	
+	if (std::dynamic_pointer_cast<Number>(exponent_) && exponent_->Eval<dbl>()==dbl(0.0))
+		return Integer::Make(0); // b^0 is constant.  the power rule would divide by b
+
 	auto exp_minus_one = exponent_-1;
 	auto ret_mult = MultOperator::Make(base_->Differentiate(v));
 	ret_mult->AddOperand(exponent_);
@@ -1084,7 +1087,9 @@ bool PowerOperator::IsHomogeneous(VariableGroup const& v) const
 
 dbl PowerOperator::FreshEval_d(std::shared_ptr<Variable> const& diff_variable) const
 {
-	return std::pow( base_->Eval<dbl>(diff_variable), exponent_->Eval<dbl>());
+	dbl evaluation_value;
+	this->FreshEval_d(evaluation_value, diff_variable);
+	return evaluation_value;
 }
 
 void PowerOperator::FreshEval_d(dbl& evaluation_value, std::shared_ptr<Variable> const& diff_variable) const
@@ -1093,7 +1098,10 @@ void PowerOperator::FreshEval_d(dbl& evaluation_value, std::shared_ptr<Variable>
 	exponent_->EvalInPlace<dbl>(temp_d);
 	base_->EvalInPlace<dbl>(evaluation_value, diff_variable);
 	
-	evaluation_value = std::pow(evaluation_value, temp_d);
+	if (temp_d==dbl(0)) // complex std::pow makes nan of 0^0
+		evaluation_value = dbl(1);
+	else
+		evaluation_value = std::pow(evaluation_value, temp_d);
 }
 
 
diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 176ec8f..1cde78e 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -242,7 +242,10 @@ namespace bertini{
 					break;
 
 				case Power:
-					memory[this->instructions_[ii+3]] = pow(memory[instructions_[ii+1]], memory[instructions_[ii+2]]);
+					if (std::is_same<NumT,dbl_complex>::value && memory[instructions_[ii+2]]==NumT(0)) // complex std::pow makes nan of 0^0
+						memory[this->instructions_[ii+3]] = NumT(1);
+					else
+						memory[this->instructions_[ii+3]] = pow(memory[instructions_[ii+1]], memory[instructions_[ii+2]]);
 					break;
 
 				case IntPower:
-- 
2.43.0


From 0b27eb839d691a0f7de50eff8fb376447edb33bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:02 +0000
Subject: [PATCH 03/67] fix: degrees with respect to a group of variables of
 negations, powers and products

---
 .../function_tree/operators/arithmetic.hpp    | 15 ++++
 .../function_tree/operators/arithmetic.cpp    | 71 +++++++------------
 2 files changed, 42 insertions(+), 44 deletions(-)

diff --git a/core/include/bertini2/function_tree/operators/arithmetic.hpp b/core/include/bertini2/function_tree/operators/arithmetic.hpp
index 379982d..ec735ae 100644
--- a/core/include/bertini2/function_tree/operators/arithmetic.hpp
+++ b/core/include/bertini2/function_tree/operators/arithmetic.hpp
@@ -309,6 +309,16 @@ namespace node{
 		 */
 		std::shared_ptr<Node> Differentiate(std::shared_ptr<Variable> const& v = nullptr) const override;
 
+		using UnaryOperator::Degree;
+
+		/**
+		Compute the degree with respect to a variable group.  Negation does not change it.
+		*/
+		int Degree(VariableGroup const& vars) const override
+		{
+			return operand_->Degree(vars);
+		}
+
 		bool IsHomogeneous(std::shared_ptr<Variable> const& v = nullptr) const override
 		{
 			return operand_->IsHomogeneous(v);
@@ -727,6 +737,11 @@ namespace node{
 		 Compute the degree of a node.  For integer power functions, the degree is the product of the degree of the argument, and the power.
 		 */
 		int Degree(std::shared_ptr<Variable> const& v = nullptr) const override;
+
+		/**
+		 Compute the degree with respect to a variable group:  the product of the degree of the argument, and the power.
+		 */
+		int Degree(VariableGroup const& vars) const override;
 		
 		
 		bool IsHomogeneous(std::shared_ptr<Variable> const& v = nullptr) const override
diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index 613dbe8..ca1a5ce 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -248,19 +248,14 @@ int SumOperator::Degree(VariableGroup const& vars) const
 
 std::vector<int> SumOperator::MultiDegree(VariableGroup const& vars) const
 {
-	std::vector<int> deg(vars.size(),0);
-	for (auto iter : operands_)
-	{
-		auto term_deg = iter->MultiDegree(vars);
-
-		for (auto iter = term_deg.begin(); iter!= term_deg.end(); ++iter)
-		{
-			*(deg.begin()+(iter-term_deg.begin())) = std::max(*(deg.begin()+(iter-term_deg.begin())), *iter);
-		}
-	}
+	std::vector<int> deg;
+	for (const auto& v : vars)
+		deg.push_back(this->Degree(v)); // negative if not polynomial in the variable
 	return deg;
 }
 
+
+
 void SumOperator::Homogenize(VariableGroup const& vars, std::shared_ptr<Variable> const& homvar)
 {
 	
@@ -814,16 +809,9 @@ int MultOperator::Degree(VariableGroup const& vars) const
 
 std::vector<int> MultOperator::MultiDegree(VariableGroup const& vars) const
 {
-	std::vector<int> deg(vars.size(),0);
-	for (auto iter : operands_)
-	{
-		auto term_deg = iter->MultiDegree(vars);
-
-		for (auto iter = term_deg.begin(); iter!= term_deg.end(); ++iter)
-		{
-			*(deg.begin()+(iter-term_deg.begin())) += *iter;
-		}
-	}
+	std::vector<int> deg;
+	for (const auto& v : vars)
+		deg.push_back(this->Degree(v)); // negative if not polynomial in the variable
 	return deg;
 }
 
@@ -972,15 +960,12 @@ std::shared_ptr<Node> PowerOperator::Differentiate(std::shared_ptr<Variable> con
 }
 
 
-int PowerOperator::Degree(std::shared_ptr<Variable> const& v) const
+// the degree of a power, from the degrees of its base and exponent, both with respect to the same variable(s).
+static int DegreeOfPower(int base_deg, int exp_deg, std::shared_ptr<Node> const& exponent)
 {
-	
-	auto base_deg = base_->Degree(v);
-	auto exp_deg = exponent_->Degree(v);
-	
 	if (exp_deg==0)
 	{
-		auto exp_val = exponent_->Eval<dbl>();
+		auto exp_val = exponent->Eval<dbl>();
 		bool exp_is_int = false;
 		
 		if (fabs(imag(exp_val))< 10*std::numeric_limits<double>::epsilon()) // so a real thresholding step
@@ -992,7 +977,7 @@ int PowerOperator::Degree(std::shared_ptr<Variable> const& v) const
 			if (abs(exp_val-dbl(0.0))< 10*std::numeric_limits<double>::epsilon())
 				return 0;
 			else if (real(exp_val)<0)
-				return -1;
+				return base_deg==0 ? 0 : -1; // a power of a constant is constant
 			else  // positive integer.
 			{
 				if (base_deg<0)
@@ -1018,17 +1003,15 @@ int PowerOperator::Degree(std::shared_ptr<Variable> const& v) const
 	}
 }
 
+
+int PowerOperator::Degree(std::shared_ptr<Variable> const& v) const
+{
+	return DegreeOfPower(base_->Degree(v), exponent_->Degree(v), exponent_);
+}
+
 int PowerOperator::Degree(VariableGroup const& vars) const
 {
-	auto multideg = MultiDegree(vars);
-	auto deg = 0;
-	std::for_each(multideg.begin(),multideg.end(),[&](int n){
-					if (n < 0)
-						deg = -1;
-					else
-						deg += n;
-					});
-	return deg;
+	return DegreeOfPower(base_->Degree(vars), exponent_->Degree(vars), exponent_);
 }
 
 
@@ -1189,14 +1172,14 @@ int IntegerPowerOperator::Degree(std::shared_ptr<Variable> const& v) const
 }
 
 
-
-
-
-
-
-
-
-
+int IntegerPowerOperator::Degree(VariableGroup const& vars) const
+{
+	auto base_deg = operand_->Degree(vars);
+	if (base_deg<0)
+		return base_deg;
+	else
+		return exponent_*base_deg;
+}
 
 
 //////////////
-- 
2.43.0


From fa43ca70679d81febb6e3d486bf73bed09b143f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:03 +0000
Subject: [PATCH 04/67] fix: homogenize subexpressions used in several places
 once only

---
 core/src/system/system.cpp | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index c5598d9..9180584 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -456,23 +456,18 @@ namespace bertini
 			std::stringstream converter;
 			converter << "HOM_VAR_" << group_counter;
 
-			if (already_had_homvars){
-				Var hom_var = homogenizing_variables_[group_counter];
-				VariableGroup temp_group = *curr_var_gp;
+			if (!already_had_homvars)
+				homogenizing_variables_[group_counter] = Variable::Make(converter.str());
 
-				PushFront(temp_group, hom_var);
+			Var hom_var = homogenizing_variables_[group_counter];
 
-				// temp_group.push_front(hom_var);
-				for (const auto& curr_function : functions_)
-					curr_function->Homogenize(temp_group, hom_var);
-			}
-			else
-			{
-				Var hom_var = Variable::Make(converter.str());
-				homogenizing_variables_[group_counter] = hom_var;
-				for (const auto& curr_function : functions_)
-					curr_function->Homogenize(*curr_var_gp, hom_var);
-			}
+			// the homogenizing variable is part of the group, so that subexpressions used in several places,
+			// which were already homogenized when first met, are left alone.
+			VariableGroup temp_group = *curr_var_gp;
+			PushFront(temp_group, hom_var);
+
+			for (const auto& curr_function : functions_)
+				curr_function->Homogenize(temp_group, hom_var);
 
 			group_counter++;
 		}
-- 
2.43.0


From 1c06161d05e0a14a9f7de8b8b14d18053ea3ff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:22 +0000
Subject: [PATCH 05/67] fix: do not overwrite the function tree's values by
 those of a straight line program

---
 core/include/bertini2/system/system.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index b19b93d..d25d548 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -286,11 +286,13 @@ namespace bertini {
 					for (auto iter=functions_.begin(); iter!=functions_.end(); iter++, counter++) {
 						(*iter)->EvalInPlace<T>(function_values(counter));
 					}
+					break;
 				}
 
 				case EvalMethod::SLP:
 					{
 						slp_.GetFuncValsInPlace<T>(function_values);
+						break;
 					}
 			}
 
-- 
2.43.0


From ed8ef54cb7701dd565f2dddea0416b23b07cc9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:22 +0000
Subject: [PATCH 06/67] fix: copy, move and swap all of a system's evaluation
 state

---
 core/src/system/system.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 9180584..1256a84 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -85,6 +85,10 @@ namespace bertini
 
 		swap(a.assume_uniform_precision_,b.assume_uniform_precision_);
 		swap(a.eval_method_,b.eval_method_);
+		swap(a.deriv_method_,b.deriv_method_);
+		swap(a.auto_simplify_,b.auto_simplify_);
+		swap(a.slp_,b.slp_);
+		swap(a.current_variable_values_,b.current_variable_values_);
 
 		swap(a.precision_,b.precision_);
 		swap(a.is_patched_,b.is_patched_);
@@ -113,6 +117,9 @@ namespace bertini
 
 		assume_uniform_precision_ = other.assume_uniform_precision_;
 		eval_method_ = other.eval_method_;
+		deriv_method_ = other.deriv_method_;
+		auto_simplify_ = other.auto_simplify_;
+		slp_ = other.slp_;
 
 		time_order_of_variable_groups_ = other.time_order_of_variable_groups_;
 
-- 
2.43.0


From ab41381ed6baf9ee35f9b07b30993d780f337daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:22 +0000
Subject: [PATCH 07/67] fix: adding or scaling systems leaves the operands'
 functions alone

---
 core/src/system/system.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 1256a84..307520f 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1322,7 +1322,9 @@ namespace bertini
 				throw std::runtime_error("System+=System cannot combine two patched systems whose patches differ.");
 
 		for (auto iter=functions_.begin(); iter!=functions_.end(); iter++)
-			(*iter)->SetRoot( (*(rhs.functions_.begin()+(iter-functions_.begin())))->EntryNode() + (*iter)->EntryNode());
+			*iter = Function::Make( (*(rhs.functions_.begin()+(iter-functions_.begin())))->EntryNode() + (*iter)->EntryNode(), (*iter)->name()); // not SetRoot, since copies of systems share their functions
+
+		is_differentiated_ = false;
 
 		return *this;
 	}
@@ -1337,8 +1339,9 @@ namespace bertini
 	{
 		for (auto iter=functions_.begin(); iter!=functions_.end(); iter++)
 		{
-			(*iter)->SetRoot( N * (*iter)->EntryNode());
+			*iter = Function::Make( N * (*iter)->EntryNode(), (*iter)->name()); // not SetRoot, since copies of systems share their functions
 		}
+		is_differentiated_ = false;
 		return *this;
 	}
 
-- 
2.43.0


From bfe9e8db00431bdd3a2b253ac9a02d33240a6e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:16 +0000
Subject: [PATCH 08/67] fix: recompute derivatives after functions were
 reordered

---
 core/src/system/system.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 307520f..a07de5d 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1009,6 +1009,7 @@ namespace bertini
 		}
 
 		swap(functions_, re_ordered_functions);
+		is_differentiated_ = false; // the derivatives, and the straight line program, are in the old order
 	}
 
 
@@ -1036,6 +1037,7 @@ namespace bertini
 		}
 
 		swap(functions_, re_ordered_functions);
+		is_differentiated_ = false; // the derivatives, and the straight line program, are in the old order
 	}
 
 
-- 
2.43.0


From 2df89a3a1d10e48a9a8842711d0bdb95af5fa8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:16 +0000
Subject: [PATCH 09/67] fix: clearing or copying a system's variables discards
 what was derived from the old ones

---
 core/include/bertini2/system/system.hpp | 2 +-
 core/src/system/system.cpp              | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index d25d548..43df7cc 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -873,7 +873,7 @@ namespace bertini {
 		*/
 		size_t NumPatches() const
 		{
-			return patch_.NumVariableGroups();
+			return IsPatched() ? patch_.NumVariableGroups() : 0;
 		}
 
 		/**
diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index a07de5d..a98b233 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1065,6 +1065,12 @@ namespace bertini
 
 		path_variable_.reset();
 		have_path_variable_ = false;
+
+		time_order_of_variable_groups_.clear();
+		variable_ordering_.clear();
+		have_ordering_ = false;
+		is_patched_ = false;
+		is_differentiated_ = false;
 	}
 
 
-- 
2.43.0


From 3fa652c0da21246336a83d16d455e6b6f854df51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:16 +0000
Subject: [PATCH 10/67] fix: concatenation takes over the patch of the second
 system

---
 core/src/system/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index a98b233..20b177f 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1381,7 +1381,7 @@ namespace bertini
 				throw std::runtime_error("concatenating systems with incompatible patches");
 
 		if (sys2.IsPatched() && !sys1.IsPatched())
-			sys1.CopyPatches(sys1);
+			sys1.CopyPatches(sys2);
 		// the other cases are automatically covered.  sys1 already patched, or neither patched.
 
 		for (unsigned ii(0); ii<sys2.NumNaturalFunctions(); ++ii)
-- 
2.43.0


From 3bf5cf3e4c64d37a0774f521d84640e2a1c12017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:16 +0000
Subject: [PATCH 11/67] fix: dehomogenize points of systems with several groups
 of the same kind

---
 core/include/bertini2/system/system.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index 43df7cc..8cc47dc 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -1702,19 +1702,20 @@ namespace bertini {
 							auto h = x(hom_index++);
 							for (unsigned ii = 0; ii < variable_groups_[affine_group_counter].size(); ++ii)
 								x_dehomogenized(dehom_index++) = x(hom_index++) / h;
-							affine_group_counter++;
 						}
 						else
 						{
 							for (unsigned ii = 0; ii < variable_groups_[affine_group_counter].size(); ++ii)
 								x_dehomogenized(dehom_index++) = x(hom_index++);
 						}
+						affine_group_counter++;
 						break;
 					}
 					case VariableGroupType::Homogeneous:
 					{
 						for (unsigned ii = 0; ii < hom_variable_groups_[hom_group_counter].size(); ++ii)
 							x_dehomogenized(dehom_index++) = x(hom_index++);
+						hom_group_counter++;
 						break;
 					}
 					case VariableGroupType::Ungrouped:
-- 
2.43.0


From 449088f6dc85718c35e6a7cbe83a6cdb2caeabad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:16 +0000
Subject: [PATCH 12/67] fix: changing the method of evaluation or
 differentiation takes effect on a differentiated system

---
 core/include/bertini2/system/system.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index 8cc47dc..770e226 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -1585,6 +1585,7 @@ namespace bertini {
 		void SetEvalMethod(EvalMethod method)
 		{
 			eval_method_ = method;
+			is_differentiated_ = false;
 		}
 
 		/**  
@@ -1604,6 +1605,7 @@ namespace bertini {
 		void SetDerivMethod(DerivMethod method)
 		{
 			deriv_method_ = method;
+			is_differentiated_ = false;
 		}
 
 		/**  
-- 
2.43.0


From a2f2b80a0a5e57ec33b4c40f95b2e5d46be2a938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:16 +0000
Subject: [PATCH 13/67] fix: AssumeUniformPrecision uses its argument

---
 core/include/bertini2/system/system.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index 770e226..76444af 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -1520,7 +1520,7 @@ namespace bertini {
 
 		void AssumeUniformPrecision(bool val)
 		{
-			assume_uniform_precision_ = false;
+			assume_uniform_precision_ = val;
 		}
 
 		/** 
-- 
2.43.0


From b61fcf5cf3b1f3a8098528787e3cecf90b3d5719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:03 +0000
Subject: [PATCH 14/67] fix: straight line programs track double and multiple
 precision evaluation separately

---
 .../bertini2/system/straight_line_program.hpp | 22 +++++++++++++------
 core/src/system/straight_line_program.cpp     |  5 +++--
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/core/include/bertini2/system/straight_line_program.hpp b/core/include/bertini2/system/straight_line_program.hpp
index a91ff43..a0bb457 100644
--- a/core/include/bertini2/system/straight_line_program.hpp
+++ b/core/include/bertini2/system/straight_line_program.hpp
@@ -355,7 +355,7 @@ namespace bertini {
 		 */
 		template<typename NumT>
 		void GetFuncValsInPlace(Vec<NumT> & result) const{
-			if (!is_evaluated_)
+			if (!IsEvaluated<NumT>())
 				this->EvalFunctions<NumT>();
 
 			auto& memory =  std::get<std::vector<NumT>>(memory_);
@@ -379,7 +379,7 @@ namespace bertini {
 
 		template<typename NumT>
 		void GetJacobianInPlace(Mat<NumT> & result) const{
-			if (!is_evaluated_)
+			if (!IsEvaluated<NumT>())
 				this->EvalJacobian<NumT>();
 
 			auto& memory =  std::get<std::vector<NumT>>(memory_);
@@ -405,7 +405,7 @@ namespace bertini {
 
 		template<typename NumT>
 		void GetTimeDerivInPlace(Vec<NumT> & result) const{
-			if (!is_evaluated_)
+			if (!IsEvaluated<NumT>())
 				this->EvalTimeDeriv<NumT>();
 
 			auto& memory =  std::get<std::vector<NumT>>(memory_);
@@ -520,7 +520,7 @@ namespace bertini {
 				//assign  to memory
 				memory[ii + input_locations_.Variables] = variable_values(ii);
 			}
-			is_evaluated_ = false;
+			IsEvaluated<NumT>() = false;
 		}
 
 		/**
@@ -549,7 +549,7 @@ namespace bertini {
 			auto& memory =  std::get<std::vector<ComplexT>>(memory_); // unpack for local reference
 
 			memory[input_locations_.Time] = time;
-			is_evaluated_ = false;
+			IsEvaluated<ComplexT>() = false;
 		}
 
 
@@ -609,7 +609,14 @@ namespace bertini {
 		std::vector<size_t> instructions_; //< The instructions.  The opcodes are  stored as size_t's, as well as the locations of operands and results.
 		std::vector< std::pair<Nd,size_t> > true_values_of_numbers_; //< the size_t is where in memory to downsample to.
 
-		mutable bool is_evaluated_ = false;
+		mutable bool is_evaluated_dbl_ = false; //< Are the results in double precision memory up to date?
+		mutable bool is_evaluated_mpfr_ = false; //< Are the results in multiple precision memory up to date?
+
+		template<typename NumT>
+		bool& IsEvaluated() const{
+			return std::is_same<NumT,dbl_complex>::value ? is_evaluated_dbl_ : is_evaluated_mpfr_;
+		}
+
 
 
 
@@ -632,7 +639,8 @@ namespace bertini {
 			ar & instructions_;
 			ar & true_values_of_numbers_;
 
-			ar & is_evaluated_;
+			ar & is_evaluated_dbl_;
+			ar & is_evaluated_mpfr_;
 		}
 
 	};
diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 1cde78e..74a27a9 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -85,6 +85,7 @@ namespace bertini{
 				Precision(n, new_precision);
 
 			this->precision_ = new_precision;
+			IsEvaluated<mpfr_complex>() = false;
 		}
 
 
@@ -216,7 +217,7 @@ namespace bertini{
 #endif
 
 
-		if (is_evaluated_)
+		if (IsEvaluated<NumT>())
 			return;
 
 		for (int ii = 0; ii<instructions_.size();/*the increment is done at end of loop depending on arity */) {
@@ -311,7 +312,7 @@ namespace bertini{
 			}
 		} // for loop around operations
 
-		is_evaluated_ = true;
+		IsEvaluated<NumT>() = true;
 	}
 
 	template void StraightLineProgram::Eval<dbl_complex>() const;
-- 
2.43.0


From 41df3abc9a8b9c0bd04226eac0990bd1d5e5a616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:21 +0000
Subject: [PATCH 15/67] fix: straight line programs of functions which use
 later functions, or appear twice

---
 core/src/system/straight_line_program.cpp | 78 +++++++++++------------
 1 file changed, 36 insertions(+), 42 deletions(-)

diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 74a27a9..d7bdc09 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -410,21 +410,12 @@ namespace bertini{
 		size_t location_entry = this->locations_encountered_nodes_[n];
 
 
-		size_t location_this_node;
-		if (this->locations_encountered_nodes_.find(f_as_ptr) == this->locations_encountered_nodes_.end()){
-			location_this_node = next_available_complex_;
-			locations_encountered_nodes_[f_as_ptr] = next_available_complex_++;
-		}
-		else
-			location_this_node = locations_encountered_nodes_[f_as_ptr];
-
+		// top-level functions and derivatives already have a place to go.  others get a new one.
+		const auto top_level = locations_top_level_functions_and_derivatives_.find(f_as_ptr);
+		const size_t location_this_node = top_level!=locations_top_level_functions_and_derivatives_.end() ? top_level->second : next_available_complex_++;
 
-		if (locations_top_level_functions_and_derivatives_.find(f_as_ptr)!= locations_top_level_functions_and_derivatives_.end()){ // top-level
-			slp_under_construction_.AddInstruction(Assign, location_entry, location_this_node);
-		}
-		else{ // not a top-level
-			slp_under_construction_.AddInstruction(Assign, location_entry, location_this_node);
-		}
+		locations_encountered_nodes_[f_as_ptr] = location_this_node;
+		slp_under_construction_.AddInstruction(Assign, location_entry, location_this_node);
 	}
 
 
@@ -776,8 +767,7 @@ namespace bertini{
 		slp_under_construction_.output_locations_.Functions = next_available_complex_;
 		for (auto f: sys.GetNaturalFunctions())
 		{
-			locations_top_level_functions_and_derivatives_[f] = next_available_complex_; // don't increment yet, we're listing it a few places. this is for an optimization that elides a copy for assignment.
-			locations_encountered_nodes_[f] = next_available_complex_++;
+			locations_top_level_functions_and_derivatives_[f] = next_available_complex_++; // where its value goes.  it is not yet encountered, so that functions which use it before its turn cause it to be computed first.
 
 			#ifndef BERTINI_DISABLE_FUNCTION_TREE_SANITY_CHECKS
 						try{
@@ -803,24 +793,21 @@ namespace bertini{
 		slp_under_construction_.output_locations_.Jacobian = next_available_complex_;
 		for (auto n: ds_dx)
 		{
-			locations_top_level_functions_and_derivatives_[n] = next_available_complex_; // don't increment yet, we're listing it a few places. this is for an optimization that elides a copy for assignment.
-			locations_encountered_nodes_[n] = next_available_complex_++;
+			locations_top_level_functions_and_derivatives_[n] = next_available_complex_++;
 		}
 
 
 
 
 		// sometimes have time derivatives
+		std::vector<std::shared_ptr<node::Node>> ds_dt;
 		if (sys.HavePathVariable()) {
 			
-			auto ds_dt = sys.GetTimeDerivatives();  // a linear object, so can just run down the object
+			ds_dt = sys.GetTimeDerivatives();  // a linear object, so can just run down the object
 			slp_under_construction_.number_of_.TimeDeriv = ds_dt.size();
 			slp_under_construction_.output_locations_.TimeDeriv = next_available_complex_; // note the start of the block in memory.  the size was also recorded in the previous line.
 			for (auto n: ds_dt)
-			{
-				locations_top_level_functions_and_derivatives_[n] = next_available_complex_; // don't increment yet, we're listing it a few places. this is for an optimization that elides a copy for assignment.
-				locations_encountered_nodes_[n] = next_available_complex_++;
-			}
+				locations_top_level_functions_and_derivatives_[n] = next_available_complex_++;
 		}
 
 
@@ -828,33 +815,38 @@ namespace bertini{
 
 
 		// now we're actually ready to start visiting using recursion, since we've recorded the locations of inputs and outputs.
-		
-		for (auto& f: sys.GetNaturalFunctions())
+
+		// computes a function or derivative, unless already done, and ensures its value ends up in its place.
+		auto compute_into = [this](auto const& n, size_t location)
 		{
-			f->shared_from_this();
-			f->Accept(*this);
+			if (this->locations_encountered_nodes_.find(n) == this->locations_encountered_nodes_.end())
+				n->Accept(*this);
 
-			// post visit function
-			/* code */
+			auto location_computed = this->locations_encountered_nodes_[n];
+			if (location_computed != location) // the same function appears several times in the system
+				slp_under_construction_.AddInstruction(Assign, location_computed, location);
+		};
+		
+		{
+			auto location = slp_under_construction_.output_locations_.Functions;
+			for (auto& f: sys.GetNaturalFunctions())
+				compute_into(f, location++);
 		}
 
-
-
 		
 		// always do derivatives with respect to space variables
-		for (auto n: ds_dx)
-			n->Accept(*this);
-
-
+		{
+			auto location = slp_under_construction_.output_locations_.Jacobian;
+			for (auto& n: ds_dx)
+				compute_into(n, location++);
+		}
 
 
-		// sometimes have time derivatives
-		if (sys.HavePathVariable()) {
-			
-			// we need derivatives with respect to time only if the system has a path variable defined
-			auto ds_dt = sys.GetTimeDerivatives();  // a linear object, so can just run down the object
-			for (auto n: ds_dt)
-				n->Accept(*this);
+		// we need derivatives with respect to time only if the system has a path variable defined
+		{
+			auto location = slp_under_construction_.output_locations_.TimeDeriv;
+			for (auto& n: ds_dt)
+				compute_into(n, location++);
 		}
 
 
@@ -876,6 +868,8 @@ namespace bertini{
 		next_available_int_ = 0;
 
 		locations_encountered_nodes_.clear();
+		locations_integers_.clear();
+		locations_top_level_functions_and_derivatives_.clear();
 		slp_under_construction_ = SLP();
 	}
 
-- 
2.43.0


From 55b09113e4c6dc1f53c991a536b7ce93cd4d9d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:40 +0000
Subject: [PATCH 16/67] fix: straight line programs use the values of implicit
 parameters

---
 core/include/bertini2/system/straight_line_program.hpp | 9 +++++++++
 core/include/bertini2/system/system.hpp                | 2 ++
 core/src/system/straight_line_program.cpp              | 3 +++
 3 files changed, 14 insertions(+)

diff --git a/core/include/bertini2/system/straight_line_program.hpp b/core/include/bertini2/system/straight_line_program.hpp
index a0bb457..a3bdf21 100644
--- a/core/include/bertini2/system/straight_line_program.hpp
+++ b/core/include/bertini2/system/straight_line_program.hpp
@@ -559,6 +559,15 @@ namespace bertini {
 
 		using IntT = int;  // this needs to co-vary on the stored type inside the node.  node should stop using mpz, it's slow.
 
+		/**
+		 \brief Copy the current values of number nodes, and of implicit parameters, to memory.
+		 */
+		template<typename NumT>
+		void RefreshNumbers() const{
+			CopyNumbersIntoMemory<NumT>();
+			IsEvaluated<NumT>() = false;
+		}
+
 		private:
 
 		/**
diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index 76444af..1736dc7 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -1067,6 +1067,8 @@ namespace bertini {
 			for (auto iter=implicit_parameters_.begin(); iter!=implicit_parameters_.end(); iter++, counter++)
 				(*iter)->set_current_value(new_values(counter));
 
+			if (eval_method_==EvalMethod::SLP && is_differentiated_)
+				slp_.RefreshNumbers<T>();
 		}
 
 
diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index d7bdc09..d3436dd 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -346,6 +346,9 @@ namespace bertini{
 
 
 	void SLPCompiler::Visit(node::Variable const& n){
+		// variables of the system were given their locations before visiting anything.  
+		// what's left are implicit parameters, whose values are kept in the nodes.
+		this->DealWithNumber(n);
 
 	}
 
-- 
2.43.0


From dd6efc1536e9a17dd501cf1aa370bea350706fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:01 +0000
Subject: [PATCH 17/67] fix: the Jacobian of a patch is zero in the variables
 of other groups

---
 core/include/bertini2/system/patch.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/include/bertini2/system/patch.hpp b/core/include/bertini2/system/patch.hpp
index a98fb82..e62d7b7 100644
--- a/core/include/bertini2/system/patch.hpp
+++ b/core/include/bertini2/system/patch.hpp
@@ -371,8 +371,12 @@ namespace bertini {
 			unsigned offset(jacobian.rows() - NumVariableGroups()); // by precondition this number is at least 0.  the precondition is ensured by the public wrapper
 			unsigned counter(0);
 			for (unsigned ii = 0; ii < NumVariableGroups(); ++ii)
+			{
+				for (unsigned jj=0; jj<jacobian.cols(); ++jj)
+					jacobian(ii+offset,jj) = T(0);
 				for (unsigned jj=0; jj<variable_group_sizes_[ii]; ++jj)
 					jacobian(ii+offset,counter++) = coefficients[ii](jj);
+			}
 		}
 
 		/**
-- 
2.43.0


From f2ac0124e51285b293a6e7f80c9940fe0d394fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:01 +0000
Subject: [PATCH 18/67] fix: a copy of a patch has the precision of the patch
 it was copied from

---
 core/include/bertini2/system/patch.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/system/patch.hpp b/core/include/bertini2/system/patch.hpp
index e62d7b7..f9f99c4 100644
--- a/core/include/bertini2/system/patch.hpp
+++ b/core/include/bertini2/system/patch.hpp
@@ -102,7 +102,7 @@ namespace bertini {
 		Patch(Patch const& other)
 		{	
 			variable_group_sizes_ = other.variable_group_sizes_;
-			precision_ = DefaultPrecision();
+			precision_ = other.precision_;
 
 			// a little shorthand unpacking the tuple
 			std::vector<Vec<mpfr_complex> >& coefficients_mpfr = std::get<std::vector<Vec<mpfr_complex> > >(this->coefficients_working_);
@@ -127,7 +127,8 @@ namespace bertini {
 					coefficients_highest_precision_[ii](jj) = other.coefficients_highest_precision_[ii](jj);
 
 					coefficients_dbl[ii](jj) = dbl(coefficients_highest_precision_[ii](jj));
-					coefficients_mpfr[ii](jj) = mpfr_complex(coefficients_highest_precision_[ii](jj));
+					coefficients_mpfr[ii](jj) = coefficients_highest_precision_[ii](jj);
+					coefficients_mpfr[ii](jj).precision(precision_);
 
 					assert(coefficients_highest_precision_[ii](jj) == other.coefficients_highest_precision_[ii](jj));
 				}
-- 
2.43.0


From f73ee14af673f629f24ca4834345410e35af3a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:01 +0000
Subject: [PATCH 19/67] fix: homogeneous linear slices can be made

---
 core/include/bertini2/system/slice.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/system/slice.hpp b/core/include/bertini2/system/slice.hpp
index 38a26b2..9d09481 100644
--- a/core/include/bertini2/system/slice.hpp
+++ b/core/include/bertini2/system/slice.hpp
@@ -223,7 +223,7 @@ namespace bertini {
 		/**
 		\brief the constructor for linear slices.
 		*/
-		LinearSlice(VariableGroup const& v, unsigned dim, bool homogeneous) : sliced_vars_(v), precision_(DefaultPrecision()), num_dims_sliced_(dim), coefficients_highest_precision_(dim, v.size()), is_homogeneous_(homogeneous), constants_highest_precision_(dim)
+		LinearSlice(VariableGroup const& v, unsigned dim, bool homogeneous) : sliced_vars_(v), precision_(DefaultPrecision()), num_dims_sliced_(dim), coefficients_highest_precision_(dim, v.size()), is_homogeneous_(homogeneous), constants_highest_precision_(homogeneous ? 0 : dim)
 		{ 
 			std::get<Mat<dbl> > (coefficients_working_).resize(Dimension(), NumVariables());
 			std::get<Mat<mpfr_complex> >(coefficients_working_).resize(Dimension(), NumVariables());
-- 
2.43.0


From 253a024c70bfe68af92a458e449c93a6d3ebf9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:01 +0000
Subject: [PATCH 20/67] fix: the coefficients of a slice have the precision of
 the slice

---
 core/include/bertini2/system/slice.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/system/slice.hpp b/core/include/bertini2/system/slice.hpp
index 9d09481..04c6477 100644
--- a/core/include/bertini2/system/slice.hpp
+++ b/core/include/bertini2/system/slice.hpp
@@ -166,16 +166,16 @@ namespace bertini {
 				{
 					for (unsigned jj=0; jj<NumVariables(); ++jj)
 					{
-						coefficients_mpfr(ii,jj).precision(new_precision);
 						if (new_precision>precision_)
 							coefficients_mpfr(ii,jj) = coefficients_highest_precision_(ii,jj);
+						coefficients_mpfr(ii,jj).precision(new_precision);
 					}
 					
 					if (!is_homogeneous_)
 					{
-						constants_mpfr(ii).precision(new_precision);
 						if (new_precision>precision_)
 							constants_mpfr(ii) = constants_highest_precision_(ii);
+						constants_mpfr(ii).precision(new_precision);
 					}
 				}
 			}
-- 
2.43.0


From 72589ac9100fdac11f8924a477d6b41a6d5d718f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:01 +0000
Subject: [PATCH 21/67] fix: serialize the constants and the shape of linear
 slices

---
 core/include/bertini2/system/slice.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/include/bertini2/system/slice.hpp b/core/include/bertini2/system/slice.hpp
index 04c6477..6386d19 100644
--- a/core/include/bertini2/system/slice.hpp
+++ b/core/include/bertini2/system/slice.hpp
@@ -320,11 +320,19 @@ namespace bertini {
 		template <typename Archive>
 		void serialize(Archive& ar, const unsigned version) {
 			ar & precision_;
+			ar & num_dims_sliced_;
+			ar & is_homogeneous_;
 
 			ar & coefficients_highest_precision_;
 
 			ar & std::get<0>(coefficients_working_);
 			ar & std::get<1>(coefficients_working_);
+
+			ar & constants_highest_precision_;
+
+			ar & std::get<0>(constants_working_);
+			ar & std::get<1>(constants_working_);
+
 			ar & sliced_vars_;
 		}
 
-- 
2.43.0


From c129cb575cf4c56a3061da45fb05813a6ca76a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:38 +0000
Subject: [PATCH 22/67] fix: serialize differentials

---
 .../bertini2/function_tree/symbols/differential.hpp    | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/include/bertini2/function_tree/symbols/differential.hpp b/core/include/bertini2/function_tree/symbols/differential.hpp
index 1406f27..a050f0e 100644
--- a/core/include/bertini2/function_tree/symbols/differential.hpp
+++ b/core/include/bertini2/function_tree/symbols/differential.hpp
@@ -150,18 +150,20 @@ namespace node{
 		void save(Archive & ar, const unsigned int version) const
 		{
 			ar & boost::serialization::base_object<NamedSymbol>(*this);
-			ar & differential_variable_;
-			// ar & const_cast<std::shared_ptr<const Variable> >(differential_variable_);
+			const std::shared_ptr<Variable> v = std::const_pointer_cast<Variable>(differential_variable_);
+			ar & v;
 		}
 		
 		template<class Archive>
 		void load(Archive & ar, const unsigned int version)
 		{
 			ar & boost::serialization::base_object<NamedSymbol>(*this);
-			ar & std::const_pointer_cast<Variable>(differential_variable_);
+			std::shared_ptr<Variable> v;
+			ar & v;
+			differential_variable_ = v;
 		}
 		
-		// BOOST_SERIALIZATION_SPLIT_MEMBER()
+		BOOST_SERIALIZATION_SPLIT_MEMBER()
 
 	};
 
-- 
2.43.0


From 70fe2b150fa7b23edf09e9b21be381bb0bffc134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:38 +0000
Subject: [PATCH 23/67] fix: serialize logarithms

---
 core/include/bertini2/function_tree.hpp | 1 +
 core/src/function_tree/node.cpp         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/core/include/bertini2/function_tree.hpp b/core/include/bertini2/function_tree.hpp
index 320ef12..c0067f7 100644
--- a/core/include/bertini2/function_tree.hpp
+++ b/core/include/bertini2/function_tree.hpp
@@ -101,6 +101,7 @@ BOOST_CLASS_EXPORT_KEY(bertini::node::PowerOperator)
 BOOST_CLASS_EXPORT_KEY(bertini::node::IntegerPowerOperator)
 BOOST_CLASS_EXPORT_KEY(bertini::node::SqrtOperator)
 BOOST_CLASS_EXPORT_KEY(bertini::node::ExpOperator)
+BOOST_CLASS_EXPORT_KEY(bertini::node::LogOperator)
 
 
 
diff --git a/core/src/function_tree/node.cpp b/core/src/function_tree/node.cpp
index 3542635..6540e61 100644
--- a/core/src/function_tree/node.cpp
+++ b/core/src/function_tree/node.cpp
@@ -54,6 +54,7 @@ BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::PowerOperator)
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::IntegerPowerOperator)
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::SqrtOperator)
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::ExpOperator)
+BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::LogOperator)
 
 
 
-- 
2.43.0


From 37c8198af4b8967ea1b6f1b1c339e458c29eaec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:41 +0000
Subject: [PATCH 24/67] fix: clone systems which were evaluated at a pole

---
 core/src/system/system.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 20b177f..9498be4 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -25,6 +25,9 @@
 
 #include "bertini2/system/system.hpp"
 
+#include <boost/archive/codecvt_null.hpp>
+#include <boost/math/special_functions/nonfinite_num_facets.hpp>
+
 template<typename NumType> using Vec = bertini::Vec<NumType>;
 template<typename NumType> using Mat = bertini::Mat<NumType>;
 using Nd = std::shared_ptr<bertini::node::Node>;
@@ -1445,14 +1448,19 @@ namespace bertini
 ///////////////////// attempt3.  works.  why the others generate problems with the binary archive baffles me.
 
 		std::stringstream ss;
+
+		// a system evaluated at a pole holds values which are not finite.  by default, they can be written but not read.
+		std::locale no_codecvt_locale(std::locale::classic(), new boost::archive::codecvt_null<char>);
+		std::locale put_locale(no_codecvt_locale, new boost::math::nonfinite_num_put<char>);
+		ss.imbue(std::locale(put_locale, new boost::math::nonfinite_num_get<char>));
 		{
-			boost::archive::text_oarchive oa(ss);
+			boost::archive::text_oarchive oa(ss, boost::archive::no_codecvt);
 			oa << sys;
 		}
 
 		System sys_clone;
 		{
-			boost::archive::text_iarchive ia(ss);
+			boost::archive::text_iarchive ia(ss, boost::archive::no_codecvt);
 			ia >> sys_clone;
 		}
 
-- 
2.43.0


From 1e5c3620e60c1b1a6f7303aa286ec1a17122799d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:20 +0000
Subject: [PATCH 25/67] fix: products of linears take part in changes of
 precision, and in their homogenizing variable

---
 .../function_tree/symbols/linear_product.hpp  | 41 ++++++++++++++-----
 core/src/function_tree/linear_product.cpp     | 10 +++--
 2 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/core/include/bertini2/function_tree/symbols/linear_product.hpp b/core/include/bertini2/function_tree/symbols/linear_product.hpp
index 43a0721..a10cecd 100644
--- a/core/include/bertini2/function_tree/symbols/linear_product.hpp
+++ b/core/include/bertini2/function_tree/symbols/linear_product.hpp
@@ -160,6 +160,7 @@ namespace  bertini {
 				SetupVariables(num_factors_, variables);
 				
 				coeffs_mpfr_ref = coeffs_mpfr;
+				coeffs_highest_precision_ = coeffs_mpfr;
                 
                 // If we are creating a linear product for variable group that is already homogenized,
                 //   we do not use the constant(last) column in the coefficient matrix
@@ -170,6 +171,7 @@ namespace  bertini {
 					for(int ii = 0; ii < coeffs_mpfr_ref.rows(); ++ii)
 					{
 						coeffs_mpfr_ref(ii,num_variables_) = mpfr_complex(0);
+						coeffs_highest_precision_(ii,num_variables_) = mpfr_complex(0);
 					}
 				}
 				
@@ -225,6 +227,7 @@ namespace  bertini {
 				{
 					v->Reset();
 				}
+				hom_variable_->Reset();
 			};
 			
 			
@@ -325,6 +328,7 @@ namespace  bertini {
 				
 				for (auto iter : variables_)
 					iter->precision(prec);
+				hom_variable_->precision(prec);
 
 			};
 			
@@ -386,8 +390,7 @@ namespace  bertini {
 			*/
 			void GetMPFRCoeffs(Mat<mpfr_complex>& coeffs) const
 			{
-				auto& coeffs_mpfr_ref = std::get<Mat<mpfr_complex>>(coeffs_);
-				coeffs = coeffs_mpfr_ref;
+				coeffs = coeffs_highest_precision_;
 			}
 			
 			/**
@@ -568,7 +571,9 @@ namespace  bertini {
 			
 			Mat<mpq_rational> coeffs_rat_imag_;   ///< Same as coeffs_rat_real_ but for imaginary portion of the coefficients.
 			
-			std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
+			mutable std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
+
+			Mat<mpfr_complex> coeffs_highest_precision_; ///< The coefficients as given, if they are not rational.  Those of the current precision are made from these.
 			
 			VariableGroup variables_; ///< Variables to be used in each linear factor.  Does not have to correspond directly to a variable group from the system.
 			
@@ -660,6 +665,7 @@ namespace  bertini {
 				temp_var_mp_[num_variables_] = mpfr_complex(1);
 				
 				coeffs_mpfr_ref = coeffs;
+				coeffs_highest_precision_ = coeffs;
 				
 				for (int ii = 0; ii < num_factors_; ++ii)
 				{
@@ -740,14 +746,19 @@ namespace  bertini {
 					v.precision(prec);
 				}
 				
-				Mat<mpfr_complex> coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
+				auto& coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
 				for(int ii = 0; ii < coeffs_ref.rows(); ++ii)
 				{
 					for(int jj = 0; jj < coeffs_ref.cols(); ++jj)
 					{
 						coeffs_ref(ii,jj).precision(prec);
-						coeffs_ref(ii,jj).real( static_cast<mpfr_float>(coeffs_rat_real_(ii,jj)) );
-						coeffs_ref(ii,jj).imag( static_cast<mpfr_float>(coeffs_rat_imag_(ii,jj)) );
+						if (is_rational_coeffs_)
+						{
+							coeffs_ref(ii,jj).real( mpfr_float(coeffs_rat_real_(ii,jj), prec) );
+							coeffs_ref(ii,jj).imag( mpfr_float(coeffs_rat_imag_(ii,jj), prec) );
+						}
+						else
+							coeffs_ref(ii,jj) = mpfr_complex(coeffs_highest_precision_(ii,jj), prec);
 					}
 				}
 			}
@@ -985,7 +996,7 @@ namespace  bertini {
 				if(diff_variable == hom_variable_)
 				{
 					auto& coeff_ref = std::get<Mat<dbl>>(coeffs_);
-					evaluation_value = coeff_ref(0,variables_.size()-1);
+					evaluation_value = coeff_ref(0,variables_.size());
 					return;
 				}
 				
@@ -1032,7 +1043,7 @@ namespace  bertini {
 				if(diff_variable == hom_variable_)
 				{
 					auto& coeff_ref = std::get<Mat<mpfr_complex>>(coeffs_);
-					evaluation_value = coeff_ref(0,variables_.size()-1);
+					evaluation_value = coeff_ref(0,variables_.size());
 					return;
 				}
 				
@@ -1068,7 +1079,10 @@ namespace  bertini {
 			
 			Mat<mpq_rational> coeffs_rat_imag_;   ///< Same as coeffs_rat_real_ but for imaginary portion of the coefficients.
 			
-			std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
+			mutable std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
+
+			Mat<mpfr_complex> coeffs_highest_precision_; ///< The coefficients as given, if they are not rational.  Those of the current precision are made from these.
+			bool is_rational_coeffs_ = false; ///< Do we have a rational coefficient to downsample from?
 			
 			VariableGroup variables_; ///< Differentials of variables used in the linear.
 			
@@ -1101,12 +1115,19 @@ namespace  bertini {
 			
 			void PrecisionChangeSpecific(unsigned prec) const
 			{
-				Mat<mpfr_complex> coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
+				auto& coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
 				for(int ii = 0; ii < coeffs_ref.rows(); ++ii)
 				{
 					for(int jj = 0; jj < coeffs_ref.cols(); ++jj)
 					{
 						coeffs_ref(ii,jj).precision(prec);
+						if (is_rational_coeffs_)
+						{
+							coeffs_ref(ii,jj).real( mpfr_float(coeffs_rat_real_(ii,jj), prec) );
+							coeffs_ref(ii,jj).imag( mpfr_float(coeffs_rat_imag_(ii,jj), prec) );
+						}
+						else
+							coeffs_ref(ii,jj) = mpfr_complex(coeffs_highest_precision_(ii,jj), prec);
 					}
 				}
 			}
diff --git a/core/src/function_tree/linear_product.cpp b/core/src/function_tree/linear_product.cpp
index 233a208..4bb4c6c 100644
--- a/core/src/function_tree/linear_product.cpp
+++ b/core/src/function_tree/linear_product.cpp
@@ -335,7 +335,7 @@ namespace  bertini {
 			else
 			{
 				Mat<mpfr_complex> temp_mpfr(1,num_variables_+1);
-				auto& coeffs_mp_ref = std::get<Mat<mpfr_complex>>(coeffs_);
+				auto& coeffs_mp_ref = coeffs_highest_precision_;
 				for(int jj = 0; jj < num_variables_+1; ++jj)
 				{
 					temp_mpfr(0,jj) = coeffs_mp_ref(index,jj);
@@ -371,7 +371,7 @@ namespace  bertini {
 			else
 			{
 				Mat<mpfr_complex> temp_mpfr(indices.size(),num_variables_+1);
-				auto& coeffs_mp_ref = std::get<Mat<mpfr_complex>>(coeffs_);
+				auto& coeffs_mp_ref = coeffs_highest_precision_;
 				for(int ii = 0; ii < indices.size(); ++ii)
 				{
 					for(int jj = 0; jj < num_variables_+1; ++jj)
@@ -449,7 +449,8 @@ namespace  bertini {
 			coeffs_dbl_ref.resize(1, num_variables_+1);
 			coeffs_mpfr_ref.resize(1, num_variables_+1);
 			
-			if(linear->IsRationalCoefficients())
+			is_rational_coeffs_ = linear->IsRationalCoefficients();
+			if(is_rational_coeffs_)
 			{
 				coeffs_rat_real_.resize(1, num_variables_+1);
 				coeffs_rat_real_.resize(1, num_variables_+1);
@@ -464,7 +465,8 @@ namespace  bertini {
 			}
 			else
 			{
-				linear->GetMPFRCoeffs(coeffs_mpfr_ref);
+				linear->GetMPFRCoeffs(coeffs_highest_precision_);
+				coeffs_mpfr_ref = coeffs_highest_precision_;
 				
 				for(int jj = 0; jj < num_variables_+1; ++jj)
 				{
-- 
2.43.0


From 2f0c14c6313a29a7d465ab6faac098a05ef0a345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:20 +0000
Subject: [PATCH 26/67] fix: explicit derivatives and straight line programs of
 products of linears

---
 .../function_tree/symbols/linear_product.hpp  |  8 ++++++
 .../bertini2/system/straight_line_program.hpp |  4 ++-
 core/src/function_tree/linear_product.cpp     | 27 +++++++++++++++++++
 core/src/system/straight_line_program.cpp     |  7 +++++
 4 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/function_tree/symbols/linear_product.hpp b/core/include/bertini2/function_tree/symbols/linear_product.hpp
index a10cecd..d2eb305 100644
--- a/core/include/bertini2/function_tree/symbols/linear_product.hpp
+++ b/core/include/bertini2/function_tree/symbols/linear_product.hpp
@@ -706,6 +706,14 @@ namespace  bertini {
 			
             std::shared_ptr<LinearProduct> GetLinears(std::vector<size_t> indices) const;
 
+		public:
+			/**
+			 \brief The product written with sums and products of variables and numbers.
+			 */
+			std::shared_ptr<Node> Expanded() const;
+
+		private:
+
 			
 			
 			void SetupVariables(size_t num_factors, VariableGroup const& variables)
diff --git a/core/include/bertini2/system/straight_line_program.hpp b/core/include/bertini2/system/straight_line_program.hpp
index a3bdf21..ea4737e 100644
--- a/core/include/bertini2/system/straight_line_program.hpp
+++ b/core/include/bertini2/system/straight_line_program.hpp
@@ -668,6 +668,7 @@ namespace bertini {
 			public Visitor<node::Function>,
 			public Visitor<node::Jacobian>,
 			public Visitor<node::Differential>,
+			public Visitor<node::LinearProduct>,
 
 			// arithmetic
 			public Visitor<node::SumOperator>,
@@ -690,7 +691,7 @@ namespace bertini {
 			public Visitor<node::special_number::Pi>,
 			public Visitor<node::special_number::E>
 
-			// also missing -- linears and difflinears.
+			// also missing -- difflinears.
 
 			// these abstract base types left out,
 
@@ -719,6 +720,7 @@ namespace bertini {
 			virtual void Visit(node::Function const& n);
 			virtual void Visit(node::Jacobian const& n);
 			virtual void Visit(node::Differential const& n);
+			virtual void Visit(node::LinearProduct const& n);
 
 			// arithmetic
 			virtual void Visit(node::SumOperator const& n);
diff --git a/core/src/function_tree/linear_product.cpp b/core/src/function_tree/linear_product.cpp
index 4bb4c6c..97d66b4 100644
--- a/core/src/function_tree/linear_product.cpp
+++ b/core/src/function_tree/linear_product.cpp
@@ -59,6 +59,10 @@ namespace  bertini {
 		
 		std::shared_ptr<Node> LinearProduct::Differentiate(std::shared_ptr<Variable> const& v) const
 		{
+			// a DiffLinear has a value only when evaluated with respect to a variable, as Jacobian nodes do.
+			if (v)
+				return Expanded()->Differentiate(v);
+
 			std::shared_ptr<SumOperator> ret_sum;
 			std::vector<size_t> indices;  //Those factors that are not differentiated in one particular term of the differentiated result.
             
@@ -317,6 +321,29 @@ namespace  bertini {
 		
 		
 		
+		std::shared_ptr<Node> LinearProduct::Expanded() const
+		{
+			auto coefficient = [this](size_t ii, size_t jj) -> std::shared_ptr<Node>
+			{
+				if (is_rational_coeffs_)
+					return Rational::Make(coeffs_rat_real_(ii,jj), coeffs_rat_imag_(ii,jj));
+				else
+					return Float::Make(coeffs_highest_precision_(ii,jj));
+			};
+
+			std::shared_ptr<Node> product = Integer::Make(1);
+			for (size_t ii = 0; ii < num_factors_; ++ii)
+			{
+				std::shared_ptr<Node> linear = coefficient(ii,num_variables_) * hom_variable_;
+				for (size_t jj = 0; jj < num_variables_; ++jj)
+					linear += coefficient(ii,jj) * variables_[jj];
+				product *= linear;
+			}
+			return product;
+		}
+
+
+
 		std::shared_ptr<LinearProduct> LinearProduct::GetLinears(size_t index) const
 		{
 			if(is_rational_coeffs_)
diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index d3436dd..283117a 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -402,6 +402,13 @@ namespace bertini{
 
 
 
+	void SLPCompiler::Visit(node::LinearProduct const& n){
+		const std::shared_ptr<const node::Node> expanded = n.Expanded();
+		std::const_pointer_cast<node::Node>(expanded)->Accept(*this);
+		this->locations_encountered_nodes_[std::dynamic_pointer_cast<node::LinearProduct const>(n.shared_from_this())] = this->locations_encountered_nodes_[expanded];
+	}
+
+
 	void SLPCompiler::Visit(node::Function const & f){
 		// put the location of the accepted node into memory, and copy into an output location.
 		const std::shared_ptr<node::Node>& n = f.EntryNode();
-- 
2.43.0


From fa65aae898301302e5d0f0883d59488eae452177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:24 +0000
Subject: [PATCH 27/67] fix: numbers of a straight line program change
 precision with it

---
 core/src/system/straight_line_program.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 283117a..8d3df30 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -78,6 +78,7 @@ namespace bertini{
 				auto& n = std::get<Nd>(p);
 				auto& loc = std::get<size_t>(p);
 
+				n->precision(new_precision);
 				mem[loc] = n->Eval<mpfr_complex>();
 			}
 
-- 
2.43.0


From dfbd7cc471ff982006f2fc8a82229a741de5c235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:24 +0000
Subject: [PATCH 28/67] fix: serialize products of linears

---
 .../function_tree/symbols/linear_product.hpp  | 31 ++++++++++++++++++-
 core/src/function_tree/linear_product.cpp     |  3 ++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/function_tree/symbols/linear_product.hpp b/core/include/bertini2/function_tree/symbols/linear_product.hpp
index d2eb305..e007e43 100644
--- a/core/include/bertini2/function_tree/symbols/linear_product.hpp
+++ b/core/include/bertini2/function_tree/symbols/linear_product.hpp
@@ -743,6 +743,23 @@ namespace  bertini {
 			template <typename Archive>
 			void serialize(Archive& ar, const unsigned version) {
 				ar & boost::serialization::base_object<Symbol>(*this);
+
+				ar & variables_;
+				ar & hom_variable_;
+				ar & num_factors_;
+				ar & num_variables_;
+				ar & is_rational_coeffs_;
+				ar & is_homogenized_;
+				ar & is_hom_vars_;
+				ar & coeffs_rat_real_;
+				ar & coeffs_rat_imag_;
+				ar & coeffs_highest_precision_;
+				ar & std::get<Mat<dbl>>(coeffs_);
+				ar & std::get<Mat<mpfr_complex>>(coeffs_);
+
+				// these only hold intermediate results
+				temp_var_d_.resize(num_variables_ + 1);
+				temp_var_mp_.resize(num_variables_ + 1);
 			}
 			
 			
@@ -1117,7 +1134,17 @@ namespace  bertini {
 			
 			template <typename Archive>
 			void serialize(Archive& ar, const unsigned version) {
-				ar & boost::serialization::base_object<NaryOperator>(*this);
+				ar & boost::serialization::base_object<Symbol>(*this);
+
+				ar & variables_;
+				ar & hom_variable_;
+				ar & num_variables_;
+				ar & is_rational_coeffs_;
+				ar & coeffs_rat_real_;
+				ar & coeffs_rat_imag_;
+				ar & coeffs_highest_precision_;
+				ar & std::get<Mat<dbl>>(coeffs_);
+				ar & std::get<Mat<mpfr_complex>>(coeffs_);
 			}
 			
 			
@@ -1150,6 +1177,8 @@ namespace  bertini {
 } // re: namespace bertini
 
 
+BOOST_CLASS_EXPORT_KEY(bertini::node::LinearProduct)
+BOOST_CLASS_EXPORT_KEY(bertini::node::DiffLinear)
 
 
 #endif
diff --git a/core/src/function_tree/linear_product.cpp b/core/src/function_tree/linear_product.cpp
index 97d66b4..2835351 100644
--- a/core/src/function_tree/linear_product.cpp
+++ b/core/src/function_tree/linear_product.cpp
@@ -45,6 +45,9 @@
 #include "bertini2/function_tree/symbols/linear_product.hpp"
 
 
+BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::LinearProduct)
+BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::DiffLinear)
+
 template<typename NumType> using Mat = bertini::Mat<NumType>;
 
 namespace  bertini {
-- 
2.43.0


From c7a33e04f369d588987feb6f372b591a059426a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:18 +0000
Subject: [PATCH 29/67] fix: coefficients of products of linears have the
 working precision

---
 core/include/bertini2/function_tree/symbols/linear_product.hpp | 2 ++
 core/src/function_tree/linear_product.cpp                      | 1 +
 2 files changed, 3 insertions(+)

diff --git a/core/include/bertini2/function_tree/symbols/linear_product.hpp b/core/include/bertini2/function_tree/symbols/linear_product.hpp
index e007e43..7b9e9fd 100644
--- a/core/include/bertini2/function_tree/symbols/linear_product.hpp
+++ b/core/include/bertini2/function_tree/symbols/linear_product.hpp
@@ -161,6 +161,7 @@ namespace  bertini {
 				
 				coeffs_mpfr_ref = coeffs_mpfr;
 				coeffs_highest_precision_ = coeffs_mpfr;
+				Precision(coeffs_mpfr_ref, DefaultPrecision());
                 
                 // If we are creating a linear product for variable group that is already homogenized,
                 //   we do not use the constant(last) column in the coefficient matrix
@@ -666,6 +667,7 @@ namespace  bertini {
 				
 				coeffs_mpfr_ref = coeffs;
 				coeffs_highest_precision_ = coeffs;
+				Precision(coeffs_mpfr_ref, DefaultPrecision());
 				
 				for (int ii = 0; ii < num_factors_; ++ii)
 				{
diff --git a/core/src/function_tree/linear_product.cpp b/core/src/function_tree/linear_product.cpp
index 2835351..cce65d3 100644
--- a/core/src/function_tree/linear_product.cpp
+++ b/core/src/function_tree/linear_product.cpp
@@ -497,6 +497,7 @@ namespace  bertini {
 			{
 				linear->GetMPFRCoeffs(coeffs_highest_precision_);
 				coeffs_mpfr_ref = coeffs_highest_precision_;
+				Precision(coeffs_mpfr_ref, DefaultPrecision());
 				
 				for(int jj = 0; jj < num_variables_+1; ++jj)
 				{
-- 
2.43.0


From b93e7edd7904964ca2a5ebc04b3a7b6b766c98f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:26 +0000
Subject: [PATCH 30/67] fix: multiplying a start system by a node ends

---
 core/src/system/start/mhom.cpp         | 2 +-
 core/src/system/start/total_degree.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/system/start/mhom.cpp b/core/src/system/start/mhom.cpp
index e237a43..51c105d 100644
--- a/core/src/system/start/mhom.cpp
+++ b/core/src/system/start/mhom.cpp
@@ -101,7 +101,7 @@ namespace bertini
 		
 		MHomogeneous& MHomogeneous::operator*=(Nd const& n)
 		{
-			*this *= n;
+			System::operator*=(n);
 			return *this;
 		}
 		
diff --git a/core/src/system/start/total_degree.cpp b/core/src/system/start/total_degree.cpp
index 04d7f48..ddda8cc 100644
--- a/core/src/system/start/total_degree.cpp
+++ b/core/src/system/start/total_degree.cpp
@@ -52,7 +52,7 @@ namespace bertini {
 		
 		TotalDegree& TotalDegree::operator*=(Nd const& n)
 		{
-			*this *= n;
+			System::operator*=(n);
 			return *this;
 		}
 		
-- 
2.43.0


From f91477540ebcaa49a35667697d32dc45fef4f8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:26 +0000
Subject: [PATCH 31/67] fix: m-homogeneous start systems of patched systems,
 and of groups of both kinds

---
 core/src/system/start/mhom.cpp | 55 +++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/core/src/system/start/mhom.cpp b/core/src/system/start/mhom.cpp
index 51c105d..ac06302 100644
--- a/core/src/system/start/mhom.cpp
+++ b/core/src/system/start/mhom.cpp
@@ -225,15 +225,12 @@ namespace bertini
 			Vec<int> current_partition = -1*Vec<int>::Ones(target_system.NumNaturalFunctions());
 			Vec<int> variable_group_counter = Vec<int>::Zero(target_system.NumTotalVariableGroups());
 
-			auto size_of_each_var_gp = target_system.VariableGroupSizes(); //K
-			
-
-
-
-
+			// the number of linears needed from each group is its dimension.  a patch takes one off the homogeneous ones.
 			for(int ii = 0; ii < target_system.NumTotalVariableGroups(); ++ii)
 			{
-				variable_group_counter[ii] = size_of_each_var_gp[ii];
+				variable_group_counter[ii] = var_groups_[ii].size();
+				if (target_system.IsPatched() && ii < target_system.NumHomVariableGroups())
+					variable_group_counter[ii] -= 1;
 			}			    
 			// std::cout << "variable_group_counter is " << std::endl;
 			// std::cout << variable_group_counter << std::endl;		
@@ -349,7 +346,7 @@ namespace bertini
 			
 			
 			// First, determine which partition we are looking through
-			int counter = 0;
+			unsigned long long counter = 0;
 			int partition_ii = -1;
 			for (int ii = 0; ii < valid_partitions_.size(); ++ii)
 			{
@@ -385,9 +382,11 @@ namespace bertini
 			
 			// Create a linear system to solve.
 			size_t num_grouped_variables = NumNaturalVariables() - NumUngroupedVariables();
-			Mat<T> A(partition.size(), num_grouped_variables);
+			// the homogeneous groups of a patched system each have a coordinate to spare.  it is set to 1 here, and the point scaled to the patch later.
+			size_t num_scaled_groups = IsPatched() ? NumHomVariableGroups() : 0;
+			Mat<T> A(partition.size() + num_scaled_groups, num_grouped_variables);
 			Vec<T> v(num_grouped_variables);
-			Vec<T> b(partition.size());
+			Vec<T> b(partition.size() + num_scaled_groups);
 			
 			for(int ii = 0; ii < partition.size(); ++ii)
 			{
@@ -403,17 +402,33 @@ namespace bertini
 				b(ii) = -coeff[cols.size()];
 			}
 			
-			start_point = A.partialPivLu().solve(b);
-			
-			
-			var_groups_[0][0]->set_current_value(start_point(0));
-			var_groups_[0][1]->set_current_value(start_point(1));
-			
-			std::shared_ptr<node::Node> f = Function(0);
-			// !!! superfluous line?
-			
-			
+			for(size_t ii = 0; ii < num_scaled_groups; ++ii)
+			{
+				v.setZero();
+				v(variable_cols_[ii].back()) = T(1);
+				A.row(partition.size() + ii) = v;
+				b(partition.size() + ii) = T(1);
+			}
+
+			Vec<T> solution = A.partialPivLu().solve(b);
+
+			// the columns of the linear system are in the order of var_groups_.  put the values where the variables are, homogenizing variables being 1.
+			VariableGroup grouped_variables;
+			for (auto const& g : var_groups_)
+				grouped_variables.insert(grouped_variables.end(), g.begin(), g.end());
+
+			auto const& ordering = Variables();
+			for (size_t ii = 0; ii < ordering.size(); ++ii)
+			{
+				auto found = std::find(grouped_variables.begin(), grouped_variables.end(), ordering[ii]);
+				if (found == grouped_variables.end())
+					start_point(ii) = T(1);
+				else
+					start_point(ii) = solution(found - grouped_variables.begin());
+			}
 
+			if (IsPatched())
+				RescalePointToFitPatchInPlace(start_point);
 		}
 		
 		
-- 
2.43.0


From 939465cdaa1b6c05f1df0f8fd2c1f9cf67be061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:26 +0000
Subject: [PATCH 32/67] fix: serialize m-homogeneous start systems

---
 core/include/bertini2/system/start/mhom.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/include/bertini2/system/start/mhom.hpp b/core/include/bertini2/system/start/mhom.hpp
index 7bea77a..24a7348 100644
--- a/core/include/bertini2/system/start/mhom.hpp
+++ b/core/include/bertini2/system/start/mhom.hpp
@@ -136,6 +136,11 @@ namespace bertini
 			{
 				ar & boost::serialization::base_object<StartSystem>(*this);
 				ar & degrees_;
+				ar & degree_matrix_;
+				ar & valid_partitions_;
+				ar & var_groups_;
+				ar & linprod_matrix_;
+				ar & variable_cols_;
 			}
 
 		};
-- 
2.43.0


From 5e808b606f8050ea203572fa81ad582dddf1b313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:56 +0000
Subject: [PATCH 33/67] fix: a sign applies to the factor after it, not to the
 rest of the expression

---
 core/include/bertini2/io/parsing/function_rules.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/io/parsing/function_rules.hpp b/core/include/bertini2/io/parsing/function_rules.hpp
index 3dcdf40..ca208a4 100644
--- a/core/include/bertini2/io/parsing/function_rules.hpp
+++ b/core/include/bertini2/io/parsing/function_rules.hpp
@@ -184,6 +184,10 @@ namespace bertini {
 					
 					factor_.name("factor_");
 					factor_ =
+					(lit('-') > factor_ [_val = -_1])
+					|
+					(lit('+') > factor_ [_val = _1])
+					|
 					exp_elem_ [_val = _1]
 					>> *(lit('^') // any number of ^somethings
 						 > exp_elem_ [ phx::bind( []
@@ -198,8 +202,8 @@ namespace bertini {
 					exp_elem_ =
 					(symbol_  >> !qi::alnum) [_val = _1]
 					|   ( '(' > expression_  [_val = _1] > ')'  ) // using the > expectation here.
-					|   (lit('-') > expression_  [_val = -_1])
-					|   (lit('+') > expression_  [_val = _1])
+					|   (lit('-') > exp_elem_  [_val = -_1]) // a signed exponent
+					|   (lit('+') > exp_elem_  [_val = _1])
 					|   (lit("sin") > '(' > expression_ [_val = sin_lazy(_1)] > ')' )
 					|   (lit("cos") > '(' > expression_ [_val = cos_lazy(_1)] > ')' )
 					|   (lit("tan") > '(' > expression_ [_val = tan_lazy(_1)] > ')' )
-- 
2.43.0


From 62630b82de9c2256b4f20f128090c5935d04e204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:56 +0000
Subject: [PATCH 34/67] fix: parse numbers in exponential notation without a
 point, or with a plus sign in the exponent

---
 .../bertini2/io/parsing/function_rules.hpp        |  2 ++
 core/include/bertini2/io/parsing/number_rules.hpp | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/core/include/bertini2/io/parsing/function_rules.hpp b/core/include/bertini2/io/parsing/function_rules.hpp
index ca208a4..80d3ffa 100644
--- a/core/include/bertini2/io/parsing/function_rules.hpp
+++ b/core/include/bertini2/io/parsing/function_rules.hpp
@@ -240,6 +240,8 @@ namespace bertini {
 					number_ =
 					mpfr_rules_.long_number_string_ [ _val = make_shared_<Float>()(_1) ]
 					|
+					mpfr_rules_.integer_with_exponent_string_ [ _val = make_shared_<Float>()(_1) ]
+					|
 					mpfr_rules_.integer_string_ [ _val = make_shared_<Integer>()(_1) ];
 					
 					
diff --git a/core/include/bertini2/io/parsing/number_rules.hpp b/core/include/bertini2/io/parsing/number_rules.hpp
index 8ced877..ee7566e 100644
--- a/core/include/bertini2/io/parsing/number_rules.hpp
+++ b/core/include/bertini2/io/parsing/number_rules.hpp
@@ -90,6 +90,13 @@ namespace bertini{
 				>> -exponent_notation_ [_val += _1];
 				
 				
+				integer_with_exponent_string_.name("integer_with_exponent_string_");
+				integer_with_exponent_string_ = eps[_val = std::string()] >>
+				-(qi::lit('-'))[_val += "-"] >>
+				number_with_no_point_ [_val += _1]
+				>> exponent_notation_ [_val += _1];
+				
+				
 				long_number_string_.name("long_number_string_");
 				long_number_string_ = eps[_val = std::string()] >>
 				-(qi::lit('-'))[_val += "-"] >>
@@ -132,9 +139,7 @@ namespace bertini{
 				number_with_no_point_.name("number_with_no_point_");
 				number_with_no_point_ = eps[_val = std::string()]
 				>>
-				(-(qi::lit('-')[_val += "-"]) // then an optional minus sign
-				>>
-				+(qi::char_(L'0',L'9'))[_val += _1])
+				+(qi::char_(L'0',L'9')[_val += _1])
 				;
 				
 				
@@ -149,7 +154,7 @@ namespace bertini{
 					 qi::lit('E')[_val += "e"] // get an opening 'e'
 					 )
 					>>
-					-(qi::lit('-')[_val += "-"]) // then an optional minus sign
+					-(qi::lit('-')[_val += "-"] | qi::lit('+')) // then an optional sign
 					>>
 					+(qi::char_(L'0',L'9')[_val += _1]) // then at least one number
 					); // finish the rule off
@@ -165,7 +170,7 @@ namespace bertini{
 			
 			
 			// these rules all produce strings which are fed into numbers.
-			qi::rule<Iterator, std::string()> number_string_, integer_string_, long_number_string_, number_with_digits_before_point_,
+			qi::rule<Iterator, std::string()> number_string_, integer_string_, integer_with_exponent_string_, long_number_string_, number_with_digits_before_point_,
 			number_with_digits_after_point_, number_with_no_point_, exponent_notation_, rational;
 			
 
-- 
2.43.0


From 332effd168a8fbf75ef717e8843dc07abfc7c8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:56 +0000
Subject: [PATCH 35/67] fix: names may begin with the name of something
 declared before, or with a keyword

---
 .../bertini2/io/parsing/system_rules.hpp      | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/core/include/bertini2/io/parsing/system_rules.hpp b/core/include/bertini2/io/parsing/system_rules.hpp
index d8083ed..16d0a1a 100644
--- a/core/include/bertini2/io/parsing/system_rules.hpp
+++ b/core/include/bertini2/io/parsing/system_rules.hpp
@@ -169,15 +169,15 @@ namespace bertini {
 					variables_.name("variables_"); hom_variable_group_.name("hom_variable_group_"); variable_group_.name("variable_group_"); implicit_parameters_.name("implicit_parameters_");
 					
 					
-					variables_			= "variable" > genericvargp_ > ';';
-					hom_variable_group_ = "hom_variable_group" > genericvargp_ > ';';
-					variable_group_		= "variable_group" > genericvargp_ > ';';
-					implicit_parameters_ = "implicit_parameter" > genericvargp_ > ';';
+					variables_			= lexeme["variable" >> !name_character_] > genericvargp_ > ';';
+					hom_variable_group_ = lexeme["hom_variable_group" >> !name_character_] > genericvargp_ > ';';
+					variable_group_		= lexeme["variable_group" >> !name_character_] > genericvargp_ > ';';
+					implicit_parameters_ = lexeme["implicit_parameter" >> !name_character_] > genericvargp_ > ';';
 					
 					
 					
 					path_variable_.name("path_variable_");
-					path_variable_ = "pathvariable" > new_variable_ > ';';
+					path_variable_ = lexeme["pathvariable" >> !name_character_] > new_variable_ > ';';
 					
 					
 					
@@ -194,9 +194,9 @@ namespace bertini {
 					
 					functions_.name("functions_"); constants_.name("constants_"); parameters_.name("parameters_");
 					
-					functions_ = "function" > genericfuncgp_ > ';';
-					constants_ = "constant" > genericfuncgp_ > ';';
-					parameters_ = "parameter" > genericfuncgp_ > ';';
+					functions_ = lexeme["function" >> !name_character_] > genericfuncgp_ > ';';
+					constants_ = lexeme["constant" >> !name_character_] > genericfuncgp_ > ';';
+					parameters_ = lexeme["parameter" >> !name_character_] > genericfuncgp_ > ';';
 					
 					
 					genericfuncgp_.name("genericfuncgp_");
@@ -214,12 +214,15 @@ namespace bertini {
 					
 					// this rule gets a string.
 					unencountered_symbol_.name("unencountered_symbol_");
-					unencountered_symbol_ = valid_variable_name_ - lexeme[( declarative_symbols_ | encountered_symbols_ )];
+					unencountered_symbol_ = valid_variable_name_ - lexeme[( declarative_symbols_ >> !name_character_ ) | ( encountered_symbols_ >> !name_character_ )];
 					// i am unsure about the use of lexeme in the above rule (unencountered_symbol).
 					
 					
 					
 					
+					name_character_.name("name_character_");
+					name_character_ = qi::alnum | qi::char_("[]_");
+					
 					// get a string which fits the naming rules.
 					valid_variable_name_.name("valid_variable_name_");
 					valid_variable_name_ = +qi::alpha >> *(qi::alnum | qi::char_("[]_") );
@@ -331,6 +334,9 @@ namespace bertini {
 				// the rule which determines valid variable names
 				qi::rule<Iterator, std::string()> valid_variable_name_;
 				
+				// what a name may continue with
+				qi::rule<Iterator> name_character_;
+				
 				qi::rule<Iterator, Skipper, qi::unused_type> definition_;
 				
 				// symbol declarations
-- 
2.43.0


From efd14997a42ca3ee17181b9871db7ce67eebb8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:53 +0000
Subject: [PATCH 36/67] fix: functions keep the name they were made with

---
 core/src/function_tree/roots/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/function_tree/roots/function.cpp b/core/src/function_tree/roots/function.cpp
index 69aa42a..3476722 100644
--- a/core/src/function_tree/roots/function.cpp
+++ b/core/src/function_tree/roots/function.cpp
@@ -211,11 +211,11 @@ void Handle::precision(unsigned int prec) const
 
 
 
-Function::Function(std::string const& new_name) : Handle(new_name)
+Function::Function(std::string const& new_name) : NamedSymbol(new_name), Handle(new_name)
 { }
 
 
-Function::Function(const std::shared_ptr<Node> & entry, std::string const& name) : Handle(entry, name)
+Function::Function(const std::shared_ptr<Node> & entry, std::string const& name) : NamedSymbol(name), Handle(entry, name)
 {
 }
 
-- 
2.43.0


From cb84c584b3149f2ec583823afebb4c77cfce8bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:12 +0000
Subject: [PATCH 37/67] fix: integers with leading zeros are decimal

---
 core/include/bertini2/io/parsing/number_rules.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/bertini2/io/parsing/number_rules.hpp b/core/include/bertini2/io/parsing/number_rules.hpp
index ee7566e..8e5bbb3 100644
--- a/core/include/bertini2/io/parsing/number_rules.hpp
+++ b/core/include/bertini2/io/parsing/number_rules.hpp
@@ -139,6 +139,8 @@ namespace bertini{
 				number_with_no_point_.name("number_with_no_point_");
 				number_with_no_point_ = eps[_val = std::string()]
 				>>
+				*(qi::lit('0') >> &qi::char_(L'0',L'9')) // leading zeros would make the number octal
+				>>
 				+(qi::char_(L'0',L'9')[_val += _1])
 				;
 				
-- 
2.43.0


From 137281d62d2bca18fc7186f8154255b4ab70463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:12 +0000
Subject: [PATCH 38/67] fix: write doubles correctly in the classic and C++
 formats

---
 core/include/bertini2/io/generators.hpp | 33 +++++++++++++++++++------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/core/include/bertini2/io/generators.hpp b/core/include/bertini2/io/generators.hpp
index 36c2c09..7390472 100644
--- a/core/include/bertini2/io/generators.hpp
+++ b/core/include/bertini2/io/generators.hpp
@@ -52,6 +52,11 @@ BOOST_MATH_STD_USING
 
 #include <boost/spirit/include/support_istream_iterator.hpp>
 
+#include <iomanip>
+#include <limits>
+#include <sstream>
+#include <string>
+
 
 
 // BOOST_FUSION_ADAPT_ADT(
@@ -99,6 +104,18 @@ namespace bertini{
 
 
 
+		/**
+		\brief Write a double in scientific notation, with enough digits to get it back.
+
+		Karma's real generator miscounts the zeros after the point of some numbers, such as 11, when asked for this many digits.
+		*/
+		inline std::string FullPrecString(double x)
+		{
+			std::ostringstream out;
+			out << std::scientific << std::setprecision(std::numeric_limits<double>::max_digits10 - 1) << x;
+			return out.str();
+		}
+
 		template<typename Num>
 		using FullPrec = boost::spirit::karma::real_generator<Num, BertiniNumPolicy<Num> >;
 
@@ -118,11 +135,11 @@ namespace bertini{
 
 	                //  Begin grammar
 	                (
-	                   full_prec_d << " " << full_prec_d
+	                   boost::spirit::karma::string << " " << boost::spirit::karma::string
 	                ),
 	                //  End grammar
 
-	                c, 0     //  Data to output
+	                FullPrecString(c), FullPrecString(0)     //  Data to output
 	                );
 			}
 
@@ -137,11 +154,11 @@ namespace bertini{
 
 	                //  Begin grammar
 	                (
-	                   full_prec_d << " " << full_prec_d
+	                   boost::spirit::karma::string << " " << boost::spirit::karma::string
 	                ),
 	                //  End grammar
 
-	                c.real(), c.imag()     //  Data to output
+	                FullPrecString(c.real()), FullPrecString(c.imag())     //  Data to output
 	                );
 			}
 
@@ -211,16 +228,18 @@ namespace bertini{
 	            using boost::spirit::karma::omit;
 	            using boost::spirit::karma::generate;
 
+	            if (c.imag() == 0.0)
+	            	return generate(sink, boost::spirit::karma::string, FullPrecString(c.real()));
+
 	            return generate(sink,
 
 	                //  Begin grammar
 	                (
-	                   !full_prec_d(0.0) << '(' << full_prec_d << ", " << full_prec_d << ')'
-	                |   omit[full_prec_d] << full_prec_d
+	                   '(' << boost::spirit::karma::string << ", " << boost::spirit::karma::string << ')'
 	                ),
 	                //  End grammar
 
-	                c.imag(), c.real(), c.imag()     //  Data to output
+	                FullPrecString(c.real()), FullPrecString(c.imag())     //  Data to output
 	                );
 			}
 		};
-- 
2.43.0


From 9d515481deb0cabaa0c648399b0501b3ab3f8bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:48 +0000
Subject: [PATCH 39/67] fix: splitting an input file keeps nothing of the forms
 which did not match

---
 core/include/bertini2/io/parsing/classic_utilities.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/io/parsing/classic_utilities.hpp b/core/include/bertini2/io/parsing/classic_utilities.hpp
index 132bba0..0825d52 100644
--- a/core/include/bertini2/io/parsing/classic_utilities.hpp
+++ b/core/include/bertini2/io/parsing/classic_utilities.hpp
@@ -256,10 +256,10 @@ namespace bertini {
 					config_ = no_case[*(char_ - "CONFIG") >> "CONFIG"];
 					
 					end_.name("end_");
-					end_ = no_case[lexeme[*(char_ - "END;")] >> "END;"];
+					end_ = qi::hold[no_case[lexeme[*(char_ - "END;")] >> "END;"]]; // hold, because a failed match must not leave its text behind
 					
 					input_.name("input_");
-					input_ = no_case[lexeme[*(char_ - "INPUT")] >> "INPUT"];
+					input_ = qi::hold[no_case[lexeme[*(char_ - "INPUT")] >> "INPUT"]];
 					
 					
 					
-- 
2.43.0


From f83a21b69c5e3f2762c6b889ff92ce71a16caf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:12 +0000
Subject: [PATCH 40/67] fix: SliceFinalTol is not FinalTol

---
 .../io/parsing/settings_parsers/algorithm.hpp     | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp b/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
index 35a666f..5daed2a 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
@@ -96,36 +96,39 @@ namespace bertini {
 					all_names_ = (no_case[newton_before_name] >> ':') | (no_case[newton_during_name] >> ':')| (no_case[final_tol_name] >> ':')
 					| (no_case[path_trunc_name] >> ':');
 					
+					// settings whose names end with the name of one of these
+					other_names_ = no_case["slicefinaltol"];
+					
 					newton_before_endgame_.name("newton_before_endgame_");
-					newton_before_endgame_ = *(char_ - all_names_) >> (no_case[newton_before_name] >> ':')
+					newton_before_endgame_ = *(other_names_ | (char_ - all_names_)) >> (no_case[newton_before_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					newton_during_endgame_.name("newton_during_endgame_");
-					newton_during_endgame_ = *(char_ - all_names_) >> (no_case[newton_during_name] >>':')
+					newton_during_endgame_ = *(other_names_ | (char_ - all_names_)) >> (no_case[newton_during_name] >>':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					final_tol_.name("final_tol_");
-					final_tol_ = *(char_ - all_names_) >> (no_case[final_tol_name] >> ':')
+					final_tol_ = *(other_names_ | (char_ - all_names_)) >> (no_case[final_tol_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					path_trunc_threshold_.name("path_trunc_threshold_");
-					path_trunc_threshold_ = *(char_ - all_names_) >> (no_case[path_trunc_name] >> ':')
+					path_trunc_threshold_ = *(other_names_ | (char_ - all_names_)) >> (no_case[path_trunc_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - all_names_);
+					no_setting_ = *(other_names_ | (char_ - all_names_));
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
@@ -156,7 +159,7 @@ namespace bertini {
 				qi::rule<Iterator, algorithm::TolerancesConfig(), ascii::space_type > root_rule_;
 				qi::rule<Iterator, T(), ascii::space_type > newton_before_endgame_, newton_during_endgame_,
 				final_tol_, path_trunc_threshold_;
-				qi::rule<Iterator, ascii::space_type, std::string()> no_decl_, no_setting_, all_names_;
+				qi::rule<Iterator, ascii::space_type, std::string()> no_decl_, no_setting_, all_names_, other_names_;
 				rules::LongNum<Iterator> mpfr_rules;
 				
 				
-- 
2.43.0


From bd573c779e2660b165898f32e1c06507e21f0568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:12 +0000
Subject: [PATCH 41/67] fix: the name of the path variable does not include the
 settings before it

---
 core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp b/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
index 5daed2a..e53149e 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
@@ -254,7 +254,7 @@ namespace bertini {
 
 
 					path_variable_name_.name("path_variable_name_");
-					path_variable_name_ = *(char_ - all_names_) >> (no_case[path_variable_name_name] >> ':') >> valid_variable_name_ >> ';';
+					path_variable_name_ = omit[*(char_ - all_names_)] >> (no_case[path_variable_name_name] >> ':') >> valid_variable_name_ >> ';';
 
 					init_prec_.name("init_prec_");
 					init_prec_ = *(char_ - all_names_) >> (no_case[init_prec_name] >> ':') >> qi::int_[_val=_1] >> ';';
-- 
2.43.0


From 3cd324fca009ab41cad8a940ab9215ced4cc0fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:34 +0000
Subject: [PATCH 42/67] fix: random unit complex numbers in multiple precision
 have modulus one

---
 core/include/bertini2/random.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/random.hpp b/core/include/bertini2/random.hpp
index 7485052..3b882f5 100644
--- a/core/include/bertini2/random.hpp
+++ b/core/include/bertini2/random.hpp
@@ -215,7 +215,7 @@ using bertini::RandomMp;
 	inline complex rand_unit()
 	{
 		complex returnme( RandomMp(mpfr_float(-1),mpfr_float(1)), RandomMp(mpfr_float(-1),mpfr_float(1)) );
-		return returnme / sqrt( abs(returnme));
+		return returnme / abs(returnme);
 	}
 
 	inline complex RandomUnit()
@@ -256,7 +256,7 @@ using bertini::RandomMp;
 		a.precision(num_digits);
 		
 		complex temp(RandomMp(num_digits),RandomMp(num_digits));
-		a = std::move(temp/sqrt(abs(temp)));
+		a = std::move(temp/abs(temp));
 		DefaultPrecision(cached);
 	}
 
-- 
2.43.0


From 4aa0ac3dee3e6586b3ed3d6395e86421762fb038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:22 +0000
Subject: [PATCH 43/67] fix: trackers in fixed precision grow the step size
 after consecutive successes

---
 .../trackers/fixed_precision_tracker.hpp      | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/core/include/bertini2/trackers/fixed_precision_tracker.hpp b/core/include/bertini2/trackers/fixed_precision_tracker.hpp
index f8f6998..c067996 100644
--- a/core/include/bertini2/trackers/fixed_precision_tracker.hpp
+++ b/core/include/bertini2/trackers/fixed_precision_tracker.hpp
@@ -259,6 +259,7 @@ namespace bertini{
 			void OnStepSuccess() const override
 			{
 				Base::IncrementBaseCountersSuccess();
+				IncreaseStepsizeIfEarned();
 				this->NotifyObservers(SuccessfulStep<EmitterType >(*this));
 			}
 
@@ -274,6 +275,24 @@ namespace bertini{
 
 
 
+			/**
+			\brief Count a successful step, and after sufficiently many consecutive ones, grow the stepsize, up to the maximum.
+			*/
+			void IncreaseStepsizeIfEarned() const
+			{
+				if (++this->num_successful_steps_since_stepsize_increase_ < Get<Stepping>().consecutive_successful_steps_before_stepsize_increase)
+					return;
+
+				this->num_successful_steps_since_stepsize_increase_ = 0;
+
+				RT grown = this->current_stepsize_ * RT(Get<Stepping>().step_size_success_factor);
+				const RT largest(Get<Stepping>().max_step_size);
+				if (grown > largest)
+					grown = largest;
+				if (grown > this->current_stepsize_)
+					this->current_stepsize_ = grown;
+			}
+
 			void OnInfiniteTruncation() const override
 			{
 				this->NotifyObservers(InfinitePathTruncation<EmitterType>(*this));
-- 
2.43.0


From 123982310afd76716009c8ceb0af444728bea7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:50 +0000
Subject: [PATCH 44/67] fix: needing more than the maximum precision ends a
 path, not the program

---
 core/include/bertini2/trackers/amp_tracker.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/include/bertini2/trackers/amp_tracker.hpp b/core/include/bertini2/trackers/amp_tracker.hpp
index 233a74f..7064eb2 100644
--- a/core/include/bertini2/trackers/amp_tracker.hpp
+++ b/core/include/bertini2/trackers/amp_tracker.hpp
@@ -441,6 +441,7 @@ namespace bertini{
 
 				initial_precision_ = Precision(start_point(0));
 				DefaultPrecision(initial_precision_);
+				next_precision_ = initial_precision_;
 				// set up the master current time and the current step size
 				
 				current_time_ = start_time;
@@ -512,16 +513,14 @@ namespace bertini{
 				if (initial_refinement_code!=SuccessCode::Success)
 				{
 					do {
-						if (current_precision_ > Get<PrecConf>().maximum_precision)
+						const unsigned higher_precision = (current_precision_==DoublePrecision()) ? LowestMultiplePrecision() : current_precision_+PrecisionIncrement();
+						if (higher_precision > Get<PrecConf>().maximum_precision)
 						{
 							NotifyObservers(SingularStartPoint<EmitterType>(*this));
 							return SuccessCode::SingularStartPoint;
 						}
 
-						if (current_precision_==DoublePrecision())
-							initial_refinement_code = ChangePrecision<upsample_refine_on>(LowestMultiplePrecision());
-						else
-							initial_refinement_code = ChangePrecision<upsample_refine_on>(current_precision_+PrecisionIncrement());
+						initial_refinement_code = ChangePrecision<upsample_refine_on>(higher_precision);
 					}
 					while (initial_refinement_code!=SuccessCode::Success);
 				}
@@ -542,7 +541,7 @@ namespace bertini{
 					return SuccessCode::MaxNumStepsTaken;
 				if (current_stepsize_ < Get<Stepping>().min_step_size)
 					return SuccessCode::MinStepSizeReached;
-				if (current_precision_ > Get<PrecConf>().maximum_precision)
+				if (current_precision_ > Get<PrecConf>().maximum_precision || next_precision_ > Get<PrecConf>().maximum_precision)
 					return SuccessCode::MaxPrecisionReached;
 
 				return SuccessCode::Success;
@@ -721,6 +720,9 @@ namespace bertini{
 			SuccessCode UpdatePrecisionAndStepsize() const
 			{
 				SetStepSize(next_stepsize_);
+				if (next_precision_ > Get<PrecConf>().maximum_precision)
+					return SuccessCode::Success; // tracking is ended by the PreIterationCheck.
+
 				return ChangePrecision<refine_if_necessary>(next_precision_);
 			}
 
-- 
2.43.0


From c153d38d488d1b02a936cca71ac474a0815df833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:11 +0000
Subject: [PATCH 45/67] fix: the precision chosen for tracking is not below the
 least one considered

---
 core/include/bertini2/trackers/amp_tracker.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/include/bertini2/trackers/amp_tracker.hpp b/core/include/bertini2/trackers/amp_tracker.hpp
index 7064eb2..5371a23 100644
--- a/core/include/bertini2/trackers/amp_tracker.hpp
+++ b/core/include/bertini2/trackers/amp_tracker.hpp
@@ -226,13 +226,14 @@ namespace bertini{
 			if (lowest_mp_precision_to_test < LowestMultiplePrecision())
 				lowest_mp_precision_to_test = LowestMultiplePrecision();
 			else
-				lowest_mp_precision_to_test = (lowest_mp_precision_to_test/PrecisionIncrement()) * PrecisionIncrement(); // use integer arithmetic to round.
+				lowest_mp_precision_to_test = ((lowest_mp_precision_to_test+PrecisionIncrement()-1)/PrecisionIncrement()) * PrecisionIncrement(); // use integer arithmetic to round up.
 
 
 			if (max_precision < LowestMultiplePrecision())
 				max_precision = LowestMultiplePrecision();
-			else
-				max_precision = (max_precision/PrecisionIncrement()) * PrecisionIncrement(); // use integer arithmetic to round.
+
+			if (lowest_mp_precision_to_test > max_precision && min_precision <= max_precision)
+				lowest_mp_precision_to_test = max_precision;
 
 			for (unsigned p = lowest_mp_precision_to_test; p <= max_precision; p+=PrecisionIncrement())
 				minimizer_routine(p);
@@ -751,7 +752,7 @@ namespace bertini{
 
 
 				unsigned min_precision = MinRequiredPrecision_BCTol<ComplexType>();
-				unsigned max_precision = max(min_precision,current_precision_);
+				unsigned max_precision = max(min_precision,current_precision_,std::min(min_precision+PrecisionIncrement(), Get<PrecConf>().maximum_precision)); // room for the next multiple of the increment
 
 				if (num_successful_steps_since_stepsize_increase_ < Get<Stepping>().consecutive_successful_steps_before_stepsize_increase)
 					max_stepsize = current_stepsize_; // disallow stepsize changing 
-- 
2.43.0


From eea9d0db5d886c20d4631705a3f53ef991a5441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:20 +0000
Subject: [PATCH 46/67] fix: endgame sample times approach the target time by
 the sample factor

---
 core/include/bertini2/endgames/base_endgame.hpp | 2 +-
 core/include/bertini2/endgames/cauchy.hpp       | 2 +-
 core/include/bertini2/endgames/powerseries.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/endgames/base_endgame.hpp b/core/include/bertini2/endgames/base_endgame.hpp
index 6fe1657..fbae4b0 100644
--- a/core/include/bertini2/endgames/base_endgame.hpp
+++ b/core/include/bertini2/endgames/base_endgame.hpp
@@ -359,7 +359,7 @@ public:
 		//start at 1, because the input point is the 0th element.
 		for(int ii=1; ii < this->template Get<EndgameConfig>().num_sample_points; ++ii)
 		{ 
-			times.emplace_back((times[ii-1] + target_time) * RT(this->template Get<EndgameConfig>().sample_factor)); // next time is a point between the previous time and target time.
+			times.emplace_back((times[ii-1] - target_time) * RT(this->template Get<EndgameConfig>().sample_factor) + target_time); // next time is a point between the previous time and target time.
 			samples.emplace_back(Vec<CT>(num_vars));											   // sample_factor gives us some point between the two, usually the midpoint.		
 
 			auto tracking_success = this->GetTracker().TrackPath(samples[ii],times[ii-1],times[ii],samples[ii-1]);
diff --git a/core/include/bertini2/endgames/cauchy.hpp b/core/include/bertini2/endgames/cauchy.hpp
index 0044c4e..0ca762e 100644
--- a/core/include/bertini2/endgames/cauchy.hpp
+++ b/core/include/bertini2/endgames/cauchy.hpp
@@ -1022,7 +1022,7 @@ public:
 		auto& current_sample = ps_samples.back();
 
 		//Generalized next_time in case if we are not trying to converge to the t = 0.
-		CT next_time = (target_time-current_time) * static_cast<RT>(this->EndgameSettings().sample_factor)+current_time;
+		CT next_time = (current_time-target_time) * static_cast<RT>(this->EndgameSettings().sample_factor)+target_time;
 
 		if (abs(next_time - target_time) < this->EndgameSettings().min_track_time)//we are too close to t = 0 but we do not have the correct tolerance - so we exit
 			return SuccessCode::MinTrackTimeReached;
diff --git a/core/include/bertini2/endgames/powerseries.hpp b/core/include/bertini2/endgames/powerseries.hpp
index 8a6f5f4..ca2d78e 100644
--- a/core/include/bertini2/endgames/powerseries.hpp
+++ b/core/include/bertini2/endgames/powerseries.hpp
@@ -574,7 +574,7 @@ public:
 		AssertSizesTimeSpaceDeriv<CT>();
 
 		Vec<CT> next_sample;
-		CT next_time = (times.back() + target_time) * static_cast<RT>(this->EndgameSettings().sample_factor); //setting up next time value using the midpoint formula, sample_factor will give us some 
+		CT next_time = (times.back() - target_time) * static_cast<RT>(this->EndgameSettings().sample_factor) + target_time; //setting up next time value using the midpoint formula, sample_factor will give us some 
 
   		if (abs(next_time - target_time) < this->EndgameSettings().min_track_time) // generalized for target_time not equal to 0.
   		{
-- 
2.43.0


From f18574076f171d78375e734581e571bebf231364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:20 +0000
Subject: [PATCH 47/67] fix: the Cauchy endgame cuts paths off by norm only at
 security level 0

---
 core/include/bertini2/endgames/cauchy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/endgames/cauchy.hpp b/core/include/bertini2/endgames/cauchy.hpp
index 0ca762e..a6adc50 100644
--- a/core/include/bertini2/endgames/cauchy.hpp
+++ b/core/include/bertini2/endgames/cauchy.hpp
@@ -1123,7 +1123,7 @@ public:
 				return SuccessCode::Success;
 			}
 
-			if (this->SecuritySettings().level)
+			if (this->SecuritySettings().level <= 0)
 			{//we are too large, break out of loop to return error.
 				norm_of_dehom_latest = this->GetSystem().DehomogenizePoint(latest_approx).template lpNorm<Eigen::Infinity>();
 
@@ -1133,10 +1133,10 @@ public:
 					NotifyObservers(SecurityMaxNormReached<EmitterType>(*this));
 					return SuccessCode::SecurityMaxNormReached;
 				}
+				norm_of_dehom_prev = norm_of_dehom_latest;
 			}
 
 			prev_approx = latest_approx;
-			norm_of_dehom_prev = norm_of_dehom_latest;
 
 			auto advance_success = AdvanceTime<CT>(target_time);
 			if (advance_success != SuccessCode::Success)
-- 
2.43.0


From 84e71f8e5977df0a9907cb2a3bfb93aa77348706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:07 +0000
Subject: [PATCH 48/67] fix: the endgame of a zero dim solve starts with time
 and point in the same precision

---
 core/include/bertini2/nag_algorithms/zero_dim_solve.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index 7ab3919..1ccb36b 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -731,6 +731,8 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 				// we make these fresh so they are in the correct precision to start.
 				BaseComplexType t_end = this->template Get<ZeroDimConf>().target_time;
 				BaseComplexType t_endgame_boundary = this->template Get<ZeroDimConf>().endgame_boundary;
+				Precision(t_end, Precision(bdry_point));
+				Precision(t_endgame_boundary, Precision(bdry_point));
 
 				auto eg_success = GetEndgame().Run(t_endgame_boundary, bdry_point, t_end);
 
-- 
2.43.0


From dd25b36ea9da63cc6742464f28e046fc6ac2529d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:07 +0000
Subject: [PATCH 49/67] fix: solving again starts from fresh metadata

---
 core/include/bertini2/nag_algorithms/zero_dim_solve.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index 1ccb36b..5aefbdb 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -574,6 +574,10 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 			{
 				auto num_as_size_t = static_cast<SolnIndT>(num_start_points_);
 
+				solution_final_metadata_.clear();
+				solutions_at_endgame_boundary_.clear();
+				solutions_post_endgame_.clear();
+
 				solution_final_metadata_.resize(num_as_size_t);
 				solutions_at_endgame_boundary_.resize(num_as_size_t);
 				solutions_post_endgame_.resize(num_as_size_t);
-- 
2.43.0


From d744a04134a57e6bd8a210603552cd8090177b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:07 +0000
Subject: [PATCH 50/67] fix: crossed paths with different start points are
 tracked again, and each check is a new one

---
 core/include/bertini2/nag_algorithms/midpath_check.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/nag_algorithms/midpath_check.hpp b/core/include/bertini2/nag_algorithms/midpath_check.hpp
index c7ead7f..6164c83 100644
--- a/core/include/bertini2/nag_algorithms/midpath_check.hpp
+++ b/core/include/bertini2/nag_algorithms/midpath_check.hpp
@@ -134,6 +134,9 @@ namespace bertini{
 			template <typename StartSystemT>
 			bool Check(BoundaryData const& boundary_data, StartSystemT const& start_system)
 			{
+				crossed_paths_.clear();
+				passed_ = true;
+
 				for (PathIndT ii = 0; ii < boundary_data.size(); ++ii)
 				{
 					if ( boundary_data[ii].success_code != SuccessCode::Success)
@@ -158,7 +161,7 @@ namespace bertini{
 							
 							const auto start_jj = start_system.template StartPoint<ComplexType>(jj);
 							auto diff_start = start_ii - start_jj;
-							bool same_start = (diff_start.template lpNorm<Eigen::Infinity>() > SamePointTol());
+							bool same_start = (diff_start.template lpNorm<Eigen::Infinity>() < SamePointTol());
 							
 							
 							// Check if path has already been stored in crossed_paths_
-- 
2.43.0


From 08fd2ec0e8a35d22b44e839b7d52258f91b78c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:07 +0000
Subject: [PATCH 51/67] fix: observers may add and remove observers while being
 notified

---
 core/include/bertini2/detail/observable.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/core/include/bertini2/detail/observable.hpp b/core/include/bertini2/detail/observable.hpp
index 4ccc308..1d336a6 100644
--- a/core/include/bertini2/detail/observable.hpp
+++ b/core/include/bertini2/detail/observable.hpp
@@ -88,16 +88,14 @@ namespace bertini{
 		void NotifyObservers(AnyEvent const& e) const
 		{
 
-			for (auto& obs : current_watchers_)
-				obs.get().Observe(e);
+			Notify(e);
 
 		}
 
 		void NotifyObservers(AnyEvent & e) const
 		{
 
-			for (auto& obs : current_watchers_)
-				obs.get().Observe(e);
+			Notify(e);
 		}
 
 
@@ -105,6 +103,21 @@ namespace bertini{
 
 		using ObserverContainer = std::vector<std::reference_wrapper<AnyObserver>>;
 
+		template<typename EventT>
+		void Notify(EventT & e) const
+		{
+			const ObserverContainer watchers = current_watchers_; // a copy, since observers may add or remove observers
+			for (const auto& obs : watchers)
+				if (IsWatching(obs.get()))
+					obs.get().Observe(e);
+		}
+
+		bool IsWatching(AnyObserver const& observer) const
+		{
+			return std::any_of(current_watchers_.begin(), current_watchers_.end(), [&](const auto& held_obs)
+			                              { return &held_obs.get() == &observer; });
+		}
+
 		mutable ObserverContainer current_watchers_;
 	};
 
-- 
2.43.0


From b734394c1eaae44580763d3cc4f9b139d8c2dcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:52 +0000
Subject: [PATCH 52/67] fix: start points of a zero dim solve are made in the
 initial ambient precision

---
 .../bertini2/nag_algorithms/zero_dim_solve.hpp     | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index 5aefbdb..f8d8609 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -585,6 +585,16 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 				SetMidpathRetrackTol(this->template Get<Tolerances>().newton_before_endgame);
 			}
 
+			/**
+			\brief The start points are generated in the default precision, which must be that of the start system.
+			*/
+			void SetInitialPrecision() const
+			{
+				DefaultPrecision(this->template Get<ZeroDimConf>().initial_ambient_precision);
+				StartSystem().precision(this->template Get<ZeroDimConf>().initial_ambient_precision);
+				Homotopy().precision(this->template Get<ZeroDimConf>().initial_ambient_precision); // shares nodes with the start system
+			}
+
 			/**
 			\brief Track from the start point in time, from each start point of the start system, to the endgame boundary.
 
@@ -626,7 +636,7 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 					smd.path_index = soln_ind;
 					smd.solution_index = soln_ind;
 
-				DefaultPrecision(this->template Get<ZeroDimConf>().initial_ambient_precision);
+				SetInitialPrecision();
 				auto t_start = this->template Get<ZeroDimConf>().start_time;
 				auto t_endgame_boundary = this->template Get<ZeroDimConf>().endgame_boundary;
 				auto start_point = StartSystem().template StartPoint<BaseComplexType>(soln_ind);
@@ -659,12 +669,14 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 
 			void EGBoundaryAction()
 			{
+				SetInitialPrecision();
 				auto midcheckpassed = midpath_.Check(solutions_at_endgame_boundary_, StartSystem());
 
 				unsigned num_resolve_attempts = 0;
 				while (!midcheckpassed && num_resolve_attempts < this->template Get<ZeroDimConf>().max_num_crossed_path_resolve_attempts)
 				{
 					MidpathResolve();
+					SetInitialPrecision();
 					midcheckpassed = midpath_.Check(solutions_at_endgame_boundary_, StartSystem());
 					num_resolve_attempts++;
 				}
-- 
2.43.0


From 936b8cb97aadd2f0a15ae4c223080e6495ecec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 53/67] fix: trackers announce the start of tracking

---
 core/include/bertini2/trackers/amp_tracker.hpp             | 1 +
 core/include/bertini2/trackers/fixed_precision_tracker.hpp | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/core/include/bertini2/trackers/amp_tracker.hpp b/core/include/bertini2/trackers/amp_tracker.hpp
index 5371a23..f128eb8 100644
--- a/core/include/bertini2/trackers/amp_tracker.hpp
+++ b/core/include/bertini2/trackers/amp_tracker.hpp
@@ -474,6 +474,7 @@ namespace bertini{
 
 				ChangePrecision<upsample_refine_off>(start_point(0).precision());
 
+				NotifyObservers(TrackingStarted<EmitterType>(*this));
 
 				auto initial_refinement_code = InitialRefinement();
 
diff --git a/core/include/bertini2/trackers/fixed_precision_tracker.hpp b/core/include/bertini2/trackers/fixed_precision_tracker.hpp
index c067996..cfd3eda 100644
--- a/core/include/bertini2/trackers/fixed_precision_tracker.hpp
+++ b/core/include/bertini2/trackers/fixed_precision_tracker.hpp
@@ -482,6 +482,8 @@ namespace bertini{
 
 				ResetCounters();
 
+				this->NotifyObservers(TrackingStarted<EmitterType>(*this));
+
 				return SuccessCode::Success;
 			}
 
@@ -567,6 +569,8 @@ namespace bertini{
 
 				ResetCounters();
 
+				this->NotifyObservers(TrackingStarted<EmitterType>(*this));
+
 				return SuccessCode::Success;
 			}
 
-- 
2.43.0


From 4c4979f522f91c08e2da6c15671f6d3e7efe95d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:09 +0000
Subject: [PATCH 54/67] fix: the largest precision used on a path is recorded
 for that path, over all of it

---
 core/include/bertini2/nag_algorithms/zero_dim_solve.hpp | 2 ++
 core/include/bertini2/trackers/observers.hpp            | 7 ++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index f8d8609..43546a5 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -627,6 +627,7 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 					// if you can think of a way to replace this `if` with something meta, please do so.
 					if (tracking::TrackerTraits<TrackerType>::IsAdaptivePrec)
 					{
+						min_max_prec_.MaxPrecision(0);
 						GetTracker().AddObserver(first_prec_rec_);
 						GetTracker().AddObserver(min_max_prec_);
 					}
@@ -732,6 +733,7 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 					// if you can think of a way to replace this `if` with something meta, please do so.
 					if (tracking::TrackerTraits<TrackerType>::IsAdaptivePrec)
 					{
+						min_max_prec_.MaxPrecision(0);
 						if (!smd.precision_changed)
 							GetTracker().AddObserver(first_prec_rec_);
 						GetTracker().AddObserver(min_max_prec_);
diff --git a/core/include/bertini2/trackers/observers.hpp b/core/include/bertini2/trackers/observers.hpp
index 427d6a5..0e4c114 100644
--- a/core/include/bertini2/trackers/observers.hpp
+++ b/core/include/bertini2/trackers/observers.hpp
@@ -103,7 +103,7 @@ namespace bertini {
 
 			unsigned starting_precision_;
 			unsigned next_precision_;
-			bool precision_increased_;
+			bool precision_increased_ = false;
 			typename TrackerTraits<TrackerT>::BaseComplexType time_of_first_increase_;
 		};
 
@@ -126,8 +126,9 @@ namespace bertini {
 				}
 				else if(auto p = dynamic_cast<const TrackingStarted<EmitterT>*>(&e))
 				{
-					min_precision_ = p->Get().CurrentPrecision();
-					max_precision_ = p->Get().CurrentPrecision();
+					using std::min; using std::max;
+					min_precision_ = min(min_precision_, p->Get().CurrentPrecision());
+					max_precision_ = max(max_precision_, p->Get().CurrentPrecision());
 				}
 			}
 
-- 
2.43.0


From 40f3b5e569b0ed504107848ec461e87bcc209c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:09 +0000
Subject: [PATCH 55/67] fix: extracting all solutions passes over paths which
 never reached the endgame

---
 core/include/bertini2/nag_algorithms/output.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/include/bertini2/nag_algorithms/output.hpp b/core/include/bertini2/nag_algorithms/output.hpp
index 5cd3062..21c5183 100644
--- a/core/include/bertini2/nag_algorithms/output.hpp
+++ b/core/include/bertini2/nag_algorithms/output.hpp
@@ -272,6 +272,9 @@ struct AllSolutions
 		const auto n = s.size();
 		for (decltype(s.size()) ii{0}; ii<n; ++ii)
 		{
+			if (m[ii].endgame_success == SuccessCode::NeverStarted)
+				continue;
+
 			solns.push_back(sys.DehomogenizePoint(s[ii]));
 		}
 
-- 
2.43.0


From e6ff210c77e755379aa470fd935e67e6b010f2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:19 +0000
Subject: [PATCH 56/67] fix: an endgame which fails early reports nothing of an
 earlier run

---
 core/include/bertini2/endgames/base_endgame.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/include/bertini2/endgames/base_endgame.hpp b/core/include/bertini2/endgames/base_endgame.hpp
index fbae4b0..8371e69 100644
--- a/core/include/bertini2/endgames/base_endgame.hpp
+++ b/core/include/bertini2/endgames/base_endgame.hpp
@@ -151,6 +151,12 @@ public:
 	*/
 	SuccessCode Run(const BCT & start_time, const Vec<BCT> & start_point, BCT const& target_time)
 	{
+		// until there is something better, the best known approximation is the start point
+		final_approximation_ = start_point;
+		previous_approximation_ = start_point;
+		cycle_number_ = 0;
+		approximate_error_ = 1;
+
 		return this->AsFlavor().RunImpl(start_time, start_point, target_time);
 	}
 
-- 
2.43.0


From c2c125c662ced5c0fe6400dfb58a6a3a9fe6f840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:55 +0000
Subject: [PATCH 57/67] fix: the endgame asked for at run time is the one used

---
 core/include/bertini2/blackbox/switches_zerodim.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/blackbox/switches_zerodim.hpp b/core/include/bertini2/blackbox/switches_zerodim.hpp
index c02f3f9..cecfbd4 100644
--- a/core/include/bertini2/blackbox/switches_zerodim.hpp
+++ b/core/include/bertini2/blackbox/switches_zerodim.hpp
@@ -69,14 +69,14 @@ template <typename StartType, typename TrackerType, typename EndgameType, typena
 std::unique_ptr<algorithm::AnyZeroDim> ZeroDimSpecifyShouldClone(std::true_type, ConstTs const& ...ts)
 {
 	return ZeroDimSpecifyComplete<StartType, TrackerType, 
-			typename endgame::EndgameSelector<TrackerType>::Cauchy, policy::CloneGiven>(ts...);
+			EndgameType, policy::CloneGiven>(ts...);
 }
 
 template <typename StartType, typename TrackerType, typename EndgameType, typename ... ConstTs>
 std::unique_ptr<algorithm::AnyZeroDim> ZeroDimSpecifyShouldClone(std::false_type, ConstTs const& ...ts)
 {
 	return ZeroDimSpecifyComplete<StartType, TrackerType, 
-			typename endgame::EndgameSelector<TrackerType>::Cauchy, policy::RefToGiven>(ts...);
+			EndgameType, policy::RefToGiven>(ts...);
 }
 
 
-- 
2.43.0


From 2af859c535dc156267cc6cc621db21ae7ed6010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:55 +0000
Subject: [PATCH 58/67] fix: running a zero dim algorithm solves the system

---
 core/include/bertini2/nag_algorithms/zero_dim_solve.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index 43546a5..aeeb914 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -315,7 +315,9 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 			\brief Main Run() function provided for calling from the blackbox mode
 			*/
 			void Run() override
-			{}
+			{
+				Solve();
+			}
 
 			virtual ~ZeroDim() = default;
 /// setup functions
-- 
2.43.0


From 0cd609f7f3b5ab9118fc50f91f69c41e48d479f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:47 +0000
Subject: [PATCH 59/67] fix: a real number made from a rational has all the
 digits of its precision

---
 core/include/bertini2/num_traits.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/num_traits.hpp b/core/include/bertini2/num_traits.hpp
index 51a10c7..6e0fc39 100644
--- a/core/include/bertini2/num_traits.hpp
+++ b/core/include/bertini2/num_traits.hpp
@@ -266,7 +266,9 @@ namespace bertini {
 		inline static
 		mpfr_float FromRational(mpq_rational const& n, unsigned precision)
 		{
-			return mpfr_float(n,precision);
+			mpfr_float result(0,precision);
+			mpfr_set_q(result.backend().data(), n.backend().data(), MPFR_RNDN);
+			return result;
 		}
 
 		using Real = mpfr_float;
-- 
2.43.0


From 01446f7b4504cbf191e0d3383ff488d9456a905f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:21 +0000
Subject: [PATCH 60/67] fix: printing an end point leaves the default precision
 as it was

---
 core/include/bertini2/nag_algorithms/output.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/bertini2/nag_algorithms/output.hpp b/core/include/bertini2/nag_algorithms/output.hpp
index 21c5183..85c9de8 100644
--- a/core/include/bertini2/nag_algorithms/output.hpp
+++ b/core/include/bertini2/nag_algorithms/output.hpp
@@ -167,9 +167,11 @@ struct Classic <ZeroDim<A,B,C,D,E>>
 	static
 	void EndPointDehom(IndexT const& ind, OutT & out, ZDT const& zd, std::string const& additional = "")
 	{	
+		const auto cached = DefaultPrecision();
 		DefaultPrecision(Precision(zd.FinalSolutions()[ind]));
 
 		generators::Classic::generate(boost::spirit::ostream_iterator(out), zd.TargetSystem().DehomogenizePoint(zd.FinalSolutions()[ind]));
+		DefaultPrecision(cached);
 		out << additional;
 	}
 
-- 
2.43.0


From d7967d2c788c17f43ebac7dcb8d17f921ed8ecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:27 +0000
Subject: [PATCH 61/67] fix: the degree of a power whose exponent contains
 other variables does not depend on their values

---
 core/src/function_tree/operators/arithmetic.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index ca1a5ce..fbcc4c3 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -965,6 +965,9 @@ static int DegreeOfPower(int base_deg, int exp_deg, std::shared_ptr<Node> const&
 {
 	if (exp_deg==0)
 	{
+		if (base_deg!=0 && exponent->Degree()!=0)
+			return -1; // the exponent is made of other variables, whose current values say nothing about the degree
+
 		auto exp_val = exponent->Eval<dbl>();
 		bool exp_is_int = false;
 		
@@ -1029,7 +1032,7 @@ std::vector<int> PowerOperator::MultiDegree(VariableGroup const& vars) const
 
 void PowerOperator::Homogenize(VariableGroup const& vars, std::shared_ptr<Variable> const& homvar)
 {
-	if (exponent_->Degree(vars)==0)
+	if (exponent_->Degree(vars)==0 && (base_->Degree(vars)==0 || exponent_->Degree()==0))
 	{
 		base_->Homogenize(vars, homvar);
 	}
@@ -1042,7 +1045,7 @@ void PowerOperator::Homogenize(VariableGroup const& vars, std::shared_ptr<Variab
 bool PowerOperator::IsHomogeneous(std::shared_ptr<Variable> const& v) const
 {
 	// the only hope this has of being homogeneous, is that the degree of the exponent is 0 (it's constant), and that it's an integer
-	if (exponent_->Degree(v)==0)
+	if (exponent_->Degree(v)==0 && (base_->Degree(v)==0 || exponent_->Degree()==0))
 	{
 		auto exp_val = exponent_->Eval<dbl>();
 		if (fabs(imag(exp_val)) < 10*std::numeric_limits<double>::epsilon())
@@ -1057,7 +1060,7 @@ bool PowerOperator::IsHomogeneous(std::shared_ptr<Variable> const& v) const
 bool PowerOperator::IsHomogeneous(VariableGroup const& v) const
 {
 	// the only hope this has of being homogeneous, is that the degree of the exponent is 0 (it's constant), and that it's an integer
-	if (exponent_->Degree(v)==0)
+	if (exponent_->Degree(v)==0 && (base_->Degree(v)==0 || exponent_->Degree()==0))
 	{
 		auto exp_val = exponent_->Eval<dbl>();
 		if (fabs(imag(exp_val)) < 10*std::numeric_limits<double>::epsilon())
-- 
2.43.0


From b4f5c854ad96dfd38b971a5ad03be1cabe2c3fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:24 +0000
Subject: [PATCH 62/67] fix: an estimate of the cycle number beyond all bounds
 is not converted to an integer

---
 core/include/bertini2/endgames/powerseries.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/endgames/powerseries.hpp b/core/include/bertini2/endgames/powerseries.hpp
index ca2d78e..816149c 100644
--- a/core/include/bertini2/endgames/powerseries.hpp
+++ b/core/include/bertini2/endgames/powerseries.hpp
@@ -341,13 +341,15 @@ public:
 
 		RT estimate = log(static_cast<RT>(this->EndgameSettings().sample_factor))/log(abs(rand_sum2/rand_sum1));
 
-		if (estimate < 1) // would be nan if sample points are same as each other
+		if (!(estimate >= 1)) // would be nan if sample points are same as each other
 		  	upper_bound_on_cycle_number_ = 1;
 		else
 		{
 			using std::max;
-			auto upper_bound = unsigned(round(estimate)*this->template Get<PowerSeriesConfig>().cycle_number_amplification);
-			upper_bound_on_cycle_number_ = max(upper_bound,this->template Get<PowerSeriesConfig>().max_cycle_number);
+			RT upper_bound = round(estimate)*this->template Get<PowerSeriesConfig>().cycle_number_amplification;
+			upper_bound_on_cycle_number_ = this->template Get<PowerSeriesConfig>().max_cycle_number;
+			if (upper_bound < std::numeric_limits<unsigned>::max()) // if the samples do not approach each other, they tell nothing
+				upper_bound_on_cycle_number_ = max(unsigned(upper_bound),upper_bound_on_cycle_number_);
 		}
 
 		return upper_bound_on_cycle_number_;
-- 
2.43.0


From 83cc5ca7164023241a0df6f2f528c644f1068e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:26 +0000
Subject: [PATCH 63/67] fix: fixed precision trackers report the norm of the
 last Newton step, instead of memory never written

---
 .../trackers/fixed_precision_tracker.hpp      |  3 +++
 .../bertini2/trackers/newton_corrector.hpp    | 24 ++++++++++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/trackers/fixed_precision_tracker.hpp b/core/include/bertini2/trackers/fixed_precision_tracker.hpp
index cfd3eda..03de145 100644
--- a/core/include/bertini2/trackers/fixed_precision_tracker.hpp
+++ b/core/include/bertini2/trackers/fixed_precision_tracker.hpp
@@ -349,6 +349,7 @@ namespace bertini{
 								CT const& current_time) const
 			{
 				return this->corrector_->Correct(corrected_space,
+												this->norm_delta_z_,
 												this->tracked_system_,
 												current_space,
 												current_time, 
@@ -375,6 +376,7 @@ namespace bertini{
 								Vec<CT> const& start_point, CT const& current_time) const
 			{
 				return this->corrector_->Correct(new_space,
+							   this->norm_delta_z_,
 							   this->tracked_system_,
 							   start_point,
 							   current_time, 
@@ -407,6 +409,7 @@ namespace bertini{
 								NumErrorT const& tolerance, unsigned max_iterations) const
 			{
 				return this->corrector_->Correct(new_space,
+							   this->norm_delta_z_,
 							   this->tracked_system_,
 							   start_point,
 							   current_time, 
diff --git a/core/include/bertini2/trackers/newton_corrector.hpp b/core/include/bertini2/trackers/newton_corrector.hpp
index e697cf7..3418ed0 100644
--- a/core/include/bertini2/trackers/newton_corrector.hpp
+++ b/core/include/bertini2/trackers/newton_corrector.hpp
@@ -127,6 +127,7 @@ namespace bertini{
 				 \tparam ComplexType The complex type for arithmetic
 				 
 				 \param[out] next_space The computed next space point.
+				 \param[out] norm_delta_z The norm of the last Newton step.
 				 \param S The system we are tracking on.
 				 \param current_space The base point for newton correcting.
 				 \param current_time The current time value.  Note it is complex.
@@ -139,6 +140,7 @@ namespace bertini{
 				
 				template <typename ComplexType>
 				SuccessCode Correct(Vec<ComplexType> & next_space,
+									   NumErrorT & norm_delta_z,
 									   System const& S,
 									   Vec<ComplexType> const& current_space, // pass by value to get a copy of it
 									   ComplexType const& current_time,
@@ -162,7 +164,10 @@ namespace bertini{
 						
 						next_space += step_ref;
 						
-						if ( (step_ref.template lpNorm<Eigen::Infinity>() < tracking_tolerance) && (ii >= (min_num_newton_iterations-1)) )
+						const auto norm_of_step = step_ref.template lpNorm<Eigen::Infinity>();
+						norm_delta_z = static_cast<NumErrorT>(norm_of_step);
+
+						if ( (norm_of_step < tracking_tolerance) && (ii >= (min_num_newton_iterations-1)) )
 							return SuccessCode::Success;
 					}
 					
@@ -172,6 +177,23 @@ namespace bertini{
 
 				}
 
+
+				/**
+				 \brief Run Newton's method in fixed precision, without asking for the norm of the last step.
+				 */
+				template <typename ComplexType>
+				SuccessCode Correct(Vec<ComplexType> & next_space,
+									   System const& S,
+									   Vec<ComplexType> const& current_space, // pass by value to get a copy of it
+									   ComplexType const& current_time,
+									   NumErrorT const& tracking_tolerance,
+									   unsigned min_num_newton_iterations,
+									   unsigned max_num_newton_iterations)
+				{
+					NumErrorT norm_delta_z;
+					return Correct(next_space, norm_delta_z, S, current_space, current_time, tracking_tolerance, min_num_newton_iterations, max_num_newton_iterations);
+				}
+
 				
 				
 				
-- 
2.43.0


From 8c46595499632eae7c1497cb05898dea6871b82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:41 +0000
Subject: [PATCH 64/67] fix: the base of an integer power is printed in
 parentheses, so that (-x)^2 does not read -x^2

---
 core/src/function_tree/operators/arithmetic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index fbcc4c3..3ecf492 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -1137,9 +1137,9 @@ unsigned IntegerPowerOperator::EliminateOnes()
 
 void IntegerPowerOperator::print(std::ostream & target) const
 {
-	target << "(";
+	target << "((";
 	operand_->print(target);
-	target << "^" << exponent() << ")";
+	target << ")^" << exponent() << ")";
 }
 
 
-- 
2.43.0


From f984c4ad73f69ed3eb45c6930ad1b495a5970db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:30 +0000
Subject: [PATCH 65/67] fix: an overflowing size proportion is not converted to
 a number of digits

---
 core/include/bertini2/trackers/amp_tracker.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/trackers/amp_tracker.hpp b/core/include/bertini2/trackers/amp_tracker.hpp
index f128eb8..a3a1aa5 100644
--- a/core/include/bertini2/trackers/amp_tracker.hpp
+++ b/core/include/bertini2/trackers/amp_tracker.hpp
@@ -933,7 +933,8 @@ namespace bertini{
 			template<typename ComplexType>
 			unsigned DigitsB() const
 			{	
-				return unsigned(B_RHS<ComplexType>());
+				const NumErrorT digits = B_RHS<ComplexType>();
+				return std::isfinite(digits) ? unsigned(digits) : 0; // the size proportion of a vanishing step overflows, so asks for nothing.
 			}
 
 
-- 
2.43.0


From 8c6f40775cc143f1810e0f589f05bbdc3ec3a5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:30 +0000
Subject: [PATCH 66/67] fix: solving again begins with the initial step size,
 not with what the last endgame left

---
 core/include/bertini2/nag_algorithms/zero_dim_solve.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index aeeb914..284583a 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -609,6 +609,7 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 				DefaultPrecision(this->template Get<ZeroDimConf>().initial_ambient_precision);
 
 				GetTracker().SetTrackingTolerance(this->template Get<Tolerances>().newton_before_endgame);
+				GetTracker().ReinitializeInitialStepSize(true); // a previous solve's endgames turned this off
 
 				auto t_start = this->template Get<ZeroDimConf>().start_time;
 				auto t_endgame_boundary = this->template Get<ZeroDimConf>().endgame_boundary;
-- 
2.43.0


From f3aafcdf1e8bac78f84b964be3b73fe4491cde59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:41 +0000
Subject: [PATCH 67/67] fix: a patched and an unpatched system can be added, as
 documented

---
 core/src/system/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 9498be4..55650a8 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1307,7 +1307,7 @@ namespace bertini
 
 	System& System::operator+=(System const& rhs)
 	{
-		if (this->NumTotalFunctions()!=rhs.NumTotalFunctions())
+		if (this->NumNaturalFunctions()!=rhs.NumNaturalFunctions()) // the patches are dealt with below
 			throw std::runtime_error("cannot add two Systems with differing numbers of functions");
 
 		if (this->NumVariables()!=rhs.NumVariables())
-- 
2.43.0

