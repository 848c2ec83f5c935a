T = "triples/core/structsos/ternary/"
TN = ("Bounded: every path explored within the stated path/time budget is decided by z3 for all real values of the symbolic coefficients; "
      "paths cut by the budget, and paths through stubbed numeric searches, are outside the claim and listed in the evidence. "
      "Trusted: the import transform, the polynomial normal-form identity test, z3's nonlinear real arithmetic, sympy's exact arithmetic.")
STR_WHY = ("The claim quantifies over all real coefficients; the solvers are decision trees over coefficient inequalities, and the repository's tests "
           "exercise none of the structural solvers at all (a docstring example visits one branch at one point).")


def tern(id, deg, files, extra, over):
    return dict(id=id, title=f"Ternary structural proofs are genuine: {deg}",
                statement=("For a homogeneous polynomial in three variables of the stated degrees, whenever the structural solver returns a proof expression, "
                           "that expression is identically equal to the input polynomial and is a combination, with nonnegative weights, of squares, products of "
                           "nonnegative variables and quotients of such terms, so it certifies the input is nonnegative for all nonnegative a, b, c. "
                           "Otherwise it reports no proof; it never presents a term that can be negative." + extra),
                over=over, why=STR_WHY, files=[T + f for f in files],
                mech=[("coefficient conditions guarding each template", T + files[0]), ("remainder and weight computation", T + "utils.py")],
                note=TN)


PROPS = [
    tern("C01", "degree 2 to 4", ["quadratic.py", "cubic.py", "quartic.py"], " For these degrees it also never fails with an internal error.",
         "all coefficients: general quadratics (6 symbols), cyclic cubics (4), hexagon and symmetric acyclic cubics (7, 6), cyclic and acyclic quartics (5, 15), and every line P0 + k*D through the recorded inequalities"),
    tern("C02", "degree 5", ["quintic.py", "quintic_symmetric.py"], "",
         "every line P0 + k*D, k real, through the recorded quintic inequalities, in several directions D (moving an orbit of monomials, the centre)"),
    tern("C03", "degree 6", ["sextic.py", "sextic_symmetric.py"], "",
         "every line P0 + k*D, k real, through the recorded sextic inequalities, in several directions D (an orbit, the centre, the symmetric kernel)"),
    tern("C04", "degree 7 and above", ["septic.py", "septic_symmetric.py", "octic_symmetric.py", "nonic.py", "dense_symmetric.py", "sparse.py"], "",
         "every line P0 + k*D, k real, through the recorded inequalities of degree 7 to 14, in several directions D"),
    dict(id="C05", title="Cyclic sums and products denote the full sum/product over their group",
         statement=("CyclicSum(f, symbols, group) and CyclicProduct(f, symbols, group) denote the sum and product of f over all elements of the permutation group, and every "
                    "operation that rewrites them - construction with evaluation, doit, expand, as_content_primitive, together, xreplace/subs (also of part of the symbols), "
                    "rewrite_symmetry to another group, conversion to a polynomial, arithmetic between them - keeps that value, for arguments with arbitrary coefficients. "
                    "is_cyclic_expr and the positivity/nonnegativity flags are never true when the fact is false."),
         over="all real values of the coefficients of the argument, for the permutation groups listed in the evidence (cyclic, symmetric, alternating, dihedral, intransitive and non-normal ones up to 6 symbols)",
         why="A cyclic expression is the notation every returned proof is written in: one wrong rewriting for one group makes printed proofs false. The tests cover a few numeric arguments and groups.",
         files=["triples/utils/expression/cyclic.py"],
         mech=[("evaluation of CyclicSum/CyclicProduct", "triples/utils/expression/cyclic.py:CyclicExpr"), ("coset rewriting", "triples/utils/expression/cyclic.py:rewrite_symmetry")],
         note=TN),
    dict(id="C06", title="Coefficient containers and monomial vectors represent the polynomial exactly",
         statement=("Coeff built from a polynomial or a dictionary represents exactly that polynomial: coefficient lookup, sums, differences, reflection, cancelling common monomials and common exponents, the value at (1,...,1), "
                    "conversion back, is_cyclic/is_symmetric for any permutation group, is_homogeneous, is_zero and the degrees all agree with it, and taking the value at (1,1,1) off around a solver adds it back. The monomial "
                    "vectors of MonomialManager (numeric or exact, with or without a symmetry group, homogeneous or not, summed over the group or not) determine the polynomial and back, and the symmetry detection of "
                    "polynomials claims a symmetry only if the polynomial has it and does not miss full or cyclic symmetry."),
         over="all real values of all coefficients of the polynomials listed in the evidence (2 to 4 generators, degree up to 5), for the trivial, cyclic, symmetric and other permutation groups",
         why="Every prover reads its input through these containers and rebuilds identities from monomial vectors: a wrong index, multiplicity or symmetry flag makes each of them prove a different polynomial.",
         files=["triples/utils/expression/coeff.py", "triples/utils/monomials.py", "triples/utils/polytools.py"],
         mech=[("coefficient container", "triples/utils/expression/coeff.py:Coeff"), ("monomial vectors modulo a group", "triples/utils/monomials.py:MonomialManager")],
         note=TN),
    dict(id="C07", title="Exact linear algebra of the SDP layer returns exact results",
         statement=("congruence(M) returns U upper triangular and S >= 0 with U^T S U = M exactly whenever M is positive semidefinite and None only otherwise; row reduction gives the reduced echelon form; "
                    "solve_undetermined_linear and solve_csr_linear (with entries forced equal) return a particular solution and a basis such that x0 + space*y are exactly all solutions, and refuse only unsolvable "
                    "systems; matmul, matmul_multiple and symmetric_bilinear(_multiple) equal the exact product for rational entries of any size, never wrapping around 64 bits; vector/matrix conversions, "
                    "S_from_y and linear decompositions are exact."),
         over="all rational matrices of the listed sizes and sparsity patterns (up to 4x4, 3x5; entries including the 64-bit boundary)",
         why="SDP solutions are turned into proofs only through these routines; a wrap-around, a lost free column or an accepted indefinite matrix gives a sum of squares that does not equal the input or has a negative weight.",
         files=["triples/sdp/arithmetic.py", "triples/sdp/utils.py"],
         mech=[("congruence and conversions", "triples/sdp/utils.py:congruence"), ("linear systems", "triples/sdp/arithmetic.py:solve_csr_linear"), ("int64 products", "triples/sdp/arithmetic.py:matmul")],
         note=TN),
    dict(id="C08", title="Shared proof templates and sparse solvers return what they are asked for",
         statement=("The building blocks from which structural proofs are assembled return expressions exactly equal to what they are asked to represent: quadratic_weighting gives weighted squares "
                    "summing to the form and refuses only forms that are not nonnegative; sum_y_exprs and radsimp keep the value; the CommonExpr templates (Schur, inverse Schur, AM-GM, quadratic), "
                    "reflect and inverse_substitution equal the stated polynomial; perturbation of a nonnegative remainder adds back exactly what was taken off; and the sparse linear, quadratic, "
                    "AM-GM and common-factor solvers return nonnegative combinations identical to their input."),
         over="all real values of the coefficients and of the template parameters listed in the evidence",
         why="These are called from every template of every degree: one wrong factor in a shared identity makes a whole class of printed proofs false, and no test calls them.",
         files=["triples/core/structsos/utils.py", "triples/core/structsos/ternary/utils.py", "triples/core/structsos/sparse.py"],
         mech=[("weighted squares", "triples/core/structsos/utils.py:quadratic_weighting"), ("common identities", "triples/core/structsos/ternary/utils.py:CommonExpr"),
               ("sparse solvers", "triples/core/structsos/sparse.py")],
         note=TN),
    dict(id="C09", title="Signs are used only where given, and sanitising keeps the problem",
         statement=("A structural proof returned for a problem with inequality constraints equals the polynomial once every constraint value is replaced by its constraint, and is nonnegative assuming only "
                    "that those constraint values are: a variable is treated as nonnegative only if a constraint says so, with the right scale and sign, whatever the variables are called. Bringing the input into "
                    "standard form (square-free constraints, homogenisation, wrapping constraints as functions under a symmetry group, dropping what is irrelevant) and undoing it afterwards keeps every polynomial "
                    "and constraint value; inferred symmetry groups really leave the problem invariant; Solution objects keep their value under as_fraction, as_eq, doit, collect, signsimp, xreplace and dehomogenize, "
                    "and is_equal is True only for an identity."),
         over="all real coefficients of the polynomials and constraints listed in the evidence (three and four variables, degree up to 4), constraints of arbitrary sign, scale and naming",
         why="If a variable is silently assumed nonnegative, or a scale or sign is lost while preparing the input, a false inequality gets a proof; the tests never call a prover with such constraints.",
         files=["triples/core/shared.py", "triples/core/structsos/structsos.py", "triples/core/structsos/solution.py", "triples/core/structsos/ternary/solver.py", "triples/core/structsos/quarternary/solver.py", "triples/utils/expression/solution.py"],
         mech=[("input sanitisation", "triples/core/shared.py:sanitize_input"), ("collecting assumed signs", "triples/core/structsos/solution.py:SolutionStructural._extract_nonnegative_exprs"),
               ("solution objects", "triples/utils/expression/solution.py:SolutionSimple")],
         note=TN),
    dict(id="C10", title="Linear-programming proofs recombine to exactly the polynomial",
         statement=("In LinearSOS every basis element's printed expression, polynomial and coefficient vector denote the same thing; tangents and generated bases are nonnegative whenever the constraints are; raising the "
                    "degree multiplies by the stated multiplier; solving the exact linear system, choosing and rationalising the weights either gives nonnegative weights that reproduce the polynomial exactly or is refused; "
                    "and the proof expression assembled from weights and basis, with any symmetry group, is identically equal to the input polynomial with nonnegative weights on terms nonnegative under the constraints."),
         over="all real weights, basis coefficients and polynomial coefficients of the listed bases (two to four variables, degree up to 6; trivial, cyclic and symmetric groups); whatever weights a linear program would return",
         why="Floating-point weights are turned into an exact statement only by this code: one index, multiplicity or scale off gives a printed identity that is false, and only for some bases, groups and weights.",
         files=["triples/core/linsos/linsos.py", "triples/core/linsos/basis.py", "triples/core/linsos/correction.py", "triples/core/linsos/solution.py", "triples/core/linsos/tangents.py", "triples/core/linsos/updegree.py"],
         mech=[("exact weights", "triples/core/linsos/correction.py:linear_correction"), ("basis vectors and expressions", "triples/core/linsos/basis.py:LinearBasisTangent"),
               ("assembling the proof", "triples/core/linsos/solution.py:SolutionLinear")],
         note=TN + " scipy's linear-program solver is replaced by arbitrary weights."),
    dict(id="C11", title="Semidefinite proofs equal the polynomial; SDP transformations keep it",
         statement=("For every Gram matrix, quotient basis, symmetry group and set of constraints the expression built by SDPSOS equals the polynomial it is built for, with nonnegative weights when the matrices are positive "
                    "semidefinite. The affine system set up for a problem has exactly the Gram representations as solutions. SDP problems keep their solution set under construction from equations, entries and matrices, "
                    "and under row, column, diagonal, equality, nullspace, symmetric-block and sum-of-parts transformations, whose back-substitution returns a solution of the parent. Rationalised candidates are "
                    "accepted only when they satisfy the equations and are positive semidefinite exactly."),
         over="all rational entries of the Gram matrices, free parameters, equations and polynomial coefficients of the listed problems (blocks up to 4x4, two to four variables, degree up to 6)",
         why="A numerical SDP solution is only a hint; this code claims exactness. The tests solve a handful of problems with the trivial transformations.",
         files=["triples/core/sdpsos/sdpsos.py", "triples/core/sdpsos/manifold.py", "triples/core/sdpsos/solution.py", "triples/sdp/dual.py", "triples/sdp/primal.py", "triples/sdp/transform.py", "triples/sdp/abstract.py", "triples/sdp/rationalize.py", "triples/sdp/utils.py"],
         mech=[("Gram equations", "triples/core/sdpsos/sdpsos.py:SOSProblem"), ("transformations", "triples/sdp/transform.py:SDPTransformation"), ("exact acceptance", "triples/sdp/rationalize.py:verify_is_pos_def"),
               ("assembling the proof", "triples/core/sdpsos/solution.py:SolutionSDP")],
         note=TN + " Interior-point backends are outside the claim."),
    dict(id="C12", title="Proofs in four or more variables and for acute triangles are genuine",
         statement=("For cyclic, symmetric and partially symmetric forms in four variables, symmetric quartics in any number of variables, and ternary forms under the acute-triangle conditions b^2+c^2-a^2 >= 0 (cyclically), "
                    "whenever the structural solver returns a proof expression, it is identically equal to the input polynomial once each constraint value is replaced by its constraint, and is a combination, with "
                    "nonnegative weights, of squares, quotients and values assumed nonnegative; otherwise it reports no proof."),
         over="all coefficients of four-variable cubics and quartics in the listed symmetry classes, symmetric quartics in 4 to 6 variables, cyclic/symmetric ternary forms of degree 2 to 6 under acute conditions (generic up to 5 coefficients, and 1-2 parameter slices through every branch)",
         why=STR_WHY,
         files=["triples/core/structsos/quarternary/cubic.py", "triples/core/structsos/quarternary/quartic.py", "triples/core/structsos/nvars.py", "triples/core/structsos/constrained/acute.py"],
         mech=[("four-variable templates", "triples/core/structsos/quarternary/quartic.py"), ("acute templates", "triples/core/structsos/constrained/acute.py:constrained_acute")],
         note=TN),
    dict(id="C13", title="Univariate and bivariate proofs equal the polynomial, on the given region only",
         statement=("prove_univariate (whole line, half lines and intervals, end points rational or not, all ways of returning), the interval splitting around it, and the bivariate (pivoting) provers return, "
                    "whenever they return a proof, nonnegative weights and squares that recombine to exactly the given polynomial, with multipliers that are nonnegative on exactly the region that was given; "
                    "they never claim a polynomial that is negative somewhere on the region, and do not fail with an internal error on zero, odd-degree or trivial input."),
         over="all real coefficients of the listed polynomials (one variable to degree 6, two variables to degree 4) and end points of intervals and half planes",
         why="The one-variable prover is called from every other prover; a diagonal lost for one parity of the degree makes it return a false identity that the tests' examples never meet.",
         files=["triples/core/structsos/pivoting/univariate.py", "triples/core/structsos/pivoting/bivariate.py", "triples/core/symsos/basic.py"],
         mech=[("univariate sums of squares", "triples/core/structsos/pivoting/univariate.py:prove_univariate"), ("bivariate proofs", "triples/core/structsos/pivoting/bivariate.py")],
         note=TN),
    dict(id="C14", title="Rational search helpers return points that satisfy what is promised",
         statement=("The helpers that turn approximate or algebraic data into rational data keep their contract: rationalised points on conics lie on the conic; points of common regions satisfy every constraint given; "
                    "rationalize_bound stays on its side of the given number; nearest and congruent rational candidates meet the stated bounds; clear_free_symbols keeps the solution set it is given; rewriting "
                    "to sums, radsimp and removal of free symbols keep values."),
         over="all real coefficients of the conics and constraints listed in the evidence, all real numbers given to the rounding helpers",
         why="Every template chooses its free parameters through these searches; a point off the curve by one root makes its proof wrong for inputs nobody tried.",
         files=["triples/utils/roots/rationalize.py", "triples/core/structsos/utils.py"],
         mech=[("points on conics", "triples/core/structsos/utils.py:rationalize_quadratic_curve"), ("one-sided rounding", "triples/utils/roots/rationalize.py:rationalize_bound")],
         note=TN),
    dict(id="C15", title="Symmetric changes of variables and pqr forms keep the polynomial",
         statement=("The symmetric changes of variables of SymmetricSOS are invertible: putting the meaning of the new variables back gives the original polynomial times the reported factor, for the polynomial and for "
                    "each constraint; the constraints supplied by default hold for all real (nonnegative) variables; extract_factor removes exactly the reported power; pqr_sym, pqr_cyc and pqr_ker give forms that "
                    "equal their polynomial; and a proof returned by SymmetricSOS equals its polynomial and needs no sign that was not given."),
         over="all real coefficients of symmetric polynomials in three variables to degree 6 and four variables to degree 4, cyclic ones to degree 4",
         why="A wrong coefficient in one substitution, or one constraint assumed without reason, gives false proofs for one class of symmetric polynomials only.",
         files=["triples/core/symsos/representation.py", "triples/core/symsos/symmetric.py", "triples/core/symsos/symsos.py", "triples/core/symsos/basic.py", "triples/utils/expression/pqr.py"],
         mech=[("changes of variables", "triples/core/symsos/representation.py:sym_representation"), ("pqr forms", "triples/utils/expression/pqr.py:pqr_sym")],
         note=TN),
]
NA = []
