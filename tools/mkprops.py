"""writes /verif/properties.jsonl (the single source of the property texts)"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
TESTS = "The only tests compare the first-order matrices of five fixed models with stored numbers; "

prop("C01", "Expression text evaluates to the value its notation denotes",
 "Evaluating an arithmetic or comparison expression given as text yields the value the notation denotes: usual precedence, left-associative + - * /, right-associative power, a sign that binds looser than power but tighter than a following operator, parentheses, the named functions and the supplied variable values. The caret and double-asterisk spellings of power agree, whitespace is immaterial, and a text parsed once and evaluated later gives the same value for every set of variable values.",
 ["inputs"], "all expressions over numbers, variables, + - * / power, signs, parentheses, one-argument functions, one comparison; both power notations; all variable values in the domain of the operations",
 TESTS + "they only exercise the few operator combinations in those five files; no test evaluates an expression by itself, so precedence and sign rules in unusual combinations are unobserved.",
 ["pynare/parsing/api.py", "pynare/parsing/parser.py", "pynare/parsing/lexer.py", "pynare/parsing/base.py", "pynare/parsing/ast.py"],
 [("recursive-descent expression grammar", "pynare/parsing/parser.py BaseParser.expr/term/exponent/call/atom"), ("evaluation visitor", "pynare/parsing/base.py _BaseEvaluator"), ("tokens", "pynare/parsing/lexer.py")],
 ["value returned by pynare.parsing.evaluate"])

prop("C02", "Malformed text is rejected, and reading always terminates",
 "Reading any text, as an expression or as a model file, terminates: either it is accepted as a whole or an ordinary exception is raised. Text with missing, surplus or misplaced symbols (unbalanced parentheses, a dropped semicolon, operator or 'end', an unclosed comment or string, trailing characters after a complete expression, an unsupported statement) is never silently accepted with part of it ignored.",
 ["inputs"], "all finite texts, in particular every truncation and every single-token deletion, insertion or duplication of a valid expression or model file",
 TESTS + "all five are well formed, so no rejection path and no termination argument is exercised at all.",
 ["pynare/parsing/lexer.py", "pynare/parsing/parser.py", "pynare/parsing/api.py"],
 [("comment skipping and tokenizing", "pynare/parsing/lexer.py DynareLexer"), ("preamble/model/actions loops", "pynare/parsing/parser.py DynareParser"), ("expression entry point", "pynare/parsing/api.py parse_string")],
 ["exception or result of Model.from_path and pynare.parsing.evaluate"])

prop("C03", "A model file is read faithfully, whatever its layout",
 "A model loaded from a file has exactly the declared endogenous and exogenous variables in declaration order, the parameter values, the initial, terminal and historical values, and a shock covariance matrix given by the variance, stderr, corr and covariance statements (variance 1 and no correlation where nothing is said); an initial value the file does not state is 0, and a terminal or historical value it does not state is not a number (or 0), never one stated elsewhere. Comments of any style anywhere between symbols, line breaks, spacing, optional commas, several declaration statements instead of one, and the order of the post-model blocks do not change anything about the loaded model.",
 ["inputs", "programs"], "all well-formed model files, all parameter/boundary/shock statements in them and all placements of comments and whitespace",
 TESTS + "declaration order, boundary values and covariances are only seen through the solution of five files in one layout each; comment placement, histval, corr and cov statements are not sampled.",
 ["pynare/parsing/lexer.py", "pynare/parsing/parser.py", "pynare/parsing/factory.py", "pynare/core/variables.py", "pynare/core/generic.py", "pynare/core/model.py"],
 [("lexing and comments", "pynare/parsing/lexer.py DynareLexer"), ("model outline", "pynare/parsing/factory.py DynareModelFactory"), ("covariance matrix", "pynare/core/generic.py DynamicModel._define_sigma")],
 ["names, params, initial/terminal/historical and sigma of the loaded model"])

prop("C04", "Names are checked when a model is read",
 "A model file that uses an undeclared name in an equation, a model-local definition, or a parameter, boundary or shock expression, gives a boundary value to something that is not an endogenous variable, sets a shock for something that is not an exogenous variable, assigns a value to a declared variable, declares a name twice, or gives a parameter a lead or lag is rejected with an error when read that identifies the offending name. A file without such an error is accepted.",
 ["inputs", "programs"], "all well-formed model files with one injected naming error of each kind at every position, and all files without one",
 TESTS + "none of the five has a naming error, so no check is ever triggered.",
 ["pynare/parsing/semantics.py", "pynare/parsing/factory.py"],
 [("semantic analysis", "pynare/parsing/semantics.py DynareSemanticAnalyzer")],
 ["NameError/TypeError raised by Model.from_path"])

prop("C05", "Parameters defined by expressions take the value the definitions imply",
 "Parameters may be defined by numbers or by expressions in other parameters, in any order of definition; each then has the value those definitions imply, in the file's parameter block and in the programmatic interface alike. Changing a parameter's value later changes exactly the parameters defined through it (directly or indirectly) to their implied new values, and a calibration that is circular or refers to an undefined name is rejected rather than given a value.",
 ["inputs", "histories"], "all acyclic systems of definitions in all orders, all sequences of parameter changes, and all cyclic or incomplete systems",
 TESTS + "they contain a handful of parameter definitions in an already sorted order, never change a parameter, and contain no bad calibration.",
 ["pynare/core/variables.py", "pynare/core/expressions.py", "pynare/core/generic.py", "pynare/parsing/factory.py"],
 [("calibration ordering and re-evaluation", "pynare/core/variables.py ModelCalibration")],
 ["params of the model and the calibration's values; CalibrationError"])

prop("C06", "Model equations evaluate to left minus right at every point",
 "At every point, the static form of a loaded model returns for each equation, in file order, its left side minus its right side with all leads and lags dropped and shocks at zero, and the dynamic form returns it with each variable taken at the period written, each shock at its given value and parameters and model-local definitions at their calibrated values. An equation without an equals sign stands for expression = 0.",
 ["inputs", "programs"], "all model equations built from the supported operators and functions, all timings -1, 0, +1, all parameter values and all evaluation points",
 TESTS + "they see the equations only through the linear solution at one point of five models; a residual wrong away from the steady state, or in an operator these models do not use, is invisible.",
 ["pynare/core/expressions.py", "pynare/parsing/base.py", "pynare/parsing/factory.py", "pynare/core/steady.py"],
 [("static and dynamic representation", "pynare/core/expressions.py SteadyRepr, DynamicRepr"), ("evaluator", "pynare/parsing/base.py _BaseEvaluator")],
 ["values of the model's steady_repr and dynamic_repr"])

prop("C07", "Model derivatives equal the true derivatives at the steady state",
 "The model's Jacobian and Hessian are the exact first and second partial derivatives of its equations at the steady state, one row per equation in file order, with columns for the variables that occur with a lag, then every current variable, then the variables that occur with a lead (each in declaration order), then the shocks, and second derivatives for every ordered pair of those columns. The Jacobian of the steady state's static system has one column per variable in declaration order: the derivative when the variable moves at all its timings at once. Derivatives with respect to something an equation does not contain are zero.",
 ["inputs", "programs"], "all differentiable models, timings and steady-state points",
 TESTS + "first derivatives are seen only through the solutions of five models and second derivatives are not tested at all.",
 ["pynare/core/linearizing.py", "pynare/core/expressions.py", "pynare/core/variables.py"],
 [("automatic differentiation of the dynamic form", "pynare/core/linearizing.py"), ("column layout", "pynare/core/variables.py VariableIndexManager")],
 ["model.jacobian, model.hessian, model.ss.jacobian"])

prop("C08", "Variables are classified by the timings at which they occur",
 "Every endogenous variable is reported in exactly one of the classes static, purely backward, mixed and purely forward, decided only by whether it occurs with a lag and/or a lead anywhere in the equations, and the backward (state) and forward groups are the corresponding unions, each in declaration order, with the positions and derivative columns reported for a group being those of its members. Equation and declaration order affect only the order within a group; a variable occurring at an unsupported distance (two or more periods) or not at all is refused rather than silently misread.",
 ["inputs", "programs"], "all assignments of timings to variables, over all declaration and equation orders",
 TESTS + "each shows one arrangement; interleavings of classes in the declaration order and unsupported timings are not sampled.",
 ["pynare/core/variables.py", "pynare/core/expressions.py", "pynare/core/generic.py"],
 [("lead/lag detection", "pynare/core/variables.py set_lead_lags"), ("index manager", "pynare/core/variables.py VariableIndexManager")],
 ["static_vars, pure_backward_vars, mixed_vars, pure_forward_vars, state_vars, forward_vars, backward_vars"])

prop("C09", "The first-order solution solves the linearized model and is stable",
 "For every model with a unique stable solution, the first-order policy matrices satisfy the linearized equations exactly: substituting them for this period's and next period's variables leaves zero for every lagged state and every shock, and the implied transition of the states has no eigenvalue outside the unit circle. This holds for every mix of static, purely backward, mixed and purely forward variables, including models lacking some of these kinds, one-variable models and models without shocks.",
 ["inputs", "programs"], "all linear and nonlinear models with a determinate steady state, over all variable mixes, dimensions and eigenvalue patterns (negative and complex included)",
 TESTS + "they cover five variable mixes with real positive eigenvalues; negative or complex roots, absent classes and small dimensions take other code paths.",
 ["pynare/core/solve/first_order.py", "pynare/core/solve/statespace.py", "pynare/utils/numpy.py", "pynare/core/solve/base.py"],
 [("generalized Schur partition", "pynare/utils/numpy.py partitioned_qz"), ("state space and static reduction", "pynare/core/solve/statespace.py StateSpace"), ("policy assembly", "pynare/core/solve/first_order.py FirstOrderSolution")],
 ["gy, gu of the first-order solution with the model's reported variable orders"])

prop("C10", "Results depend on the model, not on how it is written down",
 "Permuting the equations, permuting the declarations of variables, parameters or shocks, renaming variables consistently, multiplying an equation by a nonzero constant, swapping its two sides or moving terms across the equals sign changes no reported number: steady state, first- and second-order responses, moments and impulse responses are the same for each named variable.",
 ["programs", "configurations"], "all models and all compositions of the listed meaning-preserving rewrites",
 TESTS + "each model appears in one written form, so a dependence on order or naming cannot show.",
 ["pynare/core/variables.py", "pynare/core/solve/first_order.py", "pynare/core/solve/second_order.py", "pynare/stats/moments.py", "pynare/impulse.py"],
 [("index bookkeeping between declaration and decision-rule order", "pynare/core/variables.py VariableIndexManager")],
 ["labelled results of solve, impulse_response, stats"])

prop("C11", "Blanchard-Kahn conditions decide whether a solution is returned",
 "Solving a model succeeds exactly when the number of its eigenvalues outside the unit circle equals the number of forward-looking variables and the rank condition holds; otherwise an identification error is raised that says which condition fails (and, for the former, both numbers) and no solution is returned. The eigenvalues the model reports are those of its linearized dynamics.",
 ["inputs", "programs"], "all models with chosen eigenvalues (real of both signs, complex pairs, zero, infinite) off the unit circle, determinate, indeterminate and explosive",
 TESTS + "all five models are determinate, so no refusal is ever exercised.",
 ["pynare/core/solve/statespace.py", "pynare/core/solve/first_order.py", "pynare/utils/numpy.py", "pynare/errors/__init__.py"],
 [("order and rank verification", "pynare/core/solve/statespace.py StateSpace.verify"), ("eigenvalue partition", "pynare/utils/numpy.py partitioned_qz")],
 ["ModelIdentificationError or solution from solve; statespace eigenvalues"])

prop("C12", "The second-order solution solves the second-order approximation",
 "For every model with a unique stable solution, the second-order policy coefficients (in pairs of states, pairs of shocks, state-shock pairs, and the constant uncertainty correction; stored as coefficients of a Taylor expansion, so that the pairs of states, pairs of shocks and the correction carry the one half) make every second-order term of the model's equations vanish when substituted for current and next-period variables, given the shock covariance. Models that are linear have zero second-order coefficients, and the first-order part agrees with the first-order solution.",
 ["inputs", "programs"], "all nonlinear models over all variable mixes, numbers of variables and shocks, and covariance matrices",
 "The existing tests check only first-order matrices; no second-order coefficient is compared with anything.",
 ["pynare/core/solve/second_order.py", "pynare/core/linearizing.py", "pynare/utils/numpy.py"],
 [("second-order systems", "pynare/core/solve/second_order.py SecondOrderSolver"), ("Sylvester solver", "pynare/utils/numpy.py")],
 ["ghxx, ghxu, ghuu, del2 of the second-order solution"])

prop("C13", "The reported steady state satisfies the model",
 "The steady state reported for a model, in declaration order, makes every equation hold with all variables constant and shocks at zero, up to the solver's tolerance, when the search is started near an existing steady state; started at an exact steady state it is returned unchanged up to that tolerance. It follows parameter changes and does not alter the model's initial values. The simplex search never ends at a point that solves the model worse than the initial values do, and asking for a method that is not available leaves the steady state as it was.",
 ["inputs", "programs"], "all models with a known isolated steady state, starting values in its neighbourhood, and parameter changes",
 TESTS + "the steady state is only seen through the derivatives at it, for five calibrations.",
 ["pynare/core/steady.py", "pynare/core/expressions.py", "pynare/core/generic.py"],
 [("minimization of squared residuals", "pynare/core/steady.py SteadyState")],
 ["model.ss values; residuals of steady_repr"])

prop("C14", "First-order simulation follows the linear policy rule",
 "A first-order simulation starts at the given initial values (or the steady state) and every later row is the steady state plus the policy response to the previous row's deviation and to that period's innovations, which are the supplied shock paths scaled by the factor of the shock covariance; for T rows of shocks the path has T rows, the first being the initial values and row t responding to the (t-1)-th row of shocks, with columns in declaration order; the simulation reports the scaled innovations as its shocks, and the covariance may be singular. It is linear in initial deviations and shocks, zero shocks from the steady state stay there, and without supplied shocks the requested number of periods is drawn with the model's covariance.",
 ["inputs", "histories"], "all models, initial values, shock paths, lengths and covariance matrices",
 "The existing tests never simulate.",
 ["pynare/simul.py", "pynare/core/solve/first_order.py"],
 [("simulation recursion", "pynare/simul.py FirstOrderSimulation / simulate")],
 ["paths and shocks of the returned simulation"])

prop("C15", "Second-order simulation follows the second-order policy rule",
 "A second-order simulation starts at the given initial values (or the steady state) and every later row is the steady state plus the uncertainty correction plus the linear response plus the second-order Taylor response (pairs of states, states and shocks, pairs of shocks) to the previous row's deviation and that period's innovations. The supplied shock paths are scaled by the factor of the shock covariance and columns are in declaration order; for a linear model it coincides with the first-order simulation.",
 ["inputs", "histories"], "all models, initial values, shock paths, lengths and covariance matrices",
 "The existing tests never simulate and never use a second-order solution.",
 ["pynare/simul.py", "pynare/core/solve/second_order.py"],
 [("simulation recursion", "pynare/simul.py SecondOrderSimulation / simulate")],
 ["paths of the returned simulation"])

prop("C16", "Impulse responses trace one shock from the steady state",
 "The impulse response to an exogenous variable is, for each endogenous variable, the path of the model's policy rule from the steady state after a single first-period innovation of the requested number of standard deviations in that variable (together with the contemporaneous movement of the shocks ordered after it implied by the covariance) and none afterwards. It has the requested number of periods and scales with the size at first order; several shocks named together hit in the same period, the first shock is the default, and a name that is not a shock of the model is refused.",
 ["inputs", "configurations"], "all models, shocks and sets of shocks, sizes of both signs, horizons and covariance matrices",
 "The existing tests never compute an impulse response.",
 ["pynare/impulse.py", "pynare/simul.py"],
 [("impulse construction", "pynare/impulse.py impulse_response")],
 ["paths of the returned impulse response"])

prop("C17", "Theoretical moments are those of the solved linear process",
 "Covariance, variance, standard deviation, correlation and autocovariance/autocorrelation tables reported for a model equal the unconditional moments of the linear process given by its first-order solution and shock covariance, in declaration order, with entry (k, i, j) of the autocovariances and autocorrelations belonging to variable i now and variable j k+1 periods before. Variances solve the fixed-point equation of the process, correlations of variables that vary lie in [-1, 1] with unit diagonal, and the reported mean is the steady state plus, at second order, the effect of the quadratic terms and the uncertainty correction. The transition, impact and covariance matrices of the state variables are the state variables' rows (and columns) of these, in decision-rule order.",
 ["inputs"], "all stable models, shock covariance matrices and numbers of lags",
 "The existing tests never compute a moment.",
 ["pynare/stats/moments.py", "pynare/stats/stats.py", "pynare/utils/numpy.py"],
 [("discrete Lyapunov equation and lag recursion", "pynare/stats/moments.py")],
 ["tables returned by model.stats"])

prop("C18", "Variance decomposition shares are exact and complete",
 "With uncorrelated shocks each entry of the variance decomposition is the share of that variable's unconditional variance the model would have if only that shock were active; shares lie in [0, 1] and sum to one for every variable that varies. Rows and columns are labelled by variable and shock in declaration order, the shares do not change when all shock variances are scaled together, correlated shocks are attributed in the order of the triangular factor of their covariance, and unknown names are refused.",
 ["inputs"], "all stable models with any number of shocks and any positive variances, every variable and shock selection offered",
 "The existing tests never compute a decomposition.",
 ["pynare/stats/var.py", "pynare/stats/stats.py"],
 [("per-shock variance", "pynare/stats/var.py")],
 ["table returned by model.stats"])

prop("C19", "Statistics of simulated paths are the sample statistics",
 "The correlation and autocorrelation tables of a simulation equal the sample statistics of its own paths after dropping the requested initial periods: labelled by variable, unit diagonal for correlations, lag k in the k-th column (mean product of deviations from the mean of all kept periods over the pairs k apart, divided by the sample variance), and the paths themselves left untouched. More lags than periods is an error.",
 ["inputs"], "all simulated paths, numbers of dropped periods and lags",
 "The existing tests never simulate.",
 ["pynare/simul.py"],
 [("sample moments", "pynare/simul.py ModelSimulation.corr/autocorr")],
 ["tables returned by corr and autocorr of a simulation"])

prop("C20", "One-constraint OccBin paths satisfy the regime actually in force",
 "A piecewise-linear path under one occasionally binding constraint, in deviations from the steady state of the reference regime, around which both regimes are linearized, and driven by the innovations as given, satisfies, in every period of its horizon, the linearized equations of the regime assigned to that period given next period's values, and the assigned regimes agree with the constraint evaluated along the path: the constrained regime applies exactly in the periods where the solution says the constraint binds. When the constraint never binds, the path equals the linear path of the unconstrained model for the same shocks and initial values. max_iter bounds the guesses made per period: a path that would need more comes with a warning, and a path without a warning does not depend on max_iter.",
 ["inputs", "programs"], "all models with an alternative regime, declaration orders, shock paths, initial values and constraint thresholds for which the solver reports no failure to settle",
 "The existing tests never invoke an occasionally binding constraint.",
 ["pynare/core/solve/binding.py", "pynare/regimes.py"],
 [("guess and verify", "pynare/core/solve/binding.py one-constraint solver")],
 ["paths of solve(constraint=...)"])

prop("C21", "Two-constraint OccBin paths satisfy the regimes actually in force",
 "A piecewise-linear path under two occasionally binding constraints satisfies, in every period, the linearized equations (around the steady state of the reference regime) of the combination of regimes in force given next period's values, with each constraint's regime agreeing with that constraint along the path. When neither binds it is the linear path, and when one can never bind it equals the one-constraint path for the other. max_iter bounds the guesses made per period: a path that would need more comes with a warning, and a path without a warning does not depend on max_iter.",
 ["inputs", "programs"], "all models with two alternative equations, shock paths and thresholds for which the solver reports no failure to settle",
 "The existing tests never invoke an occasionally binding constraint.",
 ["pynare/core/solve/binding.py", "pynare/regimes.py"],
 [("guess and verify over two constraints", "pynare/core/solve/binding.py two-constraint solver")],
 ["paths of solve(constraint=[..., ...])"])

prop("C22", "An edited model behaves like one built that way from the start",
 "After any sequence of edits through the model's interface (changing or adding parameters, replacing or adding equations, adding variables and shocks) interleaved with any queries, everything the model then reports (variable classes, derivatives, covariance, steady state and a new solution) equals what a model written in that final form reports. Queries alone never change later answers.",
 ["histories"], "all interleavings of edits and queries",
 "The existing tests build a model once and solve it once; no history is exercised.",
 ["pynare/core/generic.py", "pynare/core/variables.py", "pynare/core/expressions.py", "pynare/core/model.py"],
 [("invalidate-and-update flag", "pynare/core/generic.py is_altered/update")],
 ["all query results after each step, against a freshly loaded model"])

prop("C23", "Copies and regimes are independent of the model they came from",
 "A copy of a model reports the same variables, parameters, equations, covariance, boundary values and solution as the original, and later edits of either leave the other unchanged. A regime-switching model built from alternative equations has one model per regime, the first equal to the baseline and the others differing in exactly the replaced equations, and building it leaves the baseline untouched.",
 ["histories", "programs"], "all models, all edits applied to either side after copying, and all sets of replaced equations",
 "The existing tests never copy a model.",
 ["pynare/core/generic.py", "pynare/regimes.py"],
 [("copy", "pynare/core/generic.py DynamicModel.copy"), ("regimes", "pynare/regimes.py RegimeSwitchingModel")],
 ["query results of copy, original and regimes"])

prop("C24", "Printed summaries show the model's own numbers",
 "The model, solution and statistics summaries show, next to each variable and shock label, the numbers the model itself reports (counts, eigenvalues, covariance, steady state, policy coefficients, moments, correlations, autocorrelations, variance shares) rounded to the requested number of digits, each under its own label. Omitted rows are only those whose entries are all below the stated threshold in absolute value, the autocorrelation columns are headed by their lags, and every switch that turns a block off removes that block only. Eigenvalues are listed by increasing modulus, and the model's equations are displayed as they were written, in order.",
 ["inputs", "configurations"], "all solvable models and all combinations of summary options",
 "The existing tests never print a summary.",
 ["pynare/io/summary.py", "pynare/stats/stats.py"],
 [("text tables", "pynare/io/summary.py")],
 ["text of summary() of model, solution and stats"])

prop("C25", "Plots draw every series once, under its own label",
 "Plotting a simulation or impulse response draws each variable's path exactly once with its own values and its own name, whatever the number of variables and the chosen arrangement of panels: a row, a column, the smallest square that fits, a full rectangle with no more rows than columns, or given numbers of rows and columns. Unknown arrangements are refused.",
 ["inputs", "configurations"], "all numbers of variables and periods and every offered layout",
 "The existing tests never plot.",
 ["pynare/plotting/base.py", "pynare/plotting/wrapper.py"],
 [("panel layout", "pynare/plotting/base.py PynarePlot")],
 ["line data and titles of the returned axes"])

prop("C26", "Model files and bundled examples load from anywhere",
 "Loading a model by path gives the same model for every spelling of the path (relative, absolute, string or path object, any suffix) and from every working directory, named after the file (the last component of the path up to its first dot); a bundled example is found by its name from every working directory, and a name that is neither is reported as a missing file.",
 ["configurations", "inputs"], "all working directories, path spellings, file names and registered example names",
 TESTS + "they load by one relative path from the repository root.",
 ["pynare/core/model.py", "pynare/io/files.py", "pynare/examples/__init__.py"],
 [("path resolution and example registry", "pynare/core/model.py Model.from_path, pynare/examples/__init__.py")],
 ["result of Model.from_path"])

prop("C27", "The linear-algebra helpers satisfy their defining equations",
 "The generalized Sylvester, Kronecker and block-stacking helpers and the ordered generalized Schur decomposition satisfy their defining identities for every conforming input: the returned matrix solves the stated equation, the factors reproduce both input matrices with unitary transformations, and the eigenvalues are partitioned by modulus with stable ones first.",
 ["inputs"], "all conforming dimensions (one included) and well-conditioned matrices with eigenvalues of any sign, complex, zero or infinite",
 "The existing tests call none of these helpers directly and reach them only with the dimensions and eigenvalues of five models.",
 ["pynare/utils/numpy.py"],
 [("helpers", "pynare/utils/numpy.py")],
 ["returned arrays"])

prop("C28", "Requests for what is not there are refused and change nothing",
 "A request for something the library does not provide or the model does not have is refused with an error instead of being answered with something else: an approximation order other than one or two; a name that is not a parameter, variable, shock, statistic, summary block, language or steady-state method; shock paths, initial values or evaluation points of the wrong length; negative periods or lags, more lags than periods or more dropped periods than simulated ones; an equation, parameter or variable of the wrong type or with malformed text, a circular parameter; a regime for an equation that does not exist. A model with a missing or surplus equation, or with an undeclared name in an equation, is not solved. After a refusal the model reports exactly what it reported before, and once its defect is repaired it reports what it would have without it.",
 ["inputs", "histories"], "all models, whether solved or not, and all such requests, singly and in sequence",
 "The existing tests make valid requests only, so no refusal and no state after a refusal is observed.",
 ["pynare/core/model.py", "pynare/core/generic.py", "pynare/core/variables.py", "pynare/core/expressions.py", "pynare/core/steady.py", "pynare/simul.py", "pynare/impulse.py", "pynare/stats/stats.py", "pynare/stats/var.py", "pynare/stats/moments.py", "pynare/io/summary.py", "pynare/regimes.py"],
 [("order of the solution", "pynare/core/model.py Model.solve"), ("calibration edits", "pynare/core/variables.py ModelCalibration"), ("dropping periods", "pynare/simul.py _drop_simulated_paths"), ("choice of the steady-state method", "pynare/core/steady.py _SteadyStateManager")],
 ["exception raised by the request", "answers of the model afterwards"])

prop("C29", "Models built from the same material do not influence one another",
 "Two models built from the same file, the same parsed outline, the same lists and dictionaries, or another model's equations and parameters are independent of each other and of that material: editing or querying one, in any interleaving, never changes what another reports, the material handed over is not modified, and changing it afterwards (or rewriting the file) does not change a model already built. A model built later from the same material is the model that material describes, whatever happened to earlier ones.",
 ["histories"], "all interleavings of edits and queries over two or three models built from shared files, outlines, containers or parsed equations, and all later changes to these",
 "The existing tests hold one unedited model at a time.",
 ["pynare/core/model.py", "pynare/core/generic.py", "pynare/core/variables.py", "pynare/core/expressions.py", "pynare/parsing/api.py", "pynare/parsing/factory.py"],
 [("containers kept by the model", "pynare/core/generic.py, pynare/core/expressions.py ModelExprs, pynare/core/variables.py ModelCalibration"), ("building from an outline", "pynare/core/model.py Model.from_outline")],
 ["answers of each model", "the containers handed over"])

prop("C30", "A rejected text is reported with the offending symbol and its place",
 "When a model file or an expression is rejected for its syntax, the message that names a symbol, a line and a column names the first symbol (or unrecognized character) that cannot continue what stands before it, and the line and column of that very appearance, however often the same word, number or sign also stands elsewhere, whatever comments, blank lines and spacing come before, and whatever was read earlier. When a name is rejected (undeclared, declared twice, a value for a variable that cannot have one, a shock of a variable that is not exogenous, a lead or lag of a parameter), a row and column that the message gives are those of the appearance of the name that is wrong.",
 ["inputs"], "all malformed model files and expressions and all misused names whose error message gives a place, in any layout",
 "The existing tests read valid files only, so no error message is looked at.",
 ["pynare/parsing/lexer.py", "pynare/parsing/parser.py", "pynare/parsing/semantics.py", "pynare/parsing/base.py", "pynare/errors"],
 [("locations of symbols", "pynare/parsing/lexer.py BaseLexer.advance, _id"), ("unexpected symbols", "pynare/parsing/parser.py BaseParser.eat, error"), ("misused names", "pynare/parsing/semantics.py DynareSemanticAnalyzer")],
 ["message of the exception"])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
