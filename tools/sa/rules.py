"""Registry of the checks: the deciding function of each property, the rule it
applies and what its evidence counts."""
from . import rules_conv, rules_dyn, rules_misc, rules_params, rules_ref, rules_run, rules_step

INFO = {}


def reg(prop, check, technique, rule, explanation, **kw):
    INFO[prop] = dict(check=check, technique=technique, rule=rule, explanation=explanation, **kw)


AI = "static analysis: interprocedural abstract interpretation over a value graph"

reg("C01", rules_params.c01, AI + " (exception-exit analysis)",
    "for every parameter, way of assigning it and class of value: a non-quantity has no normal exit and only TypeError exits; a quantity of another dimension has no normal exit and only UnitError exits; a convertible quantity in an arbitrary unit has no exceptional exit (other than the documented ordering error)",
    "abstractly executes the constructor, attribute assignment and set_drivers of both models on abstract values of each class (number, zero, None, str, array, list, unit, arbitrary object, quantities of 11 other dimensions, the right dimension in an arbitrary unit) and examines every exit")
reg("C02", rules_params.c02, AI + " (heap comparison at exceptional exits)",
    "at every exceptional exit of an assignment, set_drivers or reset, the abstract heap reachable from the model is the one before the call",
    "for each exceptional exit found, compares every attribute of the model (and the objects it refers to) with the state before the call")
reg("C03", rules_params.c03, AI + " (heap comparison)",
    "after an accepted assignment the attribute reads back as a quantity of the same magnitude and unit; step, run, reset and the conversions change no attribute holding a parameter or driver; run_scenarios changes only delta_t and erf",
    "reads every parameter back after assignment and compares the parameter and driver values before and after every public call")
reg("C04", rules_params.c04, AI + " (differential dependency analysis)",
    "with a history that computed everything before, assigning a parameter gives the same value graph for every later observation as a model that had the value from the start",
    "for each parameter, each of several histories and each observation (steps, heat capacities, conversions): normal forms compared between the model changed late and one built with the new value")
reg("C05", rules_params.c05, AI + " (unit inference: unit factors as free symbols)",
    "no observation and no exit condition has a unit factor of an input among the atoms of its normal form",
    "each input is given in a unit of unknown factor; the true dependencies of every observation and of every exit's guard are searched for those factors")
reg("C06", rules_step.c06, AI + " (global value numbering to a rational normal form)",
    "the node stored at index k of the upper and lower temperature equals the documented forward-difference expression of the state at k-1, for an unknown k >= 1, unguarded",
    "the transfer function of one step at a generic index is extracted and compared with the documented equation in normal form; any guard left in it is a violation")
reg("C07", rules_step.c07, AI + " (global value numbering to a rational normal form)",
    "the node stored in the heat uptake at index k equals both the layers' heat gain over the step and the flux form of the previous state",
    "normal-form comparison of the extracted heat uptake with two independent forms of the energy budget, at a generic index")
reg("C08", rules_step.c08, AI + " (global value numbering, exp as algebraic generator)",
    "the node stored at index k of each box temperature equals the exact exponential relaxation of the state at k-1; the reported surface temperature is the elementwise sum of the boxes",
    "normal-form comparison of the extracted step, and of the surface temperature series inserted by run_scenarios")
reg("C09", rules_step.c09, AI + " (global value numbering with algebraic extensions)",
    "the heat uptake node at index k equals the documented one with the equivalent two-layer parameters",
    "normal-form comparison modulo the algebraic relations of the two-layer equivalents")
reg("C10", rules_step.c10, AI + " (dependency analysis of the normal form)",
    "the nodes at index 0 are zero; those at index k depend on no forcing element of index >= k and on no state of index other than k-1",
    "true dependencies of every output node at generic and at the first concrete indices")
reg("C11", rules_step.c11, AI + " (loop analysis: trip count and index progress)",
    "the stepping loop of run() executes exactly n iterations for a forcing of length n, each advancing the index by one and writing every output at that index",
    "loops are unrolled for n = 1..4 and summarised for an arbitrary n; trip count, index increment and written indices are compared with the forcing's length")
reg("C12", rules_step.c12, AI + " (dependency analysis over histories)",
    "after set_drivers and reset no observation depends on any value of an earlier run, driver or conversion; two runs in a row give identical nodes",
    "several histories (runs, interrupted runs, other drivers, conversions, parameter changes) precede the reset; later observations are compared with those of a fresh model")
reg("C13", rules_step.c13, AI + " (exit-condition analysis)",
    "reset has a ModelStateError exit exactly under 'the forcing was never set or an element is NaN', and no other exceptional exit",
    "guards of every exit of reset, for no drivers, NaN-free and possibly-NaN drivers")
reg("C14", rules_step.c14, AI + " (exit-condition and shape analysis)",
    "set_drivers has no normal exit for a forcing with 0, 2 or 3 dimensions and only AssertionError exits; the forcing accepted is the one stored and used",
    "abstract forcing arrays of each rank; the value graph of the first steps is compared with the forcing given")
reg("C15", rules_conv.c15, AI + " (algebraic normal form of the conversion)",
    "the nodes returned under d1, d2, q1, q2, efficacy satisfy the defining equations of the modes (characteristic polynomial, partial fractions, d1 the fast root) and q1 + q2 = 1/lambda0; the returned mapping has exactly the constructor's keys and is accepted",
    "polynomial identities on the extracted conversion, with the square root of the discriminant as algebraic generator")
reg("C16", rules_conv.c16, AI + " (algebraic normal form of the composed conversions)",
    "the composition of the two conversions, in both orders, has the normal form of the identity",
    "abstract execution of the composed conversions; each parameter compared with its original")
reg("C17", rules_conv.c17, AI + " (exit-condition analysis)",
    "the conversion has a ValueError exit exactly under a != 0 (as a physical value, in an arbitrary unit) and a normal exit exactly under a = 0",
    "guards of the exits of get_impulse_response_parameters compared with the oracle's")
reg("C18", rules_conv.c18, AI + " (exit-condition analysis)",
    "the ImpulseResponseModel constructor has a ValueError exit exactly under d1 >= d2 as durations in arbitrary units; the conversion's d2 - d1 is positive in normal form",
    "guards of the constructor's exits, and the sign of the difference of the roots")
reg("C19", rules_run.c19, AI + " (alias and effect analysis)",
    "no in-place operation in any public call reaches an abstract object supplied by the caller or a view of one",
    "effects recorded for every public call, with the objects they may alias")
reg("C20", rules_run.c20, AI + " (loop-carried dependence and provenance analysis)",
    "the scenario loop has no loop-carried dependence into forcing, unit, time axis or results; the forcing of iteration i is row i of the selected driver without its missing values",
    "the loop over the scenarios is summarised; provenance of every pandas/scmdata value used in its body is classified as row i of the caller's table or not")
reg("C21", rules_run.c21, AI + " (extraction and evaluation of the branch conditions)",
    "the condition under which the step is one year, one month or NotImplementedError is raised is exactly the documented one, and reads only the time points of row i",
    "the branch conditions are extracted as boolean nodes over the row's time points and decided at all boundary axes (27..32 days, leap years, month ends, single points, mixed axes)")
reg("C22", rules_run.c22, AI + " (provenance analysis of selections)",
    "the loop runs over all rows of scenarios filtered by variable = driver_var and region = World, and ValueError is raised before any effect exactly when there are none",
    "filters on the path from the caller's table to the forcing, and the guards of the exits before the loop")
reg("C23", rules_run.c23, AI + " (provenance analysis of metadata)",
    "the metadata of every returned series contains climate_model = the model's name and one column per physical parameter named '<parameter> (<unit>)' whose node is the parameter's magnitude in exactly that unit",
    "metadata entries attached to the returned series, with unit conversion factors in normal form")
reg("C24", rules_run.c24, AI + " (provenance and completeness analysis)",
    "for every iteration the result collects the driver and each model output once, on the row's own non-missing time points, labelled with the variable name and the unit of the node it carries, with a run_idx injective in the iteration",
    "abstract collection of the series appended per iteration; each is compared with the required list")
reg("C25", rules_conv.c25, AI + " (normal form and exit analysis)",
    "convert_lambda_to_ecs returns the node -f2x/lambda_val and raises TypeError exactly for non-quantities",
    "abstract execution on arbitrary quantities and on each class of non-quantity")
reg("C26", rules_misc.c26, AI + " (effect and escape analysis)",
    "no public call reaches a nondeterministic or environment-reading library call, changes a class, module, default argument or another instance, and the value graph of an instance's results is the same with and without interleaved use of another instance",
    "effects and library calls of all public calls of both models and of package import; heap comparison of everything that exists after import; differential value graphs under interleavings")
reg("C27", rules_misc.c27, AI + " (exception-flow analysis with injected exits)",
    "for every function reached by a public call and each exception class, once the function has exited with it no normal exit of the public call is reachable; UnitError exits carry a DimensionalityError as cause; both error classes have ValueError among their ancestors",
    "an exceptional exit is added to each function in the abstract call graph in turn and followed through handlers, suppressors and finally blocks to the exits of the public call")
reg("C28", rules_step.c28, AI + " (algebraic normal form at a fixed point)",
    "substituting the documented equilibrium into the extracted step gives the identity, and zero heat uptake",
    "the extracted one-step transfer function with the equilibrium state substituted")
reg("C29", rules_params.c29, AI + " (global value numbering)",
    "the heat capacity nodes equal depth * 1000 kg/m^3 * 4181 J/K/kg, wherever they are used, and assigning them has no normal exit",
    "normal forms of the public properties and of the capacities implied by the dynamics and both conversions")
reg("C30", rules_params.c30, AI + " (interface and default-value analysis)",
    "each constructor argument initialises, reads back, assigns and is recorded under its own name only; the defaults are positive, of the right dimension and ordered",
    "abstract execution of the constructor with and without each argument, attribute reads, and the metadata of run_scenarios")
reg("C31", rules_misc.c31, "static analysis: interprocedural exception-escape and return-shape analysis over the syntax tree",
    "no exception escapes get_versions and every return of it is a mapping with a 'version' entry; the package's __version__ is that entry",
    "may-raise summaries of every function reached from get_versions, with failing subprocesses, files and unexpanded keywords as inputs")

reg("C32", rules_dyn.c32, AI + " (symbolic differentiation of the extracted steps in the time step, algebraic normal form)",
    "for a two-layer model with a = 0 and the impulse response model made from its converted parameters, and the other way round: from corresponding states, the nodes of the surface and lower temperature after a step are those before it at delta_t = 0 and have the same derivative with respect to delta_t there; the heat uptake nodes are equal; all start from zero",
    "both one-step transfer functions are extracted at any index, differentiated at delta_t = 0 and compared, modulo the parameters the package's own conversion returns, in normal form")
reg("C33", rules_dyn.c33, AI + " (sign analysis of the coefficients of the extracted step)",
    "below the stability limit and with a = 0, the node of each new temperature is a linear combination of the temperatures before it and the equilibrium response to the step's forcing, with weights that are non-negative and add up to one; with a > 0 it is increasing in all of them on non-negative temperatures and keeps equilibria; every factor of the heat uptake has a denominator of definite sign; after run() on 1..4 forcing values no entry is NaN or infinite and each is a linear response with weights in the same bounds; the loop of run() makes one such step per forcing value, for any length",
    "coefficients of the one-step transfer function at any index and of whole runs; parameters are substituted so that the stability limit makes them manifestly positive, and signs are decided by the signs of the polynomials' terms (exponentials of negative numbers as 1/(1+w), w > 0)")
reg("C34", rules_ref.c34, AI + " (constant folding of the extracted step over recorded trajectories)",
    "the default parameters extracted from the source equal those recorded with the reference outputs (other than the one each file varies); the step chosen for the recorded time axis is one year; every recorded value follows from the recorded values and forcing of the year before by the update extracted from the source at any index",
    "the reference files of the repository are read as certificates: each of their transitions is put into the one-step transfer function extracted from the source (no code of the package is run); the gates that choose the time step are evaluated on the recorded axis")
reg("C35", rules_dyn.c35, AI + " (contraction certificate on the extracted step)",
    "below the stability limit and with a = 0, the coefficients of the step do not depend on the index, keep the equilibrium, are non-negative, and the row sums of the square of their matrix are below one; with a > 0 the step is increasing and keeps equilibria; the heat uptake at the equilibrium is zero; the loop of run() makes one such step per forcing value, for any length",
    "matrix of the one-step transfer function at any index; signs of the entries, of one minus the row sums of its square, and of the derivatives for a > 0; the first steps compared with the general one")
