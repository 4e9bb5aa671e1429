#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

MAT = "src/materials/"
prop("C01", "Pairwise internal and contact interactions balance exactly",
 "Whenever a material model or contact model evaluates the interaction of two points, what it adds to one point times that point's volume is the exact opposite, component by component, of what it adds to the other point times the other point's volume. Internal and contact forces (and the pairwise fluid flow of the coupled model) therefore sum to zero over the body, whatever the geometry, volumes, damage, temperatures or material constants.",
 ["inputs", "histories", "configurations"], "all point positions, volumes, damage and history values, and every branch (elastic/plastic, plane/3-D, thermal, friction) of each pairwise force evaluation",
 "Unit tests evaluate a handful of two- and eight-point configurations with equal volumes, so a wrong volume factor or a dropped reaction in a rarely taken branch gives the same numbers.",
 [MAT+"elastic.cxx", MAT+"elastic_bond_based.cxx", MAT+"elastic_plastic.cxx", MAT+"elastic_plastic_hardening.cxx", MAT+"viscoelastic.cxx", MAT+"nonlocal_diffusion.cxx", MAT+"pals.cxx", MAT+"linear_lps_pv.cxx", MAT+"correspondence.cxx", MAT+"Peridigm_CorrespondenceMaterial.cpp", "src/contact/Peridigm_ShortRangeForceContactModel.cpp", "src/contact/Peridigm_UserDefinedTimeDependentShortRangeForceContactModel.cpp"],
 [("own point += f*V_neighbor, neighbor -= f*V_own inside the neighbor loop", MAT+"elastic.cxx: computeInternalForceLinearElastic"), ("normal and friction contact contributions to both points", "src/contact/Peridigm_ShortRangeForceContactModel.cpp: computeForce")],
 observe=["Force_Density", "Contact_Force_Density", "Flux_Divergence / fluid flow density outputs"])
prop("C02", "A fully broken bond transmits no force",
 "When the damage of a bond has reached one, the evaluation of that bond by a material that takes bond damage into account adds nothing to the force or partial stress of either of its two points. This holds for every deformation, temperature, history and material constant.",
 ["inputs", "histories"], "all states of a bond whose damage equals one, in every branch of every force evaluation",
 "Tests exercise damage in one or two end-to-end decks that cannot run here; the unit tests keep bond damage at zero, so a term that forgets the damage factor is invisible.",
 [MAT+"elastic.cxx", MAT+"elastic_bond_based.cxx", MAT+"elastic_plastic.cxx", MAT+"elastic_plastic_hardening.cxx", MAT+"viscoelastic.cxx", MAT+"nonlocal_diffusion.cxx", MAT+"pals.cxx", MAT+"linear_lps_pv.cxx", MAT+"correspondence.cxx"],
 [("(1 - bond damage) factor on the pair force", MAT+"elastic.cxx: computeInternalForceLinearElastic")],
 state=[("Bond_Damage", "0 intact .. 1 broken, one value per bond", "src/damage/*")], observe=["Force_Density"])
prop("C03", "Bond damage never heals",
 "For every damage model, the bond damage at the end of a step is never less than the bond damage at the beginning of the step, for every bond and every step sequence. In particular a bond that is not re-evaluated, or whose loading drops, keeps the damage it had.",
 ["histories", "inputs"], "all loading histories, over any number of steps and state swaps, and all bonds",
 "Healing shows only after the two alternating state buffers have been swapped twice with an unloading in between; the existing unit tests evaluate a single step.",
 ["src/damage/Peridigm_CriticalStretchDamageModel.cpp", "src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp", "src/damage/Peridigm_InterfaceAwareDamageModel.cpp", "src/damage/Peridigm_VonMisesStressDamageModel.cpp", "src/damage/Peridigm_JohnsonCookDamageModel.cpp", "src/damage/Peridigm_InitialDamageModel.cpp"],
 [("new damage starts from the previous step's damage", "src/damage/Peridigm_CriticalStretchDamageModel.cpp: computeDamage"), ("guarded store: only a larger value overwrites", "src/damage/Peridigm_CriticalStretchDamageModel.cpp: computeDamage")],
 state=[("Bond_Damage", "two-step bond field", "src/damage/*")], observe=["Bond_Damage", "Damage"])
prop("C04", "Rigid translation leaves internal and contact forces unchanged",
 "Adding one constant vector to the current positions of all points (or to the reference positions, or to all velocities) changes no force, flow, stress, strain, damage or stored-energy value that a material, damage, contact or derived-quantity evaluation produces, apart from positions, velocities and the momenta and kinetic energies formed from them, and quantities that refer to a place the user fixes in space. Results depend on positions and velocities only through differences of like components between points.",
 ["inputs"], "all configurations, all constant shifts of current positions, reference positions and velocities",
 "Tests compare against hand-computed values at one placement of the body; a component mix-up or an absolute coordinate that vanishes at that placement passes.",
 [MAT+"elastic.cxx", MAT+"correspondence.cxx", MAT+"material_utilities.cxx", "src/contact/Peridigm_ShortRangeForceContactModel.cpp", "src/damage/Peridigm_CriticalStretchDamageModel.cpp"],
 [("relative positions YP-Y formed component by component", MAT+"elastic.cxx: computeInternalForceLinearElastic")], observe=["Force_Density", "Bond_Damage"])
prop("C05", "Model evaluations are independent of the unit system",
 "Every material, damage, contact and derived-quantity evaluation is dimensionally homogeneous: only like quantities are added, compared or stored into one another, and only dimensionless values are passed to transcendental functions. Hence a run expressed in another consistent set of units of mass, length, time and temperature gives the same results, scaled; only constants that stand for zero (at most 1e-12) or infinity (at least 1e12) carry no unit.",
 ["inputs", "configurations"], "all consistent unit systems, all parameter values, all branches of the evaluations",
 "All test decks use one unit system and mostly unit values, for which a missing or extra factor of volume, horizon, time step or modulus is invisible.",
 [MAT+"elastic.cxx", MAT+"elastic_bond_based.cxx", MAT+"elastic_plastic.cxx", MAT+"viscoelastic.cxx", MAT+"nonlocal_diffusion.cxx", MAT+"correspondence.cxx", MAT+"pals.cxx", "src/contact/Peridigm_ShortRangeForceContactModel.cpp", "src/core/Peridigm_CriticalTimeStep.cpp"],
 [("constitutive formulas written with horizon, weighted volume and volume factors", MAT+"elastic.cxx")], observe=["all output fields"])
prop("C06", "Model data is accessed at the right point, component and bond",
 "During a model evaluation every access to a per-point quantity addresses an existing component of a valid point, and every access to a per-bond quantity addresses the entry of the bond being processed, for every neighborhood, including points with no neighbors and bonds that are skipped. No access falls outside the storage of the quantity.",
 ["inputs", "configurations"], "all neighborhoods (any number of points, any neighbor counts including zero), every quantity and every branch",
 "Out-of-step or out-of-range indices need a particular neighborhood shape (several points with unequal neighbor counts, skipped bonds); unit tests use two points with one bond each.",
 [MAT+"*.cxx", MAT+"*.cpp", "src/damage/*.cpp", "src/contact/*.cpp", "src/compute/*.cpp"],
 [("neighbor-list walk with bond pointers advanced once per neighbor", MAT+"elastic.cxx"), ("component stride 1/3/9 by quantity kind", "src/core/Peridigm_Field.hpp")], observe=["all fields"])
prop("C07", "Evaluation results do not depend on leftovers of earlier evaluations",
 "Every quantity that a model evaluation accumulates into is reset to zero, in full, earlier in the same evaluation (by the model or by the driver immediately before it), so evaluating twice in a row gives the same values as evaluating once. No evaluation starts from what a previous evaluation, load step or iteration left in its outputs, except for points and bonds explicitly marked as inactive or cached, whose values are kept by design.",
 ["histories", "configurations"], "all sequences of evaluations (time steps, nonlinear iterations, line-search and finite-difference probes)",
 "Each unit test performs a single evaluation on freshly zeroed storage, which is exactly the state in which a missing reset is harmless.",
 [MAT+"Peridigm_ElasticMaterial.cpp", MAT+"material_utilities.cxx", MAT+"Peridigm_CorrespondenceMaterial.cpp", "src/contact/Peridigm_ShortRangeForceContactModel.cpp", "src/core/Peridigm.cpp", "src/core/Peridigm_ModelEvaluator.cpp"],
 [("PutScalar(0.0) on outputs before the neighbor loop", MAT+"Peridigm_ElasticMaterial.cpp: computeForce"), ("scratch vectors zeroed before summing in block contributions", "src/core/Peridigm.cpp")], observe=["Force_Density", "Dilatation", "Weighted_Volume"])
prop("C08", "Model evaluations never modify previous-step state or their inputs",
 "A force, damage, contact, stored-energy or derived-quantity evaluation changes only quantities of the new step (or its own outputs): values of the previous step, reference positions, volumes, horizons, block ids and neighbor lists are left as they were. Rejecting or repeating a step therefore restarts from unchanged data.",
 ["histories", "fault_sequences"], "all evaluation sequences including repeated and rejected steps, all branches",
 "Unit tests look at the outputs of one evaluation, not at whether its inputs survived; the damage appears only when a step is repeated (nonlinear iterations, step cut-back).",
 [MAT+"*.cpp", MAT+"*.cxx", "src/damage/*.cpp", "src/contact/*.cpp", "src/compute/*.cpp"],
 [("history read at step N, written at step N+1", MAT+"Peridigm_ViscoelasticMaterial.cpp: computeForce")], observe=["two-step fields"])
prop("C09", "Every quantity a model uses is one it has requested, at a step that exists",
 "Every per-point, per-bond or global quantity that a model or derived-quantity evaluation reads or writes is among the quantities that model has announced to the data store whenever that access can happen, and is addressed at a time level that the quantity has. No combination of input options makes an evaluation reach for storage that was never allocated.",
 ["configurations", "inputs"], "all input decks: every model alone or combined with any others, every optional feature on or off",
 "Tests combine models whose announced quantities happen to cover each other; a missing announcement shows only when that model runs without its usual companions.",
 [MAT+"*.cpp", "src/damage/*.cpp", "src/contact/*.cpp", "src/compute/*.cpp", "src/core/Peridigm_BlockBase.cpp", "src/core/Peridigm_DataManager.cpp"],
 [("field id list filled in the constructor and returned to the block", MAT+"Peridigm_ElasticMaterial.cpp: constructor, FieldIds"), ("two-step vs constant time levels", "src/core/Peridigm_DataManager.cpp: getData")], observe=["run-time failure or wild pointer"])
prop("C10", "A quantity name means the same thing everywhere",
 "Any two places in the program that register or request a quantity under the same name describe it with the same kind (point, element, bond or global), number of components and time levels, so that models, damage, contact, derived quantities and output can be combined freely. Every lookup by name alone refers to a quantity that some part of the program registers.",
 ["configurations", "programs"], "all pairs of model classes and all combinations of them in one input deck",
 "The conflict is detected only at run time and only when the two conflicting classes are used together; the test decks cover few pairs.",
 ["src/core/Peridigm_Field.cpp", "src/core/Peridigm.cpp", MAT+"*.cpp", "src/damage/*.cpp", "src/contact/*.cpp", "src/compute/*.cpp", "src/io/Peridigm_OutputManager_ExodusII.cpp"],
 [("central registry keyed by name", "src/core/Peridigm_Field.cpp: getFieldId")], observe=["start-up error, output labels"])
prop("C11", "User-defined expressions are pure functions of their documented inputs",
 "The value obtained from a user-supplied expression (boundary condition, horizon, influence function, contact friction, critical stretch) depends only on the coordinates, time and other inputs documented for it, set afresh for that evaluation, and never on the outcome of another evaluation. A failure to set an input, compile or run the expression is reported as an error, never replaced by a value. A number given in place of an expression is used with all its digits.",
 ["inputs", "histories", "fault_sequences"], "all expression texts (including those that do not assign a result on every path) and all evaluation orders",
 "Tests only use expressions that assign the result unconditionally, which hides stale results and swallowed failures.",
 ["src/core/Peridigm_BoundaryCondition.cpp", "src/core/Peridigm_HorizonManager.cpp", "src/core/Peridigm_InfluenceFunction.cpp", "src/contact/Peridigm_UserDefinedTimeDependentShortRangeForceContactModel.cpp", "src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp"],
 [("run-time-compiled function: fill inputs, fill result with zero, execute, read result, test success", "src/core/Peridigm_BoundaryCondition.cpp: evaluateParser")], observe=["prescribed values, horizons, friction, critical stretch"])
prop("C12", "Failures of mesh and results database operations are never lost",
 "Whenever an operation on a mesh, results or interface database file (open, create, read, write, flush, close) fails, the failure is reported before the result of the operation is used or the run continues as if it had succeeded. No status returned by such an operation is discarded.",
 ["fault_sequences", "inputs"], "every database call and every failure it can report (missing file, full disk, truncated or foreign file)",
 "No test makes a database call fail; on healthy files a discarded status changes nothing.",
 ["src/io/Peridigm_OutputManager_ExodusII.cpp", "src/core/Peridigm_DataLoader.cpp", "src/core/Peridigm_InterfaceData.cpp", "src/io/discretization/Peridigm_GenesisToPolygons.cpp", "src/mesh_converter/Peridigm_MeshConverter_Main.cpp"],
 [("retval tested and passed to the error reporter after each call", "src/io/Peridigm_OutputManager_ExodusII.cpp: reportExodusError")], observe=["error messages, exceptions"])
prop("C13", "Collective operations are reached by every process",
 "On every execution path that ends normally, all processes of a parallel run reach the same collective operations: no reduction, broadcast, distributed-map construction, import, export or repartitioning is performed only by processes selected by rank or by how much data they hold locally. A parallel run therefore never hangs waiting for a process that skipped a collective step.",
 ["schedules", "configurations", "inputs"], "all numbers of processes and all distributions of points, blocks and node sets over them, including processes with no points",
 "All tests run on one process, where every collective completes immediately.",
 ["src/core/Peridigm.cpp", "src/core/Peridigm_ContactManager.cpp", "src/core/Peridigm_DataLoader.cpp", "src/compute/*.cpp", "src/io/Peridigm_ProximitySearch.cpp", "src/io/discretization/*.cpp", "src/io/pdneigh/*.cxx", "src/io/mesh_input/quick_grid/QuickGrid.cxx"],
 [("collective calls placed outside rank- and size-dependent branches", "src/compute/*.cpp")], observe=["hang"])
prop("C14", "Global minimum, maximum and sum quantities combine the right local values",
 "Every quantity reduced over the processes (time step, radii, horizons, energies, momenta, block and node-set summaries, counts) is combined with the same operation that formed the local contribution, and the local contribution of a process starts from the neutral value of that operation. The reported global value therefore equals the one a single process holding all data would compute, also when values are all negative or a process holds no data.",
 ["configurations", "inputs"], "all distributions of data over processes (including empty ones) and all sign patterns of the data",
 "Single-process tests with positive data cannot distinguish minimum from maximum reductions of one contribution, nor a neutral start value from zero.",
 ["src/core/Peridigm.cpp", "src/core/Peridigm_CriticalTimeStep.cpp", "src/core/Peridigm_BlockBase.cpp", "src/compute/*.cpp", "src/io/discretization/*.cpp", "src/core/Peridigm_ContactManager.cpp"],
 [("local loop followed by MinAll/MaxAll/SumAll", "src/io/discretization/Peridigm_TextFileDiscretization.cpp")], observe=["critical time step, element radius, global outputs"])
prop("C15", "A restart restores exactly what was saved",
 "Every piece of simulation state written to a restart set is read back, from the same place, into the same quantity, and every quantity read back was written; two different quantities never share one file. This holds for all vectors of the solver, both time levels of every block and the simulation time, each in full and under the same conditions; the time keeps all its digits.",
 ["crash_points", "histories"], "all restart points and all sets of model quantities",
 "No test writes and then resumes from a restart set.",
 ["src/core/Peridigm.cpp", "src/core/Peridigm_State.cpp", "src/core/Peridigm_DataManager.cpp", "src/core/Peridigm_BlockBase.cpp"],
 [("writeRestart / readRestart and the per-state write/read pairs", "src/core/Peridigm.cpp, src/core/Peridigm_State.cpp")], observe=["restart files"])
prop("C16", "Names and paths of any length cannot overrun text buffers",
 "No file name, directory path, block, node-set, variable or title text, however long, is copied or formatted into a fixed-size buffer without a bound that fits that buffer including its terminator. Long names are truncated, rejected or stored in full, never written past the end.",
 ["inputs", "configurations"], "all lengths of user-supplied names and of the working directory path",
 "Tests use short names in short directories.",
 ["src/core/Peridigm.cpp", "src/core/Peridigm_State.cpp", "src/core/Peridigm_DataLoader.cpp", "src/core/Peridigm_InterfaceData.cpp", "src/io/Peridigm_OutputManager_ExodusII.cpp", "src/mesh_converter/Peridigm_MeshConverter_Main.cpp"],
 [("fixed-size char arrays used with the C string and database interfaces", "src/io/Peridigm_OutputManager_ExodusII.cpp")], observe=["memory corruption, truncated names"])
prop("C17", "Equivalent elastic constants describe the same material",
 "Whichever admissible pair of elastic constants the user supplies (bulk, shear, Young's modulus, Poisson's ratio), the bulk and shear moduli used by the models are those of the same isotropic material, in three dimensions and in the plane variants. Supplying too few or too many constants is rejected.",
 ["inputs", "configurations"], "all admissible values of every pair of constants",
 "Tests supply one pair of constants with one set of values.",
 [MAT+"Peridigm_Material.cpp"],
 [("conversion formulas per supplied pair", MAT+"Peridigm_Material.cpp: calculateBulkModulus, calculateShearModulus")], observe=["moduli used in all materials"])
prop("C18", "Prescribed degrees of freedom are treated consistently by residual and tangent",
 "A degree of freedom with a prescribed value is removed from the residual, from the rows and columns of the tangent and from the solution increment under exactly the same conditions (same kinds of boundary condition, same coordinate direction, same unknown). No free degree of freedom is constrained and no prescribed one is left free.",
 ["configurations", "inputs"], "all kinds of boundary condition, all directions, all combinations of active unknowns",
 "The end-to-end implicit decks cannot run here and use displacement conditions in one direction only.",
 ["src/core/Peridigm_BoundaryAndInitialConditionManager.cpp", "src/core/Peridigm.cpp"],
 [("three sibling application routines", "src/core/Peridigm_BoundaryAndInitialConditionManager.cpp")], observe=["residual, tangent, increment"])
prop("C19", "A model name in the input selects the model of that name or is rejected",
 "Every model name accepted in an input deck (material, damage, contact, discretization, influence function) creates the one model that goes by that name, different names never select the same model, and any unknown name ends in an error instead of a default or missing model (an influence function that is not predefined is taken as a user's expression). Wherever the program treats a model specially by its name, it tests for a name that a model reports.",
 ["inputs", "configurations"], "all names in input decks",
 "Tests construct a few models directly and never pass an unknown name.",
 [MAT+"Peridigm_MaterialFactory.cpp", "src/damage/Peridigm_DamageModelFactory.cpp", "src/contact/Peridigm_ContactModelFactory.cpp", "src/io/discretization/Peridigm_DiscretizationFactory.cpp", "src/core/Peridigm_InfluenceFunction.hpp"],
 [("name-to-class chain ending in an error", MAT+"Peridigm_MaterialFactory.cpp: create")], observe=["created model, error"])
prop("C20", "Probing the tangent leaves the simulation state unperturbed",
 "Computing a tangent by finite differences restores every position, velocity and other unknown that it perturbs to the value it had before, on every path, so that the state after the tangent evaluation equals the state before it. Each probe starts from the unperturbed state, and each tangent entry is the difference of two probes divided by the distance between them, entered at the row and column of the unknowns involved. Entries that no probe determines are zero.",
 ["histories", "inputs", "configurations"], "all states, all difference schemes (forward, central), all unknowns, both full and block-diagonal tangents",
 "Tests compare tangent entries, not the state afterwards, and a left-over perturbation of relative size 1e-6 is below their tolerance.",
 [MAT+"Peridigm_Material.cpp"],
 [("save, perturb, evaluate, restore for each unknown", MAT+"Peridigm_Material.cpp: computeFiniteDifferenceJacobian")], observe=["coordinates after tangent evaluation"])
prop("C22", "Every model evaluation sees the current state of the simulation",
 "Whenever the solver changes positions, displacements, velocities, temperatures, concentrations or pressures and then evaluates the models (internal force, contact, tangent), the changed values have been handed to the models in between, on every path and for every block, each into the quantity it belongs to and at the new time level. Forces are never computed from a state other than the one the solver holds.",
 ["histories", "configurations"], "all paths through every solver (explicit, quasi-static, Newton iterations, line search, implicit, diffusion), all optional physics and all numbers of steps",
 "Solvers are only exercised by end-to-end decks that cannot run here; a missing or misplaced hand-over changes results only once the state differs between two evaluations.",
 ["src/core/Peridigm.cpp", "src/core/Peridigm_BlockBase.cpp", "src/core/Peridigm_ContactManager.cpp"],
 [("vectors copied into the blocks before each evaluation", "src/core/Peridigm.cpp: executeExplicit, executeQuasiStatic, executeImplicit, evaluateNOX, computeQuasiStaticResidual")], observe=["forces after each evaluation"])
prop("C23", "Output and step closing belong to the step just solved",
 "Whatever the solver holds when it writes output has been handed to the blocks since its last change, so the written state is the solved one, labelled with the time for which the boundary conditions of that step were applied. Each completed step exchanges the old and new state of every block exactly once, after its output, and nothing is evaluated in between that exchange and the next step.",
 ["histories", "configurations"], "all solvers, any number of steps, all optional physics",
 "A state written before its last update, or a step closed twice or not at all, shows only over several steps of a full run; no unit test runs the solvers.",
 ["src/core/Peridigm.cpp", "src/core/Peridigm_DataManager.hpp"],
 [("synchronise, write, swap at the end of every step loop", "src/core/Peridigm.cpp")], observe=["output file, state at the next step"])
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
