#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": w} for n, w in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

FEM = "metku/framefem/framefem.py"; BEAM = "metku/framefem/elements/ebbeam.py"; ROD = "metku/framefem/elements/rod.py"
RAAMI = "metku/raami/raami.py"; MEM = "metku/raami/frame_member.py"; LOADS = "metku/raami/frame_loads.py"
NODE = "metku/raami/frame_node.py"; SM = "metku/structures/steel/steel_member.py"; SOPT = "metku/optimization/structopt.py"
VARS = "metku/optimization/variables.py"; CONS = "metku/optimization/constraints.py"; OBJ = "metku/optimization/objective.py"
SOLV = "metku/optimization/solvers/"
NOTEST = "The runnable tests exercise only single cross-section and steel-member formulas; none of them builds a finite element model, "

p("F01", "Analysis of an edited model equals analysis of that model built from scratch",
  "After any sequence of edits to a plane structural model (adding or removing nodes, elements, loads, releases and supports, replacing sections, changing dimensions, moving nodes) mixed with earlier analyses, the next analysis reports the same displacements, support-consistent zero movements and element forces as the same final model built fresh and analysed once. Nothing computed for an earlier state of the model may survive into later results.",
  ["histories", "inputs"], "all interleavings of model edits and analyses over small plane models of beams and bars, in every load case",
  NOTEST + "let alone edits one between analyses; the result after N edits depends on caches and leftovers in elements, nodes and the model, so it has to hold for every history.",
  [FEM, BEAM, ROD], [("per-element stiffness cache", BEAM + " EBBeam.local_stiffness_matrix"), ("stored element load vectors", BEAM + " EBBeam.equivalent_nodal_loads"), ("dof numbering", FEM + " FrameFEM.nodal_dofs/linear_statics")],
  [("nodal displacements per load case", "results of the last analysis of each case"), ("element end forces per load case", "results of the last analysis of each case")],
  ["node displacement vectors and element end forces after each analysis"])

p("F02", "Every completed static analysis is in equilibrium and obeys the stiffness laws",
  "Whenever a linear static analysis of a plane model completes, the reported displacements and element end forces solve the linear elastic problem for the current geometry, sections, releases, supports and the loads of that case: every free joint is in equilibrium, supported movements are zero, released end moments are zero, and several loads on one element or joint all count with their full factors. Both ways of treating supports that the library offers give this same answer.",
  ["inputs", "histories", "configurations"], "all generated plane models and load sets (concentrated, uniform and trapezoidal loads in local or global directions, several per element, with load factors), reached through arbitrary edit histories",
  NOTEST + "and equilibrium must hold for every geometry, load combination and release pattern reached by a session, not for a sampled beam.",
  [FEM, BEAM, ROD], [("assembly and solution", FEM + " linear_statics"), ("equivalent nodal loads", BEAM + " equivalent_nodal_loads"), ("end forces", BEAM + " internal_forces")],
  None, ["node displacement vectors and element end forces after each analysis"])

p("F03", "Load cases are independent of each other and of the order they are analysed in",
  "The results of a load case depend only on the model and on the loads of that case: analysing other cases before, after or together with it, repeating an analysis, adding further cases, or analysing all cases in one call gives each case the same displacements and forces. Analysing one case leaves the stored results of every other case untouched.",
  ["histories", "schedules"], "all orders, groupings and repetitions of load-case analyses on a model, including cases added between analyses",
  NOTEST + "or uses more than one load case.",
  [FEM, RAAMI, BEAM], [("multi-case solve", FEM + " linear_statics"), ("analyse all cases", RAAMI + " structural_analysis"), ("per-case result storage", FEM + " add_loadcase")],
  None, ["per-case node and element results", "per-case member force lists"])

p("F04", "Repeating an analysis of an unchanged model gives the same answer",
  "Linear static analysis and elastic buckling analysis of an unchanged model can be repeated any number of times, in any order and whatever random numbers the process draws, and report the same displacements, forces, critical load factors and mode shapes (up to sign and scale). Reading results, drawing no conclusions from hidden randomness, and running a buckling analysis leave the static results of the model intact.",
  ["histories", "configurations", "schedules"], "all sequences of repeated static and buckling analyses, under any state of the process's entropy sources",
  NOTEST + "and a dependence on hidden entropy or on the previous run only shows over repeated runs with controlled randomness.",
  [FEM], [("buckling eigenproblem", FEM + " linear_buckling"), ("mode distribution to nodes", FEM + " linear_buckling")],
  None, ["load factors, mode shapes, static results"])

p("F05", "A failed or interrupted analysis does not corrupt later results",
  "If an analysis is interrupted by the user, runs out of memory or fails because the structure is unstable, at any point during its execution, the error reaches the caller and the model remains usable: after the cause is removed, repeating the analysis or editing and re-analysing gives exactly what a model that never saw the failure would give.",
  ["crash_points", "fault_sequences", "histories"], "every point inside model generation, analysis and member design at which an exception can be raised, followed by any continuation",
  "No existing test injects a failure; the property ranges over every line at which execution can be cut short.",
  [FEM, RAAMI, MEM], [("analysis", FEM + " linear_statics"), ("model generation", RAAMI + " generate_fem"), ("member design", MEM + " SteelFrameMember.design")],
  None, ["results after the first undisturbed analysis following a failure"])

p("F06", "Second-order analysis follows beam-column theory after any history",
  "For a plane frame of beam elements below its critical load, a second-order elastic analysis of a load case (with either way of treating supports) reports the displacements and end forces of beam-column theory: members compressed in the first-order analysis are softened by that axial force, members in tension keep their first-order stiffness, end releases and uniform transverse loads included, down to vanishing axial force. The answer depends only on the current model, not on earlier edits, analyses or interrupted attempts, supported degrees of freedom do not move, and the first-order results of every analysed case stay valid.",
  ["histories", "inputs", "crash_points"], "all sequences of edits, first-order, second-order and interrupted analyses of small plane frames with end releases",
  NOTEST + "and no test performs a second-order analysis of anything.",
  [FEM, BEAM], [("second-order analysis", FEM + " second_order_analysis"), ("stability functions", BEAM + " local_second_order_stiffness_matrix"), ("second-order load vector", BEAM + " equivalent_nodal_loads")],
  None, ["second-order and first-order displacements and end forces"])

F2D = "metku/frame2d/frame2d.py"; SRB = "metku/framefem/elements/eb_semi_rigid_beam.py"
p("F07", "Frame2D frames with semi-rigid joints obey statics whatever was done before",
  "A frame put together in Frame2D from steel columns, beams with rigid, semi-rigid or hinged ends, plain members with hinges and two-force braces is one connected structure: however its members, supports and loads were ordered when added and whatever the loads are called, the generated model has a joint wherever members meet or a support or point load stands, and every analysed load case gives the displacements, end forces, member extremes (NEd, VEd, MEd), weight and forces handed to member design of linear statics for the current sections and joint stiffnesses, with the full factors of its loads. Changing profiles or joint stiffnesses, analysing other cases, or an analysis that fails or is interrupted leaves nothing behind in the next one.",
  ["histories", "inputs", "crash_points"], "all small orthogonal and gable frames and continuous beams, all orders of adding their parts, all sequences of profile and stiffness changes and complete or interrupted analyses",
  NOTEST + "and no test builds a Frame2D.",
  [F2D, SRB, FEM], [("assembly", F2D + " Frame2D.add/add_member/add_support/add_pointload/add_lineload/generate"), ("nodes of members", F2D + " FrameMember.calc_nodal_coordinates/add_node_coord/add_nodes"), ("end springs", SRB + " EBSemiRigidBeam"), ("results", F2D + " Frame2D.calculate, FrameMember.NEd/VEd/MEd/assign_forces")],
  None, ["node displacements, element end forces, member extremes, design forces, utilisation"])

p("M01", "Frame results always reflect the frame as it is currently defined",
  "For a frame built of nodes, steel members, supports and loads, after any sequence of edits (moving nodes, changing member sections or dimensions, hinges, adding members, supports or loads, adding or removing self-weight) and analyses, regenerating and analysing gives the member force diagrams, joint displacements and weight of an identical frame defined from scratch, and these agree with structural mechanics. Edits the library documents as taking effect on the existing calculation model (section changes, node moves) take effect without regenerating.",
  ["histories", "inputs"], "all interleavings of frame edits, regeneration and analyses for small plane frames",
  NOTEST + "and the frame layer has no tests at all; stale calculation models, lost loads and half-propagated edits only show for particular edit orders.",
  [RAAMI, MEM, NODE, LOADS], [("calculation model generation", RAAMI + " generate_fem"), ("section propagation", MEM + " FrameMember.cross_section"), ("node moves", NODE + " FrameNode.x/y")],
  None, ["member force lists, node displacements, frame weight"])

p("M02", "Load combinations are the factored sum of their cases, however often rebuilt",
  "A load combination always contributes exactly the loads of its load cases, each multiplied by its own scale and the combination factor for its type (leading or accompanying), and its analysis results equal the factored sum of the results of those cases. Rebuilding a combination, adding loads to a case and rebuilding, adding more combinations, or switching self-weight on and off any number of times neither loses, duplicates nor alters any other load.",
  ["histories", "inputs"], "all sequences of adding loads and cases, creating and rebuilding combinations, and switching self-weight on and off",
  NOTEST + "and whether a load is lost or doubled depends on the order of additions, rebuilds and names.",
  [LOADS, RAAMI, MEM], [("combination", LOADS + " LoadCombination.combine_loads"), ("factoring", LOADS + " Load.factored"), ("registration of loads", RAAMI + " add_pointload/add_lineload/add_loadcase"), ("self weight", RAAMI + " add_self_weight/remove_self_weight")],
  None, ["loads of the frame per load case, results of combination analyses"])

p("D01", "Utilisation ratios reflect the current section, length and forces",
  "A member's reported utilisation for a load case is the one a fresh design check gives for the member's current section, geometry and the current forces of that case; it does not depend on which other members, load cases or trial sections were checked before, even when members share one section object. It is the largest of the member's section and stability ratios, taken with the extremes of the forces along the member. Acceptance flags agree with the reported utilisation of the check that set them.",
  ["histories", "schedules"], "all orders of analyses, section changes and design checks over members that may share section objects",
  "The member tests check one member once; section objects carry the forces of the last check, so order dependence only shows in longer sessions.",
  [MEM, SM, "metku/sections/steel/steel_section.py"], [("member design", MEM + " SteelFrameMember.design"), ("section checks", SM + " check_sections/check_beamcolumn"), ("section resistance", "metku/sections/steel/steel_section.py")],
  None, ["utilisation ratios per member and load case"])

p("D02", "Automatic member sizing ends in a consistent design that passes its checks",
  "When automatic sizing finishes before its iteration limit, re-analysing the frame with the chosen sections shows every sized member within its allowed utilisation in every load case wherever the catalogue contains such a section, no earlier section of the family asked for would have done with the same forces, trusses get the steel grades, section classes and chord widths asked for, members of a group or symmetry pair carry the same section, and the calculation model, design data and reported sections agree. When the limit is reached, the last choice is adequate in the same sense for the forces of the last analysis. If sizing is interrupted anywhere, the frame is still consistent and sizing can be run again to the same kind of result.",
  ["histories", "crash_points", "inputs"], "all small frames, load sets, groupings and symmetric pairs, and all points at which a sizing run can be interrupted",
  "Sizing couples analysis and design over several iterations and is not tested; the outcome depends on leftovers from earlier trial sections.",
  [RAAMI, MEM], [("sizing loop", RAAMI + " optimize_members"), ("catalogue search", MEM + " SteelFrameMember.optimum_design / MemberGroup.optimum_design"), ("section propagation", MEM + " FrameMember.cross_section")],
  None, ["sections of members, elements and design objects; utilisation after re-analysis"])

p("D03", "Frame2D sizing ends with sections that pass every load case",
  "When Frame2D.optimize_members ends before its limit of ten rounds, the frame built afresh with the chosen sections and analysed case by case shows every member within its resistance in every load case, unless no section of the family would be, and no earlier section of the family would have passed under the same forces. When the limit is reached, the last choice is the first adequate section for the forces of the last analysis. The sections belong to the family asked for (the member's own with 'CURRENT'), the elements of a member carry its section, and the utilisations it reports are those of the chosen sections, whatever earlier sizing, changes or interrupted attempts preceded.",
  ["histories", "inputs", "crash_points"], "all small Frame2D frames and load sets, families of I, RHS and SHS sections, and all points at which a sizing run can be interrupted",
  "Sizing couples analysis and design over several rounds, cases and trial sections and is not tested.",
  [F2D, SM], [("sizing loop", F2D + " Frame2D.optimize_members"), ("catalogue search", F2D + " FrameMember.optimum_design"), ("forces of a case", F2D + " FrameMember.assign_forces/design")],
  None, ["profiles of members and elements; utilisation per load case after sizing"])

p("C01", "Section properties always follow the current dimensions",
  "For hollow sections (RHS, SHS) and welded I-sections, whose dimensions can be changed in place, and for rolled I-sections, the area, second moments, moduli, classes, buckling curves and resistances after any sequence of dimension, steel grade and force changes equal those of a new section created with the same data. Reading a property never changes any other property or any other section, the order of reading does not matter, and a change that is interrupted can be repeated and then gives the same values.",
  ["histories", "crash_points"], "all sequences of dimension, material and force assignments and property reads on one section object",
  "The section tests construct a section and read it once; derived values that are stored rather than recomputed go stale only after a change.",
  ["metku/sections/steel/wi.py", "metku/sections/steel/RHS.py", "metku/sections/steel/ISection.py", "metku/sections/steel/steel_section.py"],
  [("welded I-section dimensions", "metku/sections/steel/wi.py"), ("hollow section dimensions", "metku/sections/steel/RHS.py"), ("material and force state", "metku/sections/steel/steel_section.py")],
  None, ["geometric and resistance properties of a section"])

p("V01", "The model always carries the design that was last substituted",
  "After a design vector is substituted into an optimisation problem, every free variable and every model attribute it controls has the given value (scaled, and limited to the variable's bounds), locked variables and their model attributes keep their values, and variables not mentioned are unaffected. This holds for every mix of locked and free, continuous, integer, index and discrete variables and after any earlier substitutions, locks, unlocks or failed substitutions.",
  ["histories", "inputs", "configurations"], "all sequences of lock, unlock, substitute and evaluate operations on problems with mixed variable types and shared targets",
  "No test touches optimisation; misassignment needs particular lock patterns and orders.",
  [SOPT, VARS, OBJ], [("substitution", SOPT + " substitute_variables"), ("variable to model", VARS + " Variable.substitute"), ("fixed values in objective", OBJ + " ObjectiveFunction.__call__")],
  None, ["variable values and controlled attributes after each operation"])

p("V02", "Constraints and objectives are never evaluated on stale structural results",
  "Whenever a constraint or objective that needs structural analysis is evaluated at a design, its value is computed from an analysis of exactly that design, regardless of the order in which designs and constraints are evaluated and of analyses that failed or were interrupted in between. A design whose results are still valid need not be analysed again, but a failed analysis never counts as done.",
  ["histories", "fault_sequences", "schedules"], "all sequences of evaluations, whole and single-variable substitutions, locks and explicit analyses, with analyses that may fail at any of them",
  "No test evaluates a constraint that needs an analysis; stale reuse depends on the order of evaluations and on failures.",
  [CONS, OBJ, SOPT], [("analysis on demand", CONS + " NonLinearConstraint.__call__"), ("analysis on demand", OBJ + " ObjectiveFunction.__call__"), ("analysis bookkeeping", SOPT + " substitute_variables/fea")],
  [("analysis-done flags", "whether structural results are valid for the current design")], ["values returned by constraints and objective"])

p("V03", "Estimating sensitivities and neighbours leaves the design point unchanged",
  "Asking a problem for gradients, linearised or separable approximations, constraint values, feasibility, neighbouring discrete designs or a penalty value leaves variable values and the controlled model at the design asked about, and approximations agree with the functions at that design in value and slope. Constraint values keep their sense: a design reported feasible violates no constraint of any type beyond tolerance, and penalty terms never reward a violation.",
  ["histories", "inputs", "crash_points"], "all designs, problem mixes of linear and nonlinear constraints of every sense, and sequences of such queries",
  "No test touches these queries; they work by temporarily perturbing the shared design.",
  [SOPT, CONS, "metku/optimization/opt_functions.py"], [("linearisation", SOPT + " linearize"), ("approximations", SOPT + " conlin/mma"), ("feasibility", SOPT + " feasible"), ("penalties", SOPT + " exact_penalty_fun/exterior_penalty_fun")],
  None, ["variable values, model attributes, returned approximations and penalties"])

p("S01", "An optimiser returns the best feasible design it evaluated, with its true value",
  "The design returned by a solver lies within the variable bounds, and if any iterate the solver accepted was feasible the returned one is feasible, has an objective value equal to the objective function at that design, and is no worse than every feasible iterate of the run. Discrete searches return only allowed values. This holds for every random stream, starting point and number of iterations.",
  ["schedules", "inputs", "configurations"], "all random streams, iteration limits, starting points and small problems with known function values, for gradient-based, sequential-programming, population and tree-search solvers",
  "No test runs a solver; whether the incumbent is kept correctly depends on the whole random trajectory.",
  [SOLV + "optsolver.py", SOLV + "ga.py", SOLV + "pso.py", SOLV + "vns.py", SOLV + "bnb.py", SOLV + "slp.py", SOLV + "mislp.py"],
  [("incumbent update", SOLV + "optsolver.py solve"), ("population incumbents", SOLV + "ga.py, pso.py"), ("tree search incumbent", SOLV + "bnb.py")],
  None, ["returned design and value against the recorded evaluation history"])

p("S02", "Solving leaves the problem's bounds and locks as the user defined them",
  "When a solver returns, reaches a limit, or is interrupted by the user or by an error in the structural analysis at any point (a second interruption striking the clean-up itself excepted), the problem's variable bounds, lock states, variable list and constraint list are those the user defined, so that solving again or with another solver works on the same problem.",
  ["crash_points", "fault_sequences", "schedules"], "all solvers that tighten bounds or lock variables while searching, and all points at which a run can stop",
  "No test runs or interrupts a solver.",
  [SOLV + "bnb.py", SOLV + "vns.py", SOLV + "ga.py", SOLV + "mma.py", SOPT], [("branching bounds", SOLV + "bnb.py"), ("neighbourhood bounds", SOLV + "vns.py")],
  None, ["bounds, locks, variables and constraints of the problem before and after"])

p("S03", "A seeded search is reproducible and independent of earlier runs and of the clock",
  "With the same problem, starting point, settings and random stream, a new solver object produces the same sequence of designs and the same result, whatever other solves ran before it in the process, whatever the hash seed, and however fast the clock runs, as long as no time limit is reached. Two solver objects share no search state.",
  ["schedules", "histories", "configurations"], "all random streams, clock speeds, hash seeds and sequences of earlier solves in one process",
  "No test runs a solver twice; carry-over between runs and hidden entropy only show when runs are compared.",
  [SOLV + "optsolver.py", SOLV + "ga.py", SOLV + "pso.py", SOLV + "vns.py", SOLV + "aco.py", SOLV + "bnb.py"],
  [("solver state", SOLV + "optsolver.py OptSolver.__init__"), ("registered operators", SOLV + "ga.py"), ("swarm initialisation", SOLV + "pso.py")],
  None, ["sequence of evaluated designs and result"])

p("S04", "Solvers stop within their iteration and time limits with a usable answer",
  "A solver given an iteration limit performs no more iterations than that, and a solver given a time limit starts no new iteration once that much time has passed, whatever the speed of individual analyses and however the clock jumps forward. In either case it returns its best design so far in the same form as a normal finish.",
  ["schedules", "configurations"], "all iteration and time limits, evaluation durations and clock behaviours (slow steps, stalls, forward jumps)",
  "No test controls the clock; whether the limit is honoured depends on when time passes.",
  [SOLV + "optsolver.py", SOLV + "vns.py", SOLV + "bnb.py", SOLV + "ga.py", SOLV + "pso.py"], [("time limit", SOLV + "optsolver.py solve"), ("time limit", SOLV + "vns.py DiscreteVNS.solve"), ("iteration limit", SOLV + "*.py")],
  None, ["iterations started against simulated time; returned design"])

p("X01", "An export either writes the complete file or reports the failure",
  "Exporting a raami frame or roof truss to an analysis-program input file (Robot, Abaqus), or printing its member utilisation report to a file, either leaves a complete file that describes the current model, or raises an error to the caller; a full disk, a failing or short write, or an interruption never yields a silently incomplete file or an unclosed handle. Exporting again once the fault is gone replaces any partial file with the complete one.",
  ["fault_sequences", "crash_points", "histories"], "all placements of disk faults (full disk, failing or short writes, failing open or directory creation) and interruptions during an export, followed by a retry",
  "No test exports anything, and real disk faults cannot be produced by unit tests.",
  [RAAMI, "metku/raami/exports.py", "metku/sections/steel/RHS.py", "metku/raami/frame_member.py"], [("export", RAAMI + " to_robot"), ("export", RAAMI + " to_abaqus"), ("report file", RAAMI + " print_member_utilization"), ("section export", "metku/sections/steel/RHS.py abaqus")],
  None, ["bytes on the simulated disk, exceptions, open handles"])

p("X02", "Exporting never changes the model, and the file depends only on the model",
  "Exporting a raami frame or roof truss (Robot, Abaqus) or writing its utilisation report leaves the model's geometry, loads, sections, calculation results and the export options object unchanged, and the exported content is a function of the current model and the options given alone: repeated exports, exports after undone edits and exports from an identically defined model are identical apart from stated time stamps. The written node, member, section, material, release, support, eccentricity-constraint and monitored-node records agree with the model.",
  ["histories", "configurations"], "all sequences of edits, analyses, failed exports and exports of small frames, at any time of day",
  "No test exports anything; leakage from earlier exports or shared option objects needs repeated exports.",
  [RAAMI, "metku/raami/exports.py"], [("export", RAAMI + " to_robot"), ("export", RAAMI + " to_abaqus"), ("export options", "metku/raami/exports.py AbaqusOptions")],
  None, ["bytes on the simulated disk; frame state before and after"])

p("X03", "Appended result tables keep their header and every earlier row",
  "Saving optimisation results (to_csv) repeatedly to one table writes the header exactly once, appends one complete row per save in order, and never alters rows already written; a save that fails reports the failure, and later successful saves are still readable as complete rows under the right header. A row holds the objective, variable values, starting point and counters of the problem at that moment, and saving does not change the design.",
  ["fault_sequences", "histories", "crash_points"], "all sequences of saves from different problems and solvers, with disk faults and interruptions at any of them",
  "No test writes results; the header and row discipline spans several saves and failures.",
  ["metku/optimization/to_csv.py"], [("append", "metku/optimization/to_csv.py to_csv")],
  None, ["table contents on the simulated disk"])

p("X04", "Logging a run to file always gives back the console and working directory",
  "A function run with its output logged to a file returns its own result, and afterwards standard output and the working directory are what they were before, whether the function finishes, raises, is interrupted, or the log cannot be written (only a second fault striking the clean-up itself excepted). Everything the function printed up to that point is in the log of that run, and logs of other runs, also of the same function within the same second, are left alone. Runs may be nested or follow one another on one thread.",
  ["fault_sequences", "crash_points", "histories"], "all outcomes of the logged function, nested and repeated logged runs (also within one second), and all disk faults while logging",
  "No test covers run logging; restoring global process state matters exactly when something fails.",
  ["metku/log_to_file.py"], [("redirection", "metku/log_to_file.py log_to_file")],
  None, ["standard output, working directory, log contents"])

p("I01", "Independent models never influence one another",
  "Two or more frames, problems or solvers that share no user-supplied objects behave as if each were alone in the process: building, editing, hinging, loading, analysing, sizing or changing material data of one, in any interleaving or on concurrent threads, never changes the definition, results or defaults of another, nor of one created later.",
  ["schedules", "histories"], "all interleavings, down to single statements on concurrent threads, of sessions on independent models in one process",
  "Tests run one object at a time; interference needs two models alive at once and particular interleavings.",
  [RAAMI, MEM, BEAM, "metku/frame2d/frame2d.py", "metku/materials/steel_data.py", SOPT], [("shared default arguments", MEM + " FrameMember/MemberGroup constructors"), ("process-wide caches", BEAM + " local_stiffness_matrix"), ("shared material table", "metku/frame2d/frame2d.py material")],
  None, ["results and definitions of every session against solo runs"])

p("T01", "A roof truss is analysed as it is currently defined, in every joint model",
  "For a tubular roof truss (K, N or KT bracing), whatever sequence of profile changes, joint eccentricity and offset settings, chord moves, uniform, zoned and point loads, load removals, combinations, regenerations and analyses precedes it, an analysis of the model without eccentricities, the EN 1993 model or the model with eccentricity elements gives member forces and displacements of exactly the truss as now defined: joints located by their nodes and eccentricities, gaps and intersection points following from the geometry, every chord portion including joint gaps carrying its loads, self-weight and current section, symmetric partners equal, and the same as the same truss built afresh.",
  ["histories", "faults"], "all sequences of edits, settings, model regenerations and interrupted analyses of generated trusses",
  "No test builds a tubular truss with joints; errors appear only after particular sequences of edits and joint models.",
  ["metku/raami/raami_plane_truss.py", "metku/raami/raami_truss_opt.py", "metku/raami/frame_loads.py"], [("joint models", "metku/raami/raami_plane_truss.py SlopedTruss.generate_fem"), ("joint geometry", "metku/raami/raami_plane_truss.py TubularKGapJoint"), ("zoned loads", "metku/raami/raami_plane_truss.py generate_piecewise_uniform_load")],
  None, ["member forces and displacements, joint coordinates and gaps against an independent reference and a fresh truss"])

p("T02", "A portal truss carries exactly its loads and is sized for all of them",
  "For a roof truss on two columns, whatever profile changes of chords, braces and columns, renewed calculation models, analyses and sizing runs precede it, including interrupted ones, every analysis after the joints were brought up to date balances the loads of the case: the column bases take in force and moment exactly the line loads given on the chords between the faces of the columns and on the columns, each load once and in its own case, hinged bases take no moment, shear and moment along the columns follow their loads, symmetrical loads on a symmetrical portal give mirrored reactions, and member forces are those of a newly made portal with the same sections. When sizing ends before its limit, elements carry their member's section, reported utilisations are those of the chosen sections, and chords and braces have the steel, section class, width and utilisation asked for in every load case of the whole portal wherever the catalogue allows it.",
  ["histories", "faults", "inputs"], "all sequences of profile changes, renewed models, analyses and sizing runs, and all points at which they can be interrupted, of generated portal trusses",
  "No test builds a portal truss; loads that are counted twice or cases that are left out of sizing give plausible numbers.",
  ["metku/raami/raami_portal_truss.py", "metku/raami/raami_plane_truss.py", "metku/raami/frame_member.py"], [("model of the portal", "metku/raami/raami_portal_truss.py PortalTruss.generate_fem"), ("joints of column and chord", "metku/raami/raami_portal_truss.py PortalTruss.update_fem_joint_nodes"), ("sizing", "metku/raami/raami_portal_truss.py PortalTruss.optimize_members"), ("groups", "metku/raami/frame_member.py MemberGroup.optimum_design")],
  None, ["base reactions, member forces and utilisations per case; sections after sizing"])

# ---- properties of the library that this technique does not decide (see MANIFEST not_applicable)
p("N01", "Eurocode resistance and classification formulas match the standard",
  "For every section, material and force state, cross-section class, resistance, buckling and interaction ratios follow the clauses of the design standard they cite.",
  ["inputs"], "all numeric inputs of the design formulas", "The tests sample a few sections and values.",
  ["metku/eurocodes/en1993/en1993_1_1.py", "metku/eurocodes/en1993/en1993_1_5.py"], [("formulas", "metku/eurocodes")])
p("N02", "Catalogue profiles have the published dimensions and properties",
  "Every named profile of the catalogue yields a section with the published dimensions and derived properties.",
  ["inputs"], "all catalogue entries", "The tests compare a handful of profiles.",
  ["metku/sections/steel/catalogue.py", "metku/sections/steel/ISection.py"], [("tables", "metku/sections/steel/catalogue.py")])
p("N03", "Joint design by the component method is correct",
  "Resistances and stiffnesses of column bases, end plates and hollow-section joints follow the component rules for all geometries.",
  ["inputs"], "all joint geometries", "Joint modules have no runnable tests.",
  ["metku/structures/steel/end_plate_joint.py", "metku/structures/steel/column_base_joint.py", "metku/eurocodes/en1993/en1993_1_8"], [("component rules", "metku/eurocodes/en1993/en1993_1_8")])
p("N04", "Fabrication cost is the sum of its cost-centre contributions",
  "Manufacturing cost of a member or frame equals the sum of the cost centres' contributions for the given geometry and process data.",
  ["inputs"], "all members and cost data", "Cost tests do not run in this environment.",
  ["metku/cost/workshop.py"], [("cost centres", "metku/cost")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for x in P: fh.write(json.dumps(x) + "\n")
print(len(P))
