VF = "path-sensitive value-flow extraction from the typed AST + algebraic identity of the extracted closed forms with the specification"
NOTE = ("Sound per path for the modelled fragment: every path of every function in scope is extracted from the current AST; identities are decided by random "
        "interpretation of both closed forms. Trusts the operation semantics table, the contracts of the called factories (themselves obligations) and ignores rounding/overflow. "
        "Terms outside the fragment are listed as undecided in the evidence.")

prop("S01", "Symbolic derivatives agree with calculus",
     "For every expression, its total time derivative and its partial derivative with respect to a symbol denote the mathematical derivative of the expression's value, for every node kind "
     "(sums, products in order, powers with numeric exponent, elementary functions of scalars, atan2, transpose, skew, outer products, inverse, solve, element access, if, comparisons). "
     "Symbols declared constant or parameter have derivative zero.",
     ["inputs"], "all expressions and all points where the expression is defined", "The tests differentiate a handful of fixed expressions and compare with fixed expected trees.",
     ["symbolics/functions/*.cpp", "symbolics/functions/include/*.h", "symbolics/Symbol.cpp", "symbolics/Matrix.cpp"],
     [("der() / der(symbol) of every node class", "symbolics/functions, symbolics/Symbol.cpp, symbolics/Matrix.cpp")],
     VF, NOTE)
prop("S02", "Simplification never changes the value of an expression",
     "For every expression, simplifying it yields an expression that has the same value and the same shape at every point where the original is defined, and the expression left in place still has that value. "
     "Inverse trigonometric functions of trigonometric functions are read on the principal branch, and A**0 of a square matrix is the scalar one.",
     ["inputs"], "all expressions and all points where the original expression is defined", "The tests simplify fixed expressions; rewrites depend on combinations of operand kinds, shapes and constants that are not enumerated.",
     ["symbolics/functions/*.cpp"],
     [("simplify() of every node class", "symbolics/functions/*.cpp")],
     VF, NOTE)
prop("S03", "Building an expression with operators and functions folds correctly",
     "The expression obtained by applying an operator or function to operand expressions has the value of that operation applied to the operands' values, including constant folding, "
     "neutral and absorbing elements, negation handling, pushing element access through vectors, matrices, skew, and matrix literals, and element-wise application to matrix literals.",
     ["inputs"], "all operand expressions (kinds, shapes, constants) and all points where the operation is defined", "The tests build a handful of fixed expressions per operator.",
     ["symbolics/functions/*.cpp"],
     [("static New() of every node class", "symbolics/functions/*.cpp")],
     VF, NOTE)
prop("S04", "Equality and order of expressions are faithful",
     "Two expressions that compare equal have the same value for all values of their symbols (equality may be up to the order of commuting operands; a zero or an identity compares with the number it stands for); "
     "every expression equals itself and does not differ from itself; 'a != b' answers no only for equal expressions. The order used by maps and sets keyed by expressions never puts a before b and b before a, "
     "is transitive within a class of expressions, and puts one of two different expressions before the other, so that no container takes one expression for another.",
     ["inputs"], "all pairs (for transitivity, triples) of expressions", "The tests compare a handful of fixed expressions; the merging of common subexpressions relies on the comparison of every pair in a model.",
     ["symbolics/*.cpp", "symbolics/functions/*.cpp"],
     [("operator==, operator!=, operator< of every expression class", "symbolics/*.cpp, symbolics/include, symbolics/functions/*.cpp")],
     "decision functions of the comparison operators: guards and returned conditions of every path, extracted from the typed AST, evaluated on all combinations of small operands with opaque, totally ordered operands of operands",
     "Induction over the height of expressions: operands of operands are opaque elements that compare faithfully by hypothesis. Operators treat them uniformly, so the combinations (up to three operands, vectors and 2x2 matrices) decide the function; "
     "lists longer than three are not enumerated. The order between truth values and numbers is fixed by a unit test and left out of transitivity.")
prop("S05", "Substitution and traversal keep everything but what is replaced",
     "Replacing a subexpression rebuilds every expression around it with the same operation, the same shape and the operands in their places, replaced where they are the subexpression; where nothing is replaced the expression keeps its value. "
     "The same holds for the traversal that optimisations use to visit and replace operands. Every kind of expression can be rebuilt.",
     ["inputs"], "all expressions, subexpressions and replacements", "The tests substitute in a few kinds of expressions; which kinds can be rebuilt is decided by the tables of one factory.",
     ["symbolics/*.cpp", "symbolics/functions/*.cpp", "symbolics/Factory.cpp"],
     [("subs(), iterateExp() of every expression class; Factory::newBasic", "symbolics/*.cpp, symbolics/functions/*.cpp")],
     VF, NOTE)
prop("S06", "Every expression records the shape of its value",
     "Shapes form the algebra of tensor shapes: sum, product, equality, order, transposition and their in-place forms are mutually consistent, and a shape that does not fit raises an error. "
     "Every expression records, when it is built, the shape its value has: the operands' common shape for sums, the matrix product's for products, the transposed, inverse, Jacobian, outer and solution shapes for these, "
     "scalar for scalar functions. Operands whose shapes do not fit are rejected.",
     ["inputs"], "all shapes of up to three dimensions and all expression constructors", "The tests build a few operands of one or two shapes; a wrong shape shows only in loops and declarations of generated code.",
     ["symbolics/Shape.cpp", "symbolics/include/Shape.h", "symbolics/*.cpp", "symbolics/functions/*.cpp"],
     [("operators of Shape; constructors and validate of every expression class", "symbolics/Shape.cpp, symbolics/*.cpp, symbolics/functions/*.cpp")],
     "path-sensitive value-flow analysis over the typed AST: the shape each constructor records and each shape operator returns is a closed form over the operands' shapes, compared with the reference algebra on every small shape",
     NOTE)
prop("S07", "Operators compute what they say, element by element",
     "The operators + - * / and unary - of numbers, expressions and matrix literals in every combination of types (matrices general and symmetric, also in place), and transposition, give the shape and the elements of the mathematical operation; "
     "operands whose shapes do not fit are rejected. Construction, copying, assignment and access by index keep every element in its place, and access outside the matrix is rejected.",
     ["inputs"], "all matrix literals and numbers", "The tests compute a few sums and products of square matrices; vectors, rows, non-square and symmetric matrices and most operators are not covered.",
     ["symbolics/Matrix.cpp", "symbolics/SymmetricMatrix.cpp", "symbolics/include/Matrix.h", "symbolics/include/SymmetricMatrix.h", "symbolics/Int.cpp", "symbolics/Real.cpp", "symbolics/functions/Operators.cpp"],
     [("operators, constructors, get/set of Matrix and SymmetricMatrix", "symbolics/Matrix.cpp, symbolics/SymmetricMatrix.cpp")],
     "path-sensitive value-flow analysis over the typed AST, loops as transitions: final elements and shape of every operator in closed form, compared with matrix arithmetic on all small shapes with random elements",
     NOTE)
prop("X01", "The Python interface performs the operation it names",
     "Used from Python, an expression behaves as its notation says: + - * / ** unary - abs() and the comparisons of expressions, matrices, integers and floats in any combination and order give the sum, difference, product, quotient, power or comparison of the two operands; "
     "integers of any size keep their value when they enter an expression (or are rejected); sin, cos, atan2, If, Less, Greater, Equal, solve, outer, transpose, skew, element and the other functions of the module build the function they are named after, with their arguments in order; "
     "x[i], x[i,j] and slices read and x[i,j]=v, x[i:j]=v change exactly the elements they denote, whatever the kind of matrix; len() counts the elements; unsuitable operands, wrong numbers of arguments and places outside a matrix are errors.",
     ["inputs"], "all Python operands", "The Python tests use a few operators and functions on a few symbols while building models; operators with numbers on the left, large integers, slices, symbols and zeros as matrices and most functions are never compared.",
     ["symbolics/wrapper/*.cpp"],
     [("slots CBasic_*, constructors C*_init, getBasic, getIndex, PyInit_symbolics", "symbolics/wrapper/CBasic.cpp, C*.cpp, convert.cpp, PySymbolics.cpp")],
     "path-sensitive value-flow analysis over the typed AST with the Python C API uninterpreted: slot tables and registrations read from initialisers, result of every slot in closed form, decided on abstract Python operands of every kind",
     NOTE)
prop("X02", "The graph receives what was written in Python",
     "addEquation hands the graph exactly the left and right hand side it was given: an expression stays that expression, a list becomes the vector of its entries in order, a list of lists the matrix with these rows, two lists the block of equations pairing their entries in order, None no left hand side; the implicit flag arrives as given; lists of different length, ragged rows and unsuitable objects are errors. "
     "addVariable and Symbol create the symbol with the name, shape and kind given, addVariable with its initial value and comment; getVariable, getinitVal, getShape, getVariables and getAssignments ask for and return what they name (None for what does not exist), a list with every element in its place; lhs and rhs of an assignment are its sides, element by element; buildGraph(optimize) passes the choice on; "
     "writeOutput(kind, name, path, options) uses the writer of that kind with that name, path and options, and rejects an unknown kind.",
     ["inputs"], "all calls on the graph object", "The Python tests add a few scalar, vector and matrix equations while building models; nested lists of unequal sizes, blocks, initial values, flags and most kinds of output are never compared.",
     ["symbolics/wrapper/CGraph.cpp", "symbolics/wrapper/CSymbol.cpp", "symbolics/wrapper/convert.cpp", "symbolics/wrapper/CAssignment.cpp"],
     [("CGraph_addEquation, CGraph_addVariable, CGraph_getinitVal, CGraph_getShape, CGraph_buildGraph, CGraph_writeOutput, CSymbol_init, fromShape, returnBasicPtrVec", "symbolics/wrapper/CGraph.cpp, CSymbol.cpp, convert.cpp, CAssignment.cpp")],
     "path-sensitive value-flow analysis over the typed AST with the Python C API uninterpreted: arguments of the calls every method of the graph object makes in closed form, decided on abstract Python arguments",
     NOTE)
prop("P01", "Printed expressions mean the same in the target language",
     "For every expression and every target language (Python, C, C#, Fortran, FMI, MATLAB, MATLAB symbolic, Modelica), the text that is printed for it, read with the precedence, associativity, indexing base, "
     "integer/real literal rules and library functions of that language, evaluates to the value of the expression; a construct the target cannot express raises an error or is counted as an error. "
     "This includes powers, negation, nested products and sums, conditionals, comparisons, element access and array initialisers.",
     ["inputs"], "all expressions and all values of their operands", "The tests compare the printed text of a few expressions with fixed strings, mostly for one language, and never compile the result.",
     ["symbolics/printer/*.cpp"],
     [("print(), print_* of every printer class", "symbolics/printer/*.cpp")],
     "text-template extraction (path-sensitive string value flow over the typed AST) + parsing with the target language's grammar + algebraic identity with the node's value",
     "Sound per path of every print function for the modelled fragment: texts are templates over the operands' texts. Trusts the tabulated grammars and library functions; texts outside the fragment are undecided. "
     "C, C#, FMI are component-wise targets and compared for scalar operands and element access.")
EM = "emission-tree extraction (all writes, loops and branches of a writer with helpers inlined and loop counters in closed form: prefix sums) + structural rules over the tree"
EN = ("Every statement of every writer that reaches a generated file is in the tree; nothing is instantiated or run. Positions are compared as symbolic prefix sums, hence for every model. "
      "Trusts Graph::Assignments to partition symbols and equations (own property) and states to be scalars or column vectors; what is not in closed form is undecided.")
prop("W01", "Every state has one place in y, the same in every generated function",
     "In the code generated for Python, MATLAB, C, C# and Fortran, each function reads state number i from y at the sum of the sizes of the states before it, over its size, where the states are all states of the model in one order; "
     "the derivative of that state is stored or stacked at the same place of yd; initial values are listed in that order; the declared length of y and yd is the sum of all sizes; states are read before and derivatives stored after the equations. "
     "In FMI the value reference of a derivative follows that of its state. A visual function may skip states its equations do not use, but not shift the others.",
     ["inputs"], "all models (number, sizes and names of the states; sensors that use only some of the states)", "The tests only build models whose states have one size and look at a few generated files.",
     ["symbolics/writer/*.cpp"], [("generate*() of every writer class", "symbolics/writer/*.cpp")], EM, EN)
prop("W02", "Generated code is complete and in order",
     "Every generated function contains every equation of its kind exactly as left side = right side of the same assignment, in the order of the sorted equations, element by element for vectors; categories left out of the equations "
     "(parameters, constants, inputs; controllers in Python and C) are defined before the equations with their own value; typed targets declare every variable; the Python and MATLAB sensor and visual functions return each result under its own name; "
     "Python files import the functions that are printed; expressions that could not be printed are reported.",
     ["inputs"], "all models", "The tests compare a few generated files textually or run them for a few models.",
     ["symbolics/writer/*.cpp"], [("generate*(), writeEquations() of every writer class", "symbolics/writer/*.cpp")], EM, EN)
PY = ("interprocedural extraction of the Python source (AST -> per-function summaries: terms, heap stores, folds over the model tree) composed in program order over reference mechanisms; "
      "the resulting transfer terms are decided as algebraic identities by random interpretation (jets for time derivatives)")
PN = ("Nothing of the repository is executed: the summaries are extracted from the current AST and interpreted over an algebra of jets with random values; an identity that holds for random values holds for all values of "
      "masses, geometry, orientations, axes and states on the mechanism shapes analysed (chains, branches, several roots, rotations and translations mixed); the recursions are per body and thus the shapes cover every step kind. "
      "Trusts the operation semantics table of the symbolic layer (own properties S01-S03). Flexible bodies are outside. What is not understood is undecided.")
prop("K01", "Positions, velocities and accelerations of all frames are exact",
     "For every tree of rigid bodies connected by revolute and prismatic joints with arbitrary frames (offset and rotated), each generator (explicit, recursive, order-n) gives every body and frame the position, orientation, velocity, angular velocity, "
     "acceleration and angular acceleration that follow from the joint coordinates and their derivatives; in a purely kinematic model likewise.",
     ["inputs"], "all tree mechanisms, geometries, orientations, joint coordinates, velocities and accelerations", "The tests build a few planar mechanisms with frames that are not rotated and mostly check that code is generated.",
     ["pymbs/processing/generator_explicit.py", "pymbs/processing/generator_recursive.py", "pymbs/processing/generator_order_n.py"],
     [("calcKinematics / forward recursion", "pymbs/processing/generator_*.py"), ("Joint, Frame, Body", "pymbs/processing/{joint,frame,body}.py")], PY, PN)
prop("D01", "The generated equations of motion are Newton-Euler",
     "For every tree of rigid bodies under gravity, the differential equations delivered by each generator (explicit, recursive, order-n) make the derivative of the positions the velocities and the derivative of the velocities the accelerations "
     "that solve the Newton-Euler equations of the mechanism (mass, centre of gravity off the frame, full inertia tensor, gyroscopic and Coriolis terms); the three generators therefore agree. In a purely kinematic model the accelerations are the inputs.",
     ["inputs"], "all tree mechanisms, inertias, geometries and states", "The tests hardly ever compare accelerations with a reference; most compare two texts or check that generation does not fail.",
     ["pymbs/processing/generator_explicit.py", "pymbs/processing/generator_recursive.py", "pymbs/processing/generator_order_n.py"],
     [("getSystemEqns, calcM/h/f, articulated body recursion", "pymbs/processing/generator_*.py")], PY, PN)
prop("D02", "Loads act with the force and torque they are defined by",
     "A force or torque given by components (in its reference frame), a point-to-point force and a joint load act on the two frames they connect with opposite wrenches, at the origins of those frames, in each generator (explicit, recursive, order-n): "
     "the accelerations delivered are those of the Newton-Euler equations with these wrenches, for frames that are offset and rotated, reference frames on a third body or the world, and loads between frames of one body.",
     ["inputs"], "all tree mechanisms, loads, frames and states", "The tests use at most a force along a single direction in one generator.",
     ["pymbs/processing/loads/*.py", "pymbs/processing/generator_explicit.py", "pymbs/processing/generator_recursive.py", "pymbs/processing/generator_order_n.py"],
     [("Load.calc of CmpForce, CmpTorque, PtPForce, JointLoad", "pymbs/processing/loads/"), ("where loads enter the equations", "pymbs/processing/generator_*.py")], PY, PN)
prop("D03", "Reaction sensors measure the forces and torques the joints transmit",
     "With the recursive generator, the constraint force and constraint torque sensors deliver the force and torque that the joint transmits to the outer body according to Newton-Euler, in the axes they are defined in, also when loads act on the mechanism.",
     ["inputs"], "all tree mechanisms, loads and states", "The tests do not evaluate reaction sensors.",
     ["pymbs/processing/sensors/constraint_*_sensor.py", "pymbs/processing/generator_recursive.py"],
     [("ConstraintForceSensor, ConstraintTorqueSensor", "pymbs/processing/sensors/"), ("calcReactions", "pymbs/processing/generator_recursive.py")], PY, PN)
prop("K03", "Sensors measure what they are named after",
     "Position, orientation, velocity, angular velocity, acceleration, angular acceleration, distance, joint and energy sensors deliver, in each generator that supports them, the relative quantity between their two frames expressed in their reference frame "
     "(the parent frame by default), the distance and its rate, the joint coordinate, velocity and acceleration, and the kinetic and potential energy, for all frames on any bodies or the world, for example sensors within one body or with the world as child.",
     ["inputs"], "all tree mechanisms, sensor placements and states", "The tests place a few sensors between the world and a body.",
     ["pymbs/processing/sensors/*.py", "pymbs/processing/generator*.py"],
     [("Sensor.calc of all sensor classes", "pymbs/processing/sensors/")], PY, PN)
prop("L01", "Loop formulas close the mechanism, exactly",
     "For every supported closed loop (four bar linkage, three bar and four bar with a sliding joint, crank slider, steering linkage, hexapod axis, transmission), about every axis, in every posture and for either order of the frames, the dependent positions "
     "computed from the independent ones make the two ends of the loop coincide; Bvu maps independent to dependent velocities and Bvu times the independent accelerations plus b' are the dependent accelerations, both being the exact derivatives of the positions; "
     "the coordinate, velocity and acceleration lists of a loop name the same joints in the same order.",
     ["inputs"], "all geometries in which the loop closes, all postures, states", "The tests generate code for a few loops and hardly ever look at accelerations.",
     ["pymbs/processing/loops/*.py"], [("Loop.calc of all loop classes", "pymbs/processing/loops/")], PY,
     "Closed forms of the loops are evaluated as power series over random geometries of the kind the loop class supports; a geometry is one the constructor accepts. ExpJoint (kinematics only) and the unfinished variants hexapod_sympy, hexapod_scheffler, hexapod_with_axes_offset are outside.")
prop("L02", "Equations of motion of closed mechanisms are Newton-Euler",
     "For mechanisms with closed loops the generators deliver equations whose accelerations of the independent coordinates are those of the Newton-Euler equations with the dependent coordinates eliminated, and one equation for position, velocity and acceleration "
     "of each dependent coordinate that agrees with the closed mechanism; with several loops, some of them driven by the dependent coordinate of another one, this holds in whatever order the loops were added.",
     ["inputs"], "all mechanisms with supported loops, all orders of the loops, all states", "The tests do not compare accelerations of closed mechanisms with anything.",
     ["pymbs/processing/generator.py", "pymbs/processing/generator_explicit.py", "pymbs/processing/generator_recursive.py", "pymbs/processing/generator_order_n.py", "pymbs/processing/loops/*.py"],
     [("Generator.handleLoops", "pymbs/processing/generator.py"), ("where loops enter the equations", "pymbs/processing/generator_*.py")], PY,
     "Explicit and recursive generators for all loop classes; order-n for four bars, the only loops it accepts.")

prop("L03", "Frames and sensors of closed mechanisms follow the motion",
     "In mechanisms with closed loops every generator gives every body and frame, dependent or not, the position, orientation, velocity, angular velocity and accelerations of the closed mechanism, and position, orientation, velocity, acceleration, angular, distance, joint and energy "
     "sensors between any two frames deliver the corresponding quantities, also in a purely kinematic model.",
     ["inputs"], "all mechanisms with supported loops, all frames and sensors, all states", "No test looks at a sensor in a mechanism with a loop.",
     ["pymbs/processing/generator*.py", "pymbs/processing/loops/*.py", "pymbs/processing/sensors/*.py"],
     [("accelerations of loops", "pymbs/processing/generator_*.py"), ("Sensor.calc", "pymbs/processing/sensors/")], PY,
     "Explicit and recursive generators for all loop classes; order-n for four bars.")
prop("D04", "Constraints hold on acceleration level and do no work",
     "With the order-n generator, constraints between two frames (any translations and rotations along the axes of the first frame locked, two or more equations in all, several constraints, frames on bodies or the world) make the relative accelerations along the locked axes zero; the accelerations of all coordinates, "
     "bodies, frames and sensors are those of the Newton-Euler equations with opposite reaction wrenches along the locked axes at the two frames, also when loads act.",
     ["inputs"], "all trees, constraints, loads and states with independent constraints", "No test evaluates a constraint.",
     ["pymbs/processing/generator_order_n.py", "pymbs/processing/loads/constraint.py", "pymbs/processing/generator.py"],
     [("Generator_OrderN.accConstraint, getG", "pymbs/processing/generator_order_n.py"), ("Constraint.initialize", "pymbs/processing/loads/constraint.py")], PY,
     "The explicit and recursive generators deliver implicit constraint equations no writer accepts; a single constraint equation is rejected with a shape error.")
prop("T01", "The described mechanism is the one the equations are derived for",
     "What is described with the methods of MbsSystem (bodies, frames on frames, joints with any list of degrees of freedom, fixed joints in any arrangement, start values, gravity, parameters, loads, sensors, loops, constraints, expressions made by addSpringDamper, CenterofMass and Energy) is what the generators are given, in whatever order it was "
     "described: every frame has the position and orientation it was described with for all values of the coordinates, the kinetic energy and the moment of the masses are those of the described bodies, every load, sensor, loop and constraint acts between the frames, joints and symbols and with the arguments of the call, "
     "elements of vector and matrix parameters stand in the places their names say with their default values, the generator asked for gets the options of the call, and objects of the caller are not changed.",
     ["inputs"], "all descriptions", "The tests describe few mechanisms, without fixed joints between moving bodies or nested frames with rotations.",
     ["pymbs/input/mbs_system.py", "pymbs/input/transformation.py", "pymbs/input/body.py", "pymbs/input/frame.py", "pymbs/input/joint.py", "pymbs/input/loads.py", "pymbs/input/sensors.py", "pymbs/input/constraints.py"],
     [("MbsSystem.add*", "pymbs/input/mbs_system.py"), ("_transformModel, flattenCSStructure, applyFixedJoints, convert*", "pymbs/input/transformation.py")], PY,
     "Flexible bodies (read from files), visualisation and the graphical interface are outside; the posture of FourBarTrans has no counterpart in the generators.")
prop("G01", "Every solvable system of equations is put into an executable order",
     "Whenever a system of equations has an assignment of one equation to each unknown, the graph finds one, detects the algebraic loops, and orders the blocks so that every value is computed before it is used; otherwise it says what is missing or over-determined.",
     ["inputs", "histories"], "all systems of equations", "The tests sort a few small systems.",
     ["symbolics/graph/*.cpp"], [("matching, strongly connected components, block order", "symbolics/graph/UnMatchedSystem.cpp, MatchedSystem.cpp, EquationSystem.cpp")],
     na="A statement about recursive algorithms on pointer graphs of unbounded size that rewrite themselves while they run (matching along augmenting paths, Tarjan's algorithm, contraction of nodes): it needs inductive invariants over heap-allocated graphs, "
        "which no source-level dataflow in reach can supply. The parts that the text of the program does fix - each equation is written once, definitions before uses among the groups that are emitted - are claimed as W02.")
prop("F01", "Flexible bodies move as their modal description says",
     "Position, velocity, acceleration and equations of motion of bodies with elastic modes agree with the floating-frame formulation for the given standard input data.",
     ["inputs"], "all flexible bodies and data files", "One example with one data file is generated.",
     ["pymbs/input/flexiblebody.py", "pymbs/processing/body.py"], [("addFlexibleBody and its kinematics", "pymbs/processing")],
     na="What is computed depends on matrices read from a data file at run time (numbers of modes, Taylor coefficients); the code indexes them by run-time names, so neither the closed form of the result nor its reference can be derived from the source.")
prop("N01", "Generated programs are accurate and do not fail away from singularities",
     "Evaluated in floating point, the generated equations agree with exact arithmetic up to a small multiple of rounding wherever the mechanism is regular, and the symbolic rewriting does not introduce divisions by zero or overflow.",
     ["inputs"], "all models, states and parameter values", "The tests evaluate a few models at a few states.",
     ["symbolics/*.cpp", "pymbs/processing/*.py"], [("simplification, elimination, loops", "symbolics, pymbs/processing")],
     na="Bounds on rounding, conditioning and run-time values quantify over numbers the source does not bound; the identities claimed elsewhere hold in exact arithmetic only.")
