fixed("S02", "f870be2", "((x**2)**(1/2)) was merged into x, -3 instead of 3 at x=-3")
fixed("S02", "c7dddd7", "(-x)**e was rewritten as -(x**e) for fractions e")
fixed("S02", "f583219", "cos and atan of the scalar identity folded to asin(1)")
fixed("S01", "0e1e349", "derivative of atan2(a, b) had its arguments exchanged")
fixed("S01", "f5c659d", "derivative of a > b was not zero")
fixed("S01", "bb5a24e", "derivative of a < b was not zero")
fixed("S01", "3d91d13", "derivatives of comparisons (include)")
fixed("S01", "c6f1d7a", "partial derivative of sign(x) was not zero")
fixed("S01", "d7a8039", "product rule of outer(a, b)")
fixed("S03", "1296aab", "inverse of a scalar was not its reciprocal")
fixed("S01", "80d80e2", "derivative of the identity matrix was not zero")
fixed("S03", "5b794e8", "outer product with a zero vector lost its shape")
fixed("S02", "15d2287", "transpose of a zero matrix lost the transposition")
fixed("S01", "2e61bbd", "partial derivative of inverse(A) was the derivative with respect to time")
fixed("S01", "c18cebc", "derivative of a matrix power A**n assumed that matrices commute")
fixed("P01", "a24c254", "conditional in C# lacked parentheses")
fixed("S02", "5f3138d", "-1 in a sum lost its sign")
fixed("S02", "8dc8e24", "uninitialised flag when simplifying sums of vectors")
fixed("S02", "24de340", "sum of a single matrix and scalars was dropped")
fixed("S02", "1d082f9", "two matrices in a sum were multiplied")
fixed("S02", "6c8fe3d", "a sum in which the vectors cancel lost its shape")
fixed("S02", "af8d59c", "product of x and a power of x counted x twice")
fixed("S02", "5276f84", "a vector of ones was dropped from a product")
fixed("S02", "4ee4c31", "is_One was true for minus one")
fixed("W01", "6c434a2", "Python: wrong positions in y for states of different sizes")
fixed("W01", "89f42ed", "Matlab: wrong positions in y for states of different sizes")
fixed("W01", "bb26639", "C: wrong positions in y and yd for states of different sizes")
fixed("W01", "26cea54", "C#: wrong positions in y and yd for states of different sizes")
fixed("W01", "69a9abc", "C#: length of yd wrong for vector states")
fixed("W01", "d233c71", "Fortran: wrong positions in y for states of different sizes")
fixed("W01", "fd9f571", "sensor and visual functions counted positions over the states they use only (a velocity sensor read qd from y[0:2])")
fixed("W01", "28ded92", "visual functions read velocities although the user interface passes positions only")
fixed("W02", "405d427", "Python: indentation of constants broke the generated file")
fixed("W02", "ff41674", "Python: tan was not imported")
fixed("W02", "509b1fa", "Modelica: constants printed their dimension twice")
fixed("W02", "9e4d918", "Fortran: constants were not declared")
fixed("W02", "c820b7d", "Fortran: a temporary variable was read under another name than it was assigned")
fixed("W02", "6ea2b5e", "C: wrapper did not pass the sensors to controllers")

V = "visual function: the time is no argument, although a frame p=[sin(time),0,0] makes positions depend on it (Python raises NameError, C does not compile); the interface of the visual functions would have to change"
for w in ("CSharp", "C", "Fortran", "Python"):
    known("W02", "defined|Symbolics::%sWriter|%s:visual time" % (w, w), w + " " + V)
for w in ("CSharp", "C", "Fortran"):
    known("W02", "defined|Symbolics::%sWriter|%s:visual INPUT" % (w, w), w + " visual function: inputs are no arguments, although the position of a frame may depend on one; the interface of the visual functions would have to change")
fixed("D01", "e69a2ee", "Generator_OrderN added the gyroscopic torque om x (I om) to the external torque instead of subtracting it: every spatial tree had wrong accelerations")
fixed("D02", "5f9b72b", "Generator_Explicit raised a shape error for every CmpForce/CmpTorque in a system with a single (independent) coordinate")
fixed("K03", "7e48bfd", "VelocitySensor/AccelerationSensor of the explicit generator raised NameError / a shape error when parent and child are fixed in the same frame")
fixed("K03", "0b3aeea", "AngularVelocity/AngularAcceleration sensors of the explicit generator raised AttributeError when the parent frame belongs to the world")
fixed("K03", "9c146dc", "acceleration sensors of Generator_OrderN relative to the world included the gravity vector")
fixed("D03", "3f70c2e", "joint torques of Generator_Recursive missed l x F_ext: ConstraintTorque was wrong for every body with an external force")
fixed("K03", "e50218f", "energy sensors raised TypeError with Generator_Recursive")
fixed("K03", "0e80ed9", "energy sensors with Generator_OrderN used the inertia tensor about the body origin together with the velocity of the centre of gravity")
fixed("K01", "f2f4e59", "Generator_OrderN added translations of joints in rotated frames without turning them into the frame of the parent body")
fixed("D01", "29dfb8d", "Generator_Explicit(kinematicsOnly=True) defined no states: the model could not be built (q_j has no equation)")
fixed("D02", "e6c3461", "OrderN applied loads in the axes of the frame they act on instead of the axes of the body; point-to-point forces as if given in the parent frame")
fixed("L01", "b2390a6", "crank slider: velocities and accelerations of the dependent coordinates were not the derivatives of its positions")
fixed("L01", "7627fdc", "crank slider: raised an exception when its frames were given in reverse order")
fixed("L01", "58b0a3a", "hexapod axis: velocities and accelerations of the dependent coordinates were not the derivatives of its positions")
fixed("L02", "0c237e8", "Generator_OrderN added the accelerations of loops twice (SymbolAlreadySolvedInError with any four bar)")

fixed("D04","9dbd8db","accelerations used by constraints: the acceleration of the parent was turned but the lever term was not")
fixed("L03","b90b9e1","with loops or constraints in Generator_OrderN, accelerations of bodies, frames and sensors were those before the constraint forces act")
fixed("D04","15a98ae","bias of a constraint was calculated in the wrong frame, the world returned 0")
fixed("D04","5cf4da6","several constraints: int_J was defined once per constraint, with the rows found so far")
fixed("D04","44a4310","a frame used in two constraints: the same variable was defined twice")
fixed("S03","2944e68","column matrix times transposed vector had one dimension with 3x3 elements")
fixed("T01","dca59b5","addParam with a matrix as default value raised an exception")
fixed("T01","19199f9","addJoint emptied the list of degrees of freedom of the caller: a second joint described with the same list got other degrees of freedom")
fixed("T01","6f0939c","fixed joints: mass, centre and inertia of welded bodies were combined in the wrong frames, chains of fixed joints not at all")
fixed("S05","c96d461","substituting in an expression with sign, inverse, outer or jacobian raised 'Unknown Type'")
fixed("S04","6055621","a product with one scalar factor behind a matrix was not equal to itself")
fixed("S04","21d9e8f","1 == zero vector answered yes")
fixed("S04","00b4116","zeros (identities) of different shapes were equal and the same key in maps keyed by expressions")
fixed("S04","4929f36","the identity was equal to 0 and never to a matrix literal of the identity")
fixed("S04","66bd510","f(a) == g(a) for functions of different names")
fixed("S04","87e14a8","-1 < zero and zero < -1")
fixed("S04", "0d24e14", "operator<(BasicPtr, BasicPtr): a real number and an integer were compared the wrong way round (Int(0) < Real(1) and Real(1) < Int(0)); Int(-1) < Zero < Eye < Int(-1)")
fixed("S07", "fd37485", "Int/Real +,-,* SymmetricMatrix: the loop ran over all elements of the shape instead of the stored ones and raised an index error")
fixed("S04", "678c7ac", "operator==(Eye, BasicPtr), operator!=: identity matrices of different size were equal")
fixed("S04", "2b319f4", "operator!=(Int/Real/Matrix, BasicPtr) answered no for an expression of another class")
fixed("X01", "a5fd476", "Equal(a, b) of the Python module built a Less")
fixed("X01", "95dce22", "a*5000000000 became a*705032704: integers beyond 32 bit were truncated when they entered an expression")
fixed("P01", "dbaeee1", "Python: a matrix of scalar shape was printed as matrix(x), a 1x1 matrix where a number belongs; an acceleration sensor in an explicit model with one degree of freedom raised ValueError in the generated code")
fixed("X02", "e7b1550", "lhs and rhs of a block of equations listed the first element for every element")
fixed("X02", "beef2bd", "writeOutput('xx', name, path) called a function of an uninitialised pointer and crashed")
