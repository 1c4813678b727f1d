#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe,"hook_needed":None}})
A="aegir/src/"
UN=A+"ops/arithmetic/unary.rs"; BI=A+"ops/arithmetic/binary.rs"; LG=A+"ops/logarithmic.rs"; SG=A+"ops/sigmoid.rs"
SP=A+"ops/special.rs"; TR=A+"ops/trig.rs"; LA=A+"ops/linalg/mod.rs"; OM=A+"ops/mod.rs"
VA=A+"meta/variable.rs"; CO=A+"meta/constant.rs"; CA=A+"meta/cached.rs"; LB=A+"lib.rs"
BM=A+"buffers/mod.rs"; BS=A+"buffers/spec.rs"; BSc=A+"buffers/scalars.rs"; BV=A+"buffers/vecs.rs"; BT=A+"buffers/tuples.rs"
AB=A+"buffers/arrays/buffer.rs"; AZ=A+"buffers/arrays/zip_ops.rs"; AC=A+"buffers/arrays/contraction_ops.rs"
SM=A+"buffers/shapes/mod.rs"; SC=A+"buffers/shapes/compiled.rs"; SR=A+"buffers/shapes/runtime.rs"; MP=A+"buffers/shapes/multi_product.rs"
ER=A+"errors.rs"; FM=A+"fmt.rs"; DU=A+"dual.rs"; DM="aegir_derive/src/"; CM="aegir_compile/src/lib.rs"
OPS=[UN,BI,LA,LG,SG,SP,TR]
p("C01","The adjoint of every operator is its exact symbolic derivative",
 "For every operator that can be differentiated, the graph produced by asking for its adjoint with respect to any target denotes the exact derivative of the function the operator evaluates, as real functions wherever both are defined: chain rule, product rule, quotient rule and power rule applied to arbitrary operands and their adjoints, with correct sign, factors and operand order. At the kinks, the derivative of |x| at 0 is 0 and the derivative of sign(x) is infinite at 0 and 0 elsewhere. For a contraction the adjoint is the order-preserving product rule; the reduction `Sum` is a recorded exception.",
 ["inputs","programs"],"every operator, every operand graph, every target identifier, every real value of the operands",
 "Tests check a few operators on scalar variables at a few points; the derivative must agree for all operand graphs and all values.",
 OPS+[VA,CO,CA],[("Differentiable impls",", ".join(OPS))],["Differentiable::adjoint then Function::evaluate / evaluate_spec"])
p("C02","Every operator evaluates the function it is named and documented for",
 "Evaluating an operator node yields, element by element, exactly the mathematical function its documentation states, applied to the values of its operands in the stated order (addition, subtraction, product, quotient, power, negation, square, double, abs, sign, exp, ln, x ln x, sigmoid, rabbit, trigonometric, hyperbolic and inverse functions, gamma family, erf, delta), and reductions and contractions yield the documented sum over all elements. The result never depends on anything else.",
 ["inputs","programs"],"every operator, operand graph, buffer shape and element value",
 "Doctests sample three values per operator; the pointwise identity is over all reals, shapes and operands.",
 OPS,[("Function::evaluate impls",", ".join(OPS))],["Function::evaluate"])
p("C03","Structured (lifted) evaluation equals dense evaluation",
 "For every node and context, evaluating in structured form (all-equal or diagonal representations) and then densifying gives exactly the same buffer or error as ordinary evaluation, whatever structure the operands happen to have. Structured buffers likewise report the shape of, densify to, and map or zip elementwise exactly like, the dense buffer they stand for.",
 ["inputs","programs"],"every operator, every combination of structured/dense operand representations, every shape and element value",
 "Tests evaluate structured forms for a couple of operators; the shortcut arms (all zeroes, all ones, diagonal) must be sound for every operand combination and shape.",
 OPS+[VA,CO,CA,BS],[("evaluate_spec impls",", ".join([OM]+OPS+[VA,CO,CA])),("Spec",BS)],["Function::evaluate_spec","Spec::unwrap"])
p("C04","Shape queries agree with the value that would be computed",
 "For every node and context, asking only for the shape gives the shape of the buffer that evaluation would return whenever evaluation succeeds, and fails whenever evaluation fails because of a missing variable or incompatible operand shapes. (Nodes whose value is statically a scalar, the power operator and the reduction `Sum`, may answer with the scalar shape without consulting their operands.)",
 ["inputs","programs"],"every operator, operand graph, context and shape",
 "No test compares the shape query with evaluation for general operands; it is a universally quantified equality of two code paths.",
 OPS+[VA,CO,CA,LB],[("evaluate_shape impls",", ".join(OPS+[VA,CO,CA,LB]))],["Function::evaluate_shape","Function::evaluate"])
p("C05","Failures propagate and are attributed to the operand that failed",
 "Whenever an operand of a node fails to evaluate, evaluating the node (as a value or in structured form, and as a shape except where the shape is statically the scalar shape) fails too and carries exactly that operand's error, tagged as left or right according to which operand it was (when both fail, the left operand's); the tagged error displays exactly the error it wraps; a failure of the node itself is tagged as an output failure and reports the operand shapes in order. No error is dropped, swapped, or replaced by a value, and no failure is reported when all operands succeed and are compatible.",
 ["inputs","programs","fault_sequences"],"every operator, every combination of failing operands, every evaluation form",
 "Tests exercise a single failing operand of a few operators; the matrix of operators, forms and failure combinations is not covered.",
 OPS+[VA,CO,CA,LB,ER],[("BinaryError",ER),("Function impls",", ".join(OPS))],["Function::{evaluate,evaluate_spec,evaluate_shape}","Differentiable::evaluate_dual"])
p("C06","Evaluation never panics on well-typed graphs",
 "Evaluating any node over any context (values, structured form, shapes, adjoints, duals), and constructing, mapping, folding, zipping, contracting or displaying buffers and shapes, returns a value or an error and never panics, overflows an index or aborts; shape mismatch, unknown names and out-of-range indices are reported through the return value. (The documented preconditions of unchecked element access and of subset construction, arithmetic overflow of user-sized integers, and exhaustion of memory are excepted.)",
 ["inputs","programs"],"all graphs, contexts, shapes and element values",
 "A panic needs a specific shape or value combination the tests do not contain.",
 OPS+[VA,CO,CA,BM,BS,BSc,BV,AB,AZ,AC,SC,SM],[("unwrap/index/assert sites","all library functions")],["every public entry point"])
p("C07","A variable missing from the context is reported by its own name",
 "Evaluating a variable, in any form, returns the buffer the context holds under that identifier, in the same form; if the context holds none, the result is an 'undefined' error carrying that very identifier, never a default value or another identifier's error.",
 ["inputs","programs"],"every identifier, context implementation and evaluation form",
 "Tests cover one identifier and one form.",
 [VA,ER,LB],[("Variable Function impl",VA),("SourceError",ER)],["Function impls of Variable"])
p("C08","Derived contexts store and return each identifier's own buffer",
 "For a context built by the provided macros and derives, reading an identifier returns exactly the buffer stored in the field declared for it, writing replaces exactly that buffer and leaves every other identifier's buffer as it was, and the structured and shape reads agree with the plain read; a slot that was never filled reads as absent.",
 ["inputs","histories"],"every declared field list, every sequence of reads and writes",
 "Tests build contexts with one to three fields and read each once.",
 [DM+"ctx/derive.rs",DM+"ctx/ctx_type.rs",LB],[("derive(Context), ctx_type!, ctx!",DM+"ctx")],["Read / Write impls of generated types"])
p("C09","Memoised nodes are transparent and populated",
 "Evaluating a cached node returns the buffer already stored in the context under its identifier if there is one, and otherwise evaluates the wrapped node once, stores exactly the result under that identifier and returns it; an evaluation error stores nothing. All three evaluation forms and the adjoint behave the same with and without the cache wrapper, given that the stored buffer is the wrapped node's value.",
 ["inputs","histories"],"every wrapped node, identifier, context and prior cache state",
 "Tests run one hit and one miss of the value form.",
 [CA,LB],[("Cached impls",CA)],["Function, Contains and Differentiable impls of Cached"])
p("C10","Evaluation has no side effects other than filling caches",
 "Evaluating any node in any form never modifies the context, except that a cached node may store its own value under its own identifier; it reads the context only through the identifiers that occur in the graph, and per request evaluates each operand at most once (whichever form of its value it asks for), in a fixed order.",
 ["inputs","programs","histories"],"all graphs and contexts, all evaluation forms",
 "Absence of an effect on all inputs is not testable by sampling.",
 OPS+[VA,CO,CA,LB],[("Function impls","all")],["Context state before/after evaluation"])
p("C11","A graph reports containing exactly the identifiers that occur in it",
 "The containment query on a node answers true for an identifier exactly when some operand contains it or the node itself refers to that identifier; every operand is consulted, constants contain nothing and a variable contains only itself.",
 ["inputs","programs"],"every node type, operand graph and identifier",
 "Tests query a handful of small graphs.",
 [DM+"ops.rs",VA,CO,CA]+OPS,[("derive(Contains)",DM+"ops.rs"),("Contains impls",", ".join([VA,CO,CA]))],["Contains::contains"])
p("C12","Buffer constructors produce the elements and shape they name",
 "For every buffer family, constructing from a generator gives a buffer of the requested shape whose element at each index is the generator's value at that index; 'full', 'zeroes', 'ones', 'diagonal' and 'identity' give the corresponding constant or diagonal contents, and subset construction takes the active value on the listed indices and the base value elsewhere.",
 ["inputs"],"every buffer family, shape, field and generator",
 "Tests build a few small buffers; the element law is for all shapes and indices.",
 [BM,BSc,BV,BT,AB],[("Class impls",", ".join([BM,BSc,BV,BT,AB]))],["Class::{build,build_subset,full,zeroes,ones,diagonal,identity}"])
p("C13","Elementwise and reduction operations on buffers visit every element once",
 "For every buffer type, mapping (by value, by reference or in place) applies the function to each element and keeps shape and positions, folding visits every element exactly once in index order, summing adds them all, and checked element access returns the element exactly for indices inside the shape and nothing outside it.",
 ["inputs"],"every buffer type, shape, function and index",
 "Tests use one or two shapes per family.",
 [BM,BSc,BV,BT,AB],[("Buffer impls",", ".join([BM,BSc,BV,BT,AB]))],["Buffer::{map,map_ref,mutate,fold,sum,to_owned,get,get_unchecked,shape}"])
p("C14","Pairwise buffer operations keep operand order, indices and shape errors",
 "Zipping two buffers combines, at each output index, the left element with the right element (scalars broadcast over the other operand) in that argument order, in every flavour (mapping, mapping with identity default, in place, folding, shape-only); operand shapes that do not broadcast give an error naming the left and right shapes in order, and the shape-only query succeeds exactly when the zip does and returns its shape.",
 ["inputs"],"every pair of buffer types, shapes, elements and non-commutative functions",
 "Tests zip with commutative functions or on one rank; order and index errors are visible only with asymmetric functions at higher rank.",
 [BSc,BV,BT,AZ,SC,SR,BM],[("ZipMap/ZipFold/ZipMut impls",", ".join([BSc,BV,BT,AZ])),("Broadcast",SC)],["ZipMap, ZipMut, ZipFold, Broadcast"])
p("C15","Contraction is the sum of products over the shared axes",
 "Contracting two buffers yields, at each output index, the sum over the contracted axes of left element times right element with the documented index convention, for every supported pair of shapes; the structured and the shape-only contraction agree with the dense one for every operand structure.",
 ["inputs"],"every supported operand pair, all sizes including non-square, all elements and structures",
 "Tests use square or small operands, on which transposed or mis-bounded loops coincide.",
 [AC,BSc,BV,BM,LA],[("Contract impls",", ".join([AC,BSc,BV]))],["Contract::{contract,contract_spec,contract_shape}"])
p("C16","Shape algebra: concatenation, splitting, membership and counting agree",
 "For statically ranked shapes: concatenating two shapes or indices appends the right one's extents after the left one's and splitting undoes it; an index is a member of a shape exactly when each coordinate is below its extent; the cardinality is the product of the extents and index enumeration yields each member index once in row-major order; an index is diagonal exactly when all coordinates coincide; broadcasting a shape with itself or with the scalar shape yields that shape and broadcasting unequal run-time shapes is an error naming both; and the shape reported for an array, vector or tuple is its actual extents.",
 ["inputs"],"every static rank, extent and index",
 "Tests enumerate a few small shapes.",
 [SM,SC,SR],[("Shape/Concat/Split/Ix impls",", ".join([SM,SC,SR]))],["Shape, Concat, Split, Ix traits"])
p("C17","Unchecked memory operations stay within bounds and initialised",
 "No safe call into the library can reach an unchecked or unsafe operation with its precondition violated: unchecked unwraps only on values known to be successful, unsafe constructions only produce fully initialised values, and raw reads move each value at most once.",
 ["inputs","programs"],"all safe callers",
 "Undefined behaviour can pass every test silently.",
 [BM,BV,BT,AB,AZ,SC,SR,BSc,BI],[("unsafe blocks","all library functions")],["unsafe operations reachable from the public API"])
p("C18","Dual-number arithmetic follows the differentiation rules",
 "Arithmetic on dual numbers, and between a dual and a plain value, carries the value of the operation and the corresponding derivative: component-wise for sums, differences and negation, product rule for products, and scaling of both components when multiplying by a plain value. Accessors, mapping and conversion return the component they name, and owned and borrowed forms agree.",
 ["inputs"],"all component values, all operator and ownership forms",
 "Tests cover few operator forms; all forms must agree algebraically.",
 [DU],[("impl Add/Sub/Mul/Neg for Dual",DU)],["Dual operators and accessors"])
p("C19","The expression macro builds the same graph as the method calls",
 "An expression written in the inline expression macro denotes the same function as the equivalent chain of node-construction calls, honouring the host language's precedence and associativity, parentheses and the order of operands; a square written `^ 2` may use the squaring operator; literals become constants of exactly that value.",
 ["programs"],"every expression over the supported operators",
 "Tests compile a few expressions; grouping and operand order are visible only with non-commutative compositions.",
 [CM],[("aegir! macro",CM)],["aegir! expansion"])
p("C20","Displayed formulas denote the function the node computes",
 "The text displayed for a node is a formula which, read with ordinary precedence and the displayed operand texts, denotes the function the node evaluates, including when operands display as the literals 0 and 1, and with parentheses wherever an operand would otherwise be regrouped. (Formulas are read over scalars; identifiers' symbols and non-negative constants' texts are taken as indivisible; limits conventions such as ln(0) = -∞ are those of the evaluated function.)",
 ["inputs","programs"],"every operator and every operand text",
 "Tests print a handful of graphs.",
 [FM,OM]+OPS+[VA,CO,CA],[("ToExpr impls",", ".join(OPS+[VA,CO,CA]))],["Display / ToExpr of nodes"])
p("C21","Identifiers are distinct, self-equal and display their declared symbol",
 "Each declared identifier is a distinct zero-sized type equal only to itself, turns into a variable carrying that identifier, and displays exactly the symbol declared for it, or its own name when no symbol was declared; the predefined Latin and Greek identifiers display their own letters and no two of them display alike.",
 ["programs"],"every identifier declaration, all predefined identifiers",
 "No test displays the predefined identifiers or symbol-less declarations.",
 [DM+"ids.rs",LB],[("ids! macro",DM+"ids.rs"),("ids module",LB)],["Identifier / Display impls"])
p("C22","Differentiable graphs stay differentiable",
 "The adjoint of a differentiable graph is itself differentiable, and can be displayed and evaluated wherever its operands can, so that derivatives of any order exist for every graph built from differentiable operators; recorded exceptions aside.",
 ["programs"],"all operator compositions, all derivative orders",
 "Tests take one or two derivatives of few graphs.",
 OPS+[VA,CO,CA],[("Differentiable::Adjoint types","all Differentiable impls")],["type-level: <N as Differentiable<T>>::Adjoint: Differentiable<T>"])
p("C23","Derivatives of variables and constants are identity and zero",
 "Differentiating a variable with respect to its own identifier yields the identity over (value axes, target axes) - one where the value index equals the target index and zero elsewhere - and with respect to any other identifier zero of the right shape; differentiating a constant always yields zeros of shape (constant axes, target axes). Missing identifiers are reported by name.",
 ["inputs","programs"],"every identifier pair, shape and context",
 "Tests cover rank 0 and 1 only.",
 [VA,CO],[("VariableAdjoint, ConstantAdjoint",", ".join([VA,CO]))],["Function impls of the adjoint leaf nodes"])
p("C24","Node-construction methods build the operator they name",
 "Every convenience constructor method on nodes and identifiers returns the operator it is named after with the receiver as first operand and the arguments in order; accessors and conversions on nodes return the operand or value they name.",
 ["programs"],"every constructor and operand",
 "Tests use only some of the constructors.",
 [LB,VA,CO],[("Node provided methods",LB)],["Node::*, Identifier::into_var"])
p("C25","Runtime-rank index enumeration visits every index exactly once",
 "For shapes whose extents are known only at run time, index enumeration yields each member index exactly once in row-major order and its length hints match the number of indices still to come.",
 ["inputs","histories"],"all ranks and extents, every point of the iteration",
 "Tests enumerate two small shapes.",
 [MP,SR],[("MultiProduct iterator",MP)],["Shape::indices for runtime shapes"])
p("C26","Special functions are numerically accurate",
 "In floating point, the values returned by evaluation differ from the exact real results by no more than the rounding of the underlying elementary and special functions.",
 ["inputs"],"all floating-point inputs",
 "Numerical error is a property of run-time values.",
 [SP,TR,LG],[("Real / FloatSpecial methods",", ".join([SP,TR,LG]))],["Function::evaluate over f32/f64"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
