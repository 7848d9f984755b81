#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],
                   observe_at=list(observe),hook_needed=None)))
S='aegir/src/'
p('C01','First derivatives of scalar expressions are correct',
 "For every scalar expression built from the differentiable operators, every target variable and every point where the expression is differentiable, evaluating its adjoint (through adjoint, evaluate_adjoint or evaluate_dual) yields exactly the partial derivative of the expression with respect to that variable. Constants and the other variables contribute zero.",
 ['programs','inputs'],'every expression tree over the operator set, every assignment of its variables in the domain, every choice of target',
 'Unit tests differentiate a handful of fixed small trees at a few points; compositions (chain rule through any pair or triple of operators, product/quotient/power rules with both operands depending on the target) are unbounded.',
 [S+'ops/arithmetic/binary.rs',S+'ops/arithmetic/unary.rs',S+'ops/logarithmic.rs',S+'ops/sigmoid.rs',S+'ops/trig.rs',S+'ops/special.rs',S+'ops/linalg/mod.rs',S+'meta/variable.rs',S+'meta/constant.rs',S+'lib.rs'],
 [('Differentiable::adjoint rewrite rule of each operator',S+'ops/'),('VariableAdjoint/ConstantAdjoint leaf seeds',S+'meta/'),('evaluate_adjoint / evaluate_dual',S+'lib.rs')],
 observe=['Differentiable::adjoint(..).evaluate','Differentiable::evaluate_adjoint','Differentiable::evaluate_dual'])
p('C02','Derivatives of every order are correct; mixed partials commute',
 "Differentiating an adjoint again, any number of times and with respect to any sequence of variables, yields the corresponding higher-order partial derivative, for every operator whose derivatives are themselves made of differentiable operators. In particular mixed partial derivatives do not depend on the order of differentiation, and differentiating beyond the degree of a polynomial yields zero.",
 ['programs','inputs','histories'],'every expression, every finite sequence of differentiation targets, every point of the domain',
 'The tests contain almost no second derivatives; "infinitely differentiable" quantifies over the length of the differentiation sequence and over all trees.',
 [S+'ops/',S+'meta/variable.rs',S+'meta/constant.rs'],
 [('adjoint types are nodes that implement Differentiable again',S+'ops/'),('Adjoint of VariableAdjoint / ConstantAdjoint is a zero ConstantAdjoint',S+'meta/')],
 observe=['adjoint(..).adjoint(..).evaluate'])
p('C03','Jacobians of tensor expressions have the right entries and layout',
 "For every expression over fixed-size arrays that can be differentiated and evaluated (element-wise arithmetic, scalar broadcasting, tensor and dot products, and scalar functions of them), the adjoint's value is the Jacobian: its axes are the axes of the value followed by the axes of the target, and each entry is the partial derivative of that component with respect to that component of the target. This holds for scalar, vector and matrix targets, and is all zero for a target that does not occur.",
 ['programs','inputs'],'every well-typed tensor expression, every shape, every target, every point',
 'The tests check a few Jacobians, mostly with square shapes and symmetric (identity) Jacobians, where axis order and transposition mistakes cannot show.',
 [S+'ops/linalg/mod.rs',S+'buffers/arrays/contraction_ops.rs',S+'meta/variable.rs',S+'meta/constant.rs',S+'ops/arithmetic/binary.rs'],
 [('Contract product rule',S+'ops/linalg/mod.rs'),('VariableAdjoint identity seed (eye / build_subset)',S+'meta/variable.rs'),('ConstantAdjoint zero seed, shape concatenation and class precedence',S+'meta/')],
 observe=['adjoint(..).evaluate','evaluate_adjoint'])
p('C04','Evaluation applies every operator pointwise, with scalar broadcasting',
 "The value of an expression is the composition of the mathematical functions its operators are named after, applied element by element to the values the context holds for its variables, a scalar operand being broadcast against any buffer on either side; products of tensors and sums reduce over the stated elements only. The order of operands is respected, for every buffer class and shape.",
 ['programs','inputs'],'every expression tree, operand class/shape combination and variable assignment',
 'Tests evaluate each operator alone on one or two inputs, seldom nested, and almost never with mixed scalar/array operands in both orders.',
 [S+'ops/',S+'meta/variable.rs',S+'meta/constant.rs',S+'buffers/'],
 [('Function::evaluate of each operator',S+'ops/'),('ZipMap broadcasting',S+'buffers/arrays/zip_ops.rs')],
 observe=['Function::evaluate'])
p('C05','Structured (lifted) evaluation is transparent',
 "Whether sources provide their data densely or in a structured form (all entries equal, or diagonal) never changes a result: evaluating with structural information and then materialising gives the same buffer as evaluating densely, for every operator and every mix of dense, full (including all-zero and all-one) and diagonal operands.",
 ['programs','inputs','configurations'],'every expression, every assignment of a structural form to each source with the same dense contents',
 'The structural short-cuts (zero, one, full, diagonal) are separate code paths per operator and per pair of forms; tests hit only a few of the pairs.',
 [S+'ops/arithmetic/binary.rs',S+'ops/mod.rs',S+'ops/linalg/mod.rs',S+'buffers/arrays/contraction_ops.rs',S+'buffers/spec.rs',S+'meta/'],
 [('evaluate_spec of each operator',S+'ops/'),('contract_spec',S+'buffers/arrays/contraction_ops.rs'),('Spec::unwrap',S+'buffers/spec.rs')],
 observe=['Function::evaluate_spec','Function::evaluate'])
p('C06','The predicted shape is the shape of the value',
 "Whenever an expression (or an adjoint) evaluates successfully, asking for its shape succeeds and returns exactly the shape of the buffer that evaluation returns, for compile-time and run-time shapes alike. For combinations of run-time shapes, element-wise combination succeeds exactly when the shapes agree or one side is a scalar, and otherwise the shape query reports the same incompatibility as evaluation.",
 ['programs','inputs','configurations'],'every expression over scalars, arrays, tuples and vectors of any run-time length, and every context',
 'Shape inference is a separate recursion from evaluation in every node; tests compare them for very few expressions.',
 [S+'ops/',S+'meta/',S+'buffers/shapes/'],
 [('Function::evaluate_shape',S+'ops/'),('Broadcast / Concat',S+'buffers/shapes/')],
 observe=['Function::evaluate_shape'])
p('C07','Failed evaluations are reported, precisely and without panicking',
 "Evaluating an expression in a context that leaves some variable undefined, or that supplies run-time vectors of unequal length, never panics: it returns an error that leads, through the left/right/output position of each operator, to the first failing sub-expression in left-to-right order and to its cause (the undefined identifier, or the two incompatible shapes in operand order), and its printed message names that cause. An expression fails only if one of its own sub-expressions fails, and a failed evaluation leaves the variables of the context unchanged.",
 ['programs','inputs','fault_sequences'],'every expression, every subset of undefined variables, every combination of vector lengths, for evaluation, structural evaluation and adjoints',
 'Existing tests evaluate only in complete contexts with matching shapes; none looks at an error.',
 [S+'errors.rs',S+'ops/arithmetic/binary.rs',S+'ops/linalg/mod.rs',S+'ops/mod.rs',S+'meta/variable.rs',S+'meta/mod.rs',S+'buffers/vecs.rs',S+'buffers/shapes/runtime.rs'],
 [('BinaryError::{Left,Right,Output} mapping',S+'ops/'),('SourceError::Undefined',S+'meta/mod.rs'),('IncompatibleShapes',S+'buffers/shapes/mod.rs')],
 observe=['Result of evaluate / evaluate_spec / evaluate_shape / evaluate_adjoint / evaluate_dual'])
p('C08','Caching computes at most once and never changes a result',
 "A cached node whose slot is empty evaluates its inner expression once, stores exactly that value in its own slot and returns it; while the slot is filled it returns the stored value without evaluating the inner expression, until the slot is cleared or overwritten. If the inner evaluation fails the error is passed on and the slot stays empty, no other variable is ever touched, and wrapping a sub-expression in a cache with an empty slot changes neither the value nor the derivatives of the whole expression.",
 ['histories','programs','inputs'],'every history of evaluations, variable updates, slot resets and failures, over expressions with any number of (shared, nested) cached nodes',
 'The property is about histories of a shared mutable context; the tests evaluate a cached node once or twice.',
 [S+'meta/cached.rs',S+'lib.rs','aegir_derive/src/ctx/derive.rs'],
 [('Cached::evaluate read / evaluate / write',S+'meta/cached.rs'),('Cached::adjoint',S+'meta/cached.rs'),('#[cache] fields','aegir_derive/src/ctx/derive.rs')],
 state=[('cache slot','optional buffer in the context, addressed by the cache identifier','context field')],
 observe=['context contents and evaluation counts after each call'])
p('C09','Contexts are isolated maps from identifiers to buffers',
 "In every context declared with the provided macros, or written by hand by implementing only the required read and write, reading an identifier returns the last value written to it (or its initial value), writing one identifier never changes what any other identifier reads, cache fields are undefined until first written and plain fields are always defined, and reading structurally or reading only the shape agrees with reading the buffer. Fields that carry no identifier are left alone.",
 ['programs','histories','inputs'],'every context declaration (number and order of fields, cache or plain, any buffer class, generic or concrete) and every history of reads and writes',
 'The derive and declaration macros generate code per declaration; tests declare a few contexts and read them once.',
 ['aegir_derive/src/ctx/derive.rs','aegir_derive/src/ctx/ctx_type.rs',S+'lib.rs'],
 [('derive(Context)','aegir_derive/src/ctx/derive.rs'),('ctx_type!','aegir_derive/src/ctx/ctx_type.rs'),('ctx!, Read/Write default methods',S+'lib.rs')],
 state=[('context fields','current buffer of each identifier','generated struct')],
 observe=['Read::read/read_spec/read_shape','Write::write/write_spec'])
p('C10','Membership queries agree with dependence',
 "An expression reports that it contains an identifier exactly when some variable (or cache slot) with that identifier occurs anywhere in it, at any depth and under any operator, including operators defined by users through the derive macro. If it does not contain the identifier, changing that variable never changes its value and its derivative with respect to it is zero.",
 ['programs','inputs'],'every expression tree and identifier',
 'Generated per node type; tests query few trees.',
 ['aegir_derive/src/ops.rs',S+'meta/',S+'ops/linalg/mod.rs'],
 [('derive(Contains)','aegir_derive/src/ops.rs'),('Contains for Variable / Constant / Cached / adjoint leaves',S+'meta/')],
 observe=['Contains::contains'])
p('C11','The expression DSL builds the tree its notation denotes',
 "For every expression written in the aegir! language with +, -, *, ^, parentheses, numeric literals, variables and method calls, the macro produces exactly the node tree that the notation denotes under the operator precedence and left associativity of the Rust expression grammar: each infix operator is the node of the same name with its operands in order, a literal is a constant of that value, and raising to the literal power two is squaring. Builder methods on nodes construct the operator they are named after with the receiver as first operand. The notation means the same wherever it stands inside other Rust notation handed to the macro: in a block, a conditional, a match arm, a closure body, a tuple, an array, a call argument or a let statement.",
 ['programs'],'every expression of the DSL grammar',
 'The macro is a recursive syntax transformation; tests expand about a dozen fixed expressions of at most three operators.',
 ['aegir_compile/src/lib.rs',S+'lib.rs'],
 [('ConvertToAegir::fold_expr','aegir_compile/src/lib.rs'),('Node builder methods',S+'lib.rs')],
 observe=['type and contents of the node returned by aegir!'])
p('C12','The printed form of an expression denotes the expression',
 "The text an expression or an adjoint prints, read as ordinary mathematical notation (brackets, then powers, then products and quotients from left to right, then sums and differences), denotes a function with the same value as evaluating it, wherever both are defined. Parts simplified away when printing (terms known to be zero or one) are simplified correctly, and sub-expressions are bracketed whenever leaving the brackets out would change the meaning.",
 ['programs','inputs'],'every expression and every (repeated) adjoint of it, at every point of its domain',
 'Tests compare a few literal strings; the bracketing and zero/one simplification rules interact across all operator pairs.',
 [S+'fmt.rs',S+'ops/',S+'meta/variable.rs',S+'meta/constant.rs'],
 [('ToExpr::to_expr of each operator',S+'ops/'),('PreWrap::to_safe_string',S+'fmt.rs')],
 observe=['Display / ToExpr output'])
p('C13','Buffer operations act element by element in index order',
 "For every buffer class (scalars, tuples, vectors, arrays of every supported rank) and shape, mapping, in-place mutation, folding, summing and zipping two buffers (same shape, or a buffer with a scalar on either side) give at each index exactly the result of applying the function to the operands' entries at that index, with the left operand first; folds visit the indices once each in row-major order. Indexed access returns the entry for exactly the indices of the shape and nothing otherwise, and zipping vectors of different length is refused with both shapes in operand order.",
 ['inputs','configurations'],'every class, shape, function and buffer contents',
 'There are separate code paths per class, per rank and per side of the scalar; tests touch rank one or two with commutative functions.',
 [S+'buffers/arrays/buffer.rs',S+'buffers/arrays/zip_ops.rs',S+'buffers/scalars.rs',S+'buffers/tuples.rs',S+'buffers/vecs.rs',S+'buffers/mod.rs'],
 [('Buffer / ZipMap / ZipFold / ZipMut implementations',S+'buffers/')],
 observe=['return values of the buffer operations'])
p('C14','Shapes enumerate, join and broadcast their indices exactly',
 "Enumerating a shape's indices yields every index of the shape exactly once, in row-major order, as many as its cardinality, and exactly those that it contains; at every point of an enumeration the reported number of remaining indices is exact. Concatenating shapes appends dimensions (and indices) in order and splitting undoes it, a scalar shape is neutral for broadcasting, and two shapes broadcast together only if they are equal.",
 ['inputs','configurations','histories'],'every static and run-time shape (including zero-length and one-length axes), and every prefix of an enumeration',
 'Tests look at few shapes; the multi-axis iterator is stateful and has rank-specific code for each static shape.',
 [S+'buffers/shapes/compiled.rs',S+'buffers/shapes/runtime.rs',S+'buffers/shapes/multi_product.rs',S+'buffers/shapes/mod.rs'],
 [('Shape / Concat / Split / Broadcast implementations',S+'buffers/shapes/'),('MultiProduct iterator',S+'buffers/shapes/multi_product.rs')],
 state=[('iterator position','odometer over the axes',S+'buffers/shapes/multi_product.rs')],
 observe=['indices(), size_hint(), count(), contains(), cardinality(), concat(), split(), broadcast()'])
p('C15','Tensor contractions equal the Einstein sum in every representation',
 "For every pair of operands that supports it, the tensor product has the entries x[i..]*y[j..], and the dot product is the sum over the last axis of the left and the first axis of the right operand. Contracting structured operands (full or diagonal) and materialising gives the same buffer as contracting the materialised operands, and the predicted shape is the shape of the result.",
 ['inputs','configurations'],'every supported rank pair, shape and mix of structural forms, all contents',
 'One hand-written kernel and one hand-written table of structural cases per rank pair; tests cover four dense square cases.',
 [S+'buffers/arrays/contraction_ops.rs',S+'buffers/mod.rs',S+'ops/linalg/mod.rs'],
 [('Contract::contract / contract_spec / contract_shape',S+'buffers/arrays/contraction_ops.rs')],
 observe=['contract, contract_spec, contract_shape'])
p('C16','Dual numbers obey first-order arithmetic',
 "Arithmetic on dual numbers (negation, sum, difference, product, with duals or plain numbers, by value or by reference, and conjugation) is arithmetic of polynomials a + b*e with e*e = 0, where plain numbers and constants have a zero and variables a unit adjoint. Hence evaluating any composition of these operations on a variable gives the value together with the exact derivative.",
 ['inputs','programs','histories'],'every sequence of dual operations and all component values',
 'Tests check single operations at a few points, and mixed dual/plain products not at all.',
 [S+'dual.rs'],[('std::ops implementations for Dual',S+'dual.rs'),('dual! macro',S+'dual.rs')],
 observe=['value and adjoint components'])
p('C17','Operators behave at special floating-point values and match their derivatives',
 "On floating-point scalars the operators take their limit values at special inputs and nowhere produce NaN or infinity that the function does not have: the sigmoid stays within [0,1], is monotone, symmetric and exact at the infinities; x ln x is zero for x <= 0; sign and absolute value respect zero and infinities; the Dirac delta is infinite at zero only. At ordinary points every operator agrees with the standard function of that name and each derivative with the slope of that function, to within rounding.",
 ['inputs'],'all f64 and f32 inputs: zeros of both signs, subnormals, one, huge values, infinities, NaN and ordinary points',
 'Tests use a few ordinary points.',
 [S+'ops/sigmoid.rs',S+'ops/logarithmic.rs',S+'ops/arithmetic/unary.rs',S+'ops/trig.rs',S+'ops/special.rs'],
 [('scalar kernels of the unary operators',S+'ops/')],
 observe=['Function::evaluate on f64/f32'])
p('C18','Identifiers are distinct and print their declared symbol',
 "Identifiers declared together are pairwise different and each equals itself, in comparisons, in membership queries and in context look-ups. Every identifier prints the symbol it was declared with, or its own name if none was given, and the predefined identifiers print the Latin or Greek letter they are named after.",
 ['programs','configurations'],'every declaration list and every pair of identifiers',
 'Generated code per declaration; tests declare few identifiers and print fewer.',
 ['aegir_derive/src/ids.rs',S+'lib.rs'],
 [('ids! expansion','aegir_derive/src/ids.rs'),('predefined identifiers',S+'lib.rs')],
 observe=['==, Display'])
p('C19','Buffer constructors and structural wrappers denote the right buffer',
 "Building, filling, zeroing, subset-building, diagonal and identity construction of every class and shape put exactly the specified value at every index (the diagonal being the indices whose components are all equal). A structural wrapper has the shape of the buffer it denotes, and materialising, mapping or zipping wrappers gives the same entries as doing the same to the materialised buffers, even when the mapped function does not preserve zero.",
 ['inputs','configurations'],'every class, shape, wrapper form, function and value',
 'Separate code per class/rank and per structural form; tests cover very little of it.',
 [S+'buffers/spec.rs',S+'buffers/mod.rs',S+'buffers/arrays/buffer.rs',S+'buffers/tuples.rs',S+'buffers/vecs.rs',S+'buffers/scalars.rs'],
 [('Class::build / build_subset / full / diagonal / identity',S+'buffers/'),('Spec::unwrap / map / zip_map / zeroes / ones / eye',S+'buffers/spec.rs')],
 observe=['constructed buffers and Spec results'])
p('C20','Evaluation is repeatable and all evaluation routes agree',
 "Evaluating an expression or adjoint does not change any variable of the context, so repeating it gives the same result, and evaluations can be interleaved in any order without influencing each other. The value and adjoint returned jointly are those returned by separate evaluation and adjoint evaluation, cloning an expression gives an expression with the same behaviour, and updating a variable affects exactly the later evaluations of expressions that contain it.",
 ['histories','programs','inputs'],'every history of evaluations, differentiations, updates and clones over a pool of expressions and one shared context',
 'Tests perform single evaluations in fresh contexts.',
 [S+'lib.rs',S+'meta/',S+'ops/'],
 [('AsMut<C> context threading',S+'lib.rs'),('evaluate_adjoint / evaluate_dual provided methods',S+'lib.rs')],
 state=[('context','variable and cache contents','user context')],
 observe=['results and context contents after each call of a session'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+'\n')
