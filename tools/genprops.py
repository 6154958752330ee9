import json
P=[]
import glob,os
def anch(a):
    files=[];mech=[]
    for x in a:
        f,_,n=x.partition(': ')
        g=sorted(os.path.relpath(y,'/repo') for y in glob.glob('/repo/'+f)) or [f]
        files+=[y for y in g if '__init__' not in y and y not in files]
        mech.append(dict(name=n or os.path.basename(f),where=f))
    return dict(files=files,mechanism=mech)
def p(id,title,statement,over,qtext,why,anchors):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=anch(anchors)))
p('C01','Geometric product of basis blades follows the signature in every dimension',
 'For every signature of +, - and null generators up to the supported dimension, the product of two basis blades is the blade holding the generators that occur in exactly one of them. Its sign is -1 to the power of the number of transpositions needed to sort the concatenated generators plus the number of shared generators squaring to -1, and the product is zero exactly when a shared generator squares to 0. Grades are the exact number of generators in a blade, whatever the size of the bit representation.',
 ['inputs','configurations'],'all signatures with 1..32 generators, all pairs of blades',
 'The unit tests tabulate signatures with at most four or five generators; blades above eight generators use other integer widths, and the number of signatures and blade pairs is exponential.',
 ['numga/algebra/algebra.py: Algebra.product, cayley, bit_dot, grade, pseudo_scalar_squared','numga/algebra/bitops.py: bit_count, parity_to_sign, minimal_uint_type'])
p('C02','Algebra descriptions preserve generator order, names and signs',
 'However an algebra is described (name/sign string, (p, q, r) counts, sign string, or the product of two algebras) its generators, their names and their signs are those written, in the order written, and bit i of every blade stands for generator i. The positive, negative and null masks partition the generators, the derived counts and strings agree with them, and blade names written and parsed refer to the same generators. Algebras that share a generator name cannot be multiplied.',
 ['inputs','configurations'],'all signatures and generator names up to 32 generators',
 'Tests use a handful of short, mostly positive-first signatures; order mistakes are invisible whenever the signature is uniform or a palindrome.',
 ['numga/algebra/description.py: AlgebraDescription, parse_description','numga/algebra/algebra.py: Algebra.negatives/zeros/positives/__mul__','numga/algebra/bitops.py: bit_pack, biterator','numga/multivector/factory.py: MultiVectorFactory.__getattr__','numga/subspace/factory.py: SubSpaceFactory.__getattr__'])
p('C03','Equal blade sets are one canonically ordered, immutable subspace',
 'Within one algebra, two subspaces with the same set of blades are the same object however and in whatever order they were requested, and two different blade sets are never confused. The blade order is a fixed function of the set (grade first, then a fixed total order within a grade), so component positions agree between all producers and consumers, and the blades of a subspace can never change after creation.',
 ['inputs','histories'],'all blade lists, all orders of construction, all dimensions',
 'Every cached operator, dispatch decision and component layout is keyed on subspace identity; a confusion needs two particular blade sets in one process, which no sampled history covers.',
 ['numga/subspace/factory.py: from_blades, order_blades, from_grades','numga/flyweight.py: FlyweightFactory.factory_construct, FlyweightMixin','numga/subspace/subspace.py: SubSpace.__init__, slice_subspace'])
p('C04','Subspace algebra and named subspaces mean the sets their names say',
 'Intersection, union, difference, complement, containment and the degenerate/nondegenerate parts of subspaces are the corresponding operations on sets of blades. Every named subspace contains exactly the blades its name describes (k-vectors, anti-k-vectors, even, odd, self-reverse, degenerate, empty, full and so on) in every algebra. The inside / equals / select / restrict query syntax on subspaces and multivectors gives the corresponding containment, equality, extension-to and intersection-with results.',
 ['inputs','configurations'],'all subspaces of all algebras',
 'Set laws quantify over all pairs of subspaces; tests compare a few named subspaces in a few low dimensional algebras where several of them coincide.',
 ['numga/subspace/subspace.py: intersection, union, difference, is_subspace, complement, ...','numga/subspace/factory.py: k_vector, even_grade, ...','numga/subspace/namespaces.py','numga/multivector/namespaces.py'])
p('C05','Involution and dual operators carry the exact per-blade sign',
 'Reversion, grade involution, conjugation, scalar negation, pseudoscalar negation, the complements and the left/right Hodge duals map each blade to the blade and sign their definitions prescribe, in every signature and dimension: reversion gives (-1)^(k(k-1)/2) on grade k, the complement duals satisfy v ^ d(v) = I and d(v) ^ v = I, the Hodge duals add the metric sign of v. The inverse duals undo the duals exactly.',
 ['inputs','configurations'],'all blades, all signatures with up to 32 generators',
 'Signs depend on grade modulo 4, on the position of each generator and on the signature; tests pin them in three dimensions.',
 ['numga/operator/factory.py: reverse, involute, conjugate, scalar_negation, pseudoscalar_negation, study_conjugate, right/left_complement(_dual), right/left_hodge(_inverse)','numga/algebra/algebra.py: reverse, involute, complement'])
p('C06','Grade-selected products keep exactly the grades that define them',
 'The wedge, inner, scalar, left- and right-contraction, bivector and n-vector products are the geometric product restricted to the output grades l+r, |l-r|, 0, r-l, l-r, 2 and the requested subspace respectively, for every combination of input grades l and r; the sandwich product keeps exactly the grades of the argument it transforms. The selection depends on grades only, is applied to the original inputs before other operators are bound, and never alters the kept coefficients.',
 ['inputs','configurations'],'all grades l, r, o in 0..n for n up to 32, all subspaces',
 'The product tables are only pinned in at most four dimensions; grade coincidences (l-r wrapping, equal grades, narrow integer types) appear in mixed-grade or high dimensional inputs.',
 ['numga/operator/factory.py: make_product and all *_product','numga/operator/operator.py: grade_selection, restrict/select'])
p('C07','Composite operators compute the formula they are named after',
 'Each derived operator (reverse/involute/conjugate/negation products and their symmetric versions, squared, cubed, commutators, anti-products, regressive, interior products, sandwiches, transform, inverse factors, inertia) is exactly the composition of elementary operators given by its definition, with each argument in the stated slot. Arguments declared to be the same multivector are symmetrised over exactly the slots that receive it, so the value on equal arguments is unchanged.',
 ['inputs','configurations'],'all input subspaces and signatures',
 'The compositions are equalities of multilinear maps over every subspace and signature; tests evaluate a few in low dimensions where conjugate, reverse and involute often agree.',
 ['numga/operator/factory.py: composite operators','numga/multivector/multivector.py: sandwich, transform, inverse_factor'])
p('C08','Operator composition, slicing and symmetrisation preserve the multilinear map',
 'Binding operators into slots of an operator, slicing inputs, selecting or restricting outputs, dropping zero outputs, exchanging or summing inputs and adding operators are the corresponding operations on multilinear maps: kernel axis i always belongs to the subspace listed at position i, for every arity and slot. Symmetrising leaves the value on equal arguments unchanged, and no operation changes or merges coefficients of unrelated components. Selecting or restricting the components of an operand, itself possibly an operator, composes with it. A Cayley table of signed blades becomes the kernel that carries each sign at the position of its input blades and output blade, and nothing elsewhere.',
 ['inputs'],'all kernels, arities, slots, and subspaces',
 'Axis permutation mistakes vanish when axes have equal size or the kernel is symmetric; most tests use arity two operators with equal inputs.',
 ['numga/operator/operator.py: Operator','numga/operator/sparse_tensor.py: SparseTensor'])
p('C09','Multivector methods and operators apply the operation they name',
 'Every method and overloaded Python operator on a multivector evaluates the operation it names with self and other in the right order: reflected forms swap the operands, the operator used is always the one built for the actual subspaces of the actual arguments, and each argument reaches the slot built for it. Maps obtained by pre-binding a multivector (sandwich map, inertia map) agree with the full operation.',
 ['inputs','configurations'],'all multivectors and operand types, all subspaces',
 'Operand order and operator choice errors are invisible for commuting or equal operands, which is what simple tests use.',
 ['numga/multivector/multivector.py: AbstractMultiVector'])
p('C10','All execution strategies and backends evaluate the same multilinear map',
 'On every backend (numpy, jax, torch, plain python) and for every execution strategy (dense, einsum, sparse) applying an operator to its inputs yields, in each output component, exactly the kernel-weighted sum of products of input components, broadcast over leading batch axes. Output components without contributions are zero and the result lives in the output subspace of the operator.',
 ['inputs','configurations'],'all kernels, arities, batch shapes and broadcasting patterns, all backends and strategies',
 'Agreement has to hold for every kernel, arity and broadcast pattern; tests run one backend on a few shapes and several strategies are never executed.',
 ['numga/backend/*/operator.py: __call__, broadcast_allocate','numga/operator/abstract.py: precompute_sparse, precompute_einsum_partial, broadcasting_shapes'])
p('C11','Partial application agrees with full application',
 'Binding any subset of the arguments of an operator, in any order and in any number of steps, and then supplying the rest gives the same multivector as supplying all at once, on every backend that provides partial application and including batched arguments. The remaining operator lists the remaining input subspaces in their original order followed by the output subspace.',
 ['inputs','histories'],'all operators, all subsets of bound arguments, all orders',
 'The number of subset/order combinations grows with arity and needs distinct subspaces per slot to show an axis mix-up.',
 ['numga/backend/*/operator.py: partial, inverse, transpose, sum','numga/operator/abstract.py: precompute_einsum_partial'])
p('C12','Backend math primitives compute the function they are named after',
 'Every elementary array function offered by a backend context (sqrt, exp, log, pow, abs, cos, sin, where, min, argmin, all, isnan, nan_to_num, logical operations, array coercion and allocation) is the elementwise or reducing function of that name, with arguments in the stated order, and is offered wherever multivector methods rely on it. The same call means the same thing on each backend.',
 ['inputs','configurations'],'all primitives of all backends, all arguments',
 'Coverage of the product of backends and primitives is not attempted by the tests; swapped or missing primitives only surface on rarely used paths.',
 ['numga/backend/*/context.py','numga/context.py','numga/multivector/multivector.py: sqrt, invsqrt, abs, cos, sin, nan_to_num'])
p('C13','Operations never modify their operands',
 'Applying any method, operator or functional update (including copy, negation, addition, at[...].set and partial application) leaves all input multivectors, operators, subspaces and user arrays unchanged, so a value read before and after an operation is identical. Results of a copy or functional update do not share writable storage with the original.',
 ['inputs','histories'],'all operations and all later uses of their arguments',
 'Aliasing shows only when an operand is reused after the operation; tests usually consume operands once.',
 ['numga/multivector/multivector.py: copy, at, combine','numga/backend/*/context.py: set_array','numga/backend/*/operator.py','numga/multivector/extension/*.py'])
p('C14','Dispatch picks the first applicable rule, independent of call history',
 'A subspace-dispatched method (inverse, exp, log, norms, roots, decompositions) runs the first registered implementation whose condition accepts the actual subspaces of all arguments in order, and raises if there is none. The choice depends only on those subspaces and the currently registered rules, not on earlier calls; every condition really tests the subspace it is given and accepts only subspaces on which its implementation is correct.',
 ['inputs','histories'],'all registered rules, all argument subspaces, all call and registration histories',
 'The outcome must not depend on history or rule order; tests exercise one rule per subspace in one fixed order.',
 ['numga/dynamic_dispatch.py','numga/multivector/extension/*.py'])
p('C15','Caches return what a fresh computation would',
 'Every memoised operator, subspace, string, expression or basis object is a function of exactly the data in its key together with immutable state, so two requests that could have different answers never share a cache entry. This holds across different subspaces, argument orders, operator names, backends, execution strategies, contexts and algebras used in one process.',
 ['histories','inputs'],'all sequences of requests in a process',
 'A stale or shared entry needs two specific requests in one process in a specific order.',
 ['numga/context.py: ConcreteOperatorFactory','numga/operator/factory.py: @cache methods','numga/subspace/subspace.py: @cache methods','numga/operator/abstract.py: precompute_*','numga/dynamic_dispatch.py','numga/util.py'])
p('C16','Backend-agnostic code is traceable: no data-dependent control flow',
 'Which code path, operator, subspace and output type an operation uses is a function of subspaces and shapes only, never of component values, so operations can be traced, batched and differentiated by jax and differentiated by torch. Component values are only combined by differentiable array operations of their own backend, no array made while tracing is kept in a cache or object that outlives the trace, and a jax multivector flattens to its components with subspace and context as static data.',
 ['inputs'],'all component values, including traced ones',
 'A data-dependent branch gives right results on every eagerly evaluated concrete input and fails or silently freezes only under tracing.',
 ['numga/multivector/multivector.py','numga/multivector/extension/*.py','numga/backend/jax/*.py','numga/backend/torch/*.py'])
p('C17','Addition, subtraction and negation act componentwise on the union of subspaces',
 'For multivectors a, b of any subspaces, a+b and a-b live in the union of their subspaces and each component is the sum or difference of the corresponding components, absent ones counting as zero, on every backend. Numbers and arrays behave as scalars from either side, so x-a is -(a-x), with arrays of any shape being batches of scalars; batch axes broadcast. Selecting a subspace yields exactly that subspace, restricting yields its intersection with the operand\'s; both keep the components of the blades kept, in place, and fill the rest with zeros.',
 ['inputs','configurations'],'all pairs of subspaces, operand types, and batch shapes',
 'Sign, order and layout slips hide when subspaces are equal or nested, or operands are on the usual side.',
 ['numga/multivector/multivector.py: combine, __add__.., upcast, select_subspace, restrict_subspace','numga/operator/factory.py: select, restrict'])
p('C18','The last axis of a multivector is its component axis under every array operation',
 'For every multivector the length of the last storage axis equals the dimension of its subspace and its shape is the leading batch axes only. Batch operations (indexing, concatenation, taking along an axis, sums and means over batch axes, reshaping, rearranging and repeating by pattern, flattening, batched operator application) act on batch axes only and commute with taking components; reduction and concatenation axes are counted in the storage array, whose last axis is the component axis; unspecified values default to the multiplicative unit.',
 ['inputs','configurations'],'all batch shapes, axes, and index expressions, on all backends',
 'Component/batch axis confusions disappear for square shapes or rank-one batches, which tests prefer.',
 ['numga/backend/*/multivector.py: construct, shape, __getitem__, concatenate, take_along_axis, sum, mean, reshape','numga/backend/*/operator.py: shape, broadcast_allocate'])
p('C19','Inverse, norm and root rules use matching numerator and denominator',
 'Each rule for inverting, normalising or taking roots of a multivector is an identity under the condition that selects it: an inverse rule divides an involution of x by the product of x with that same involution, and is chosen only if that product is simpler; norms are the symmetrised reverse product; the square root of a Study number s is c + ns/(2c) with c*c = (s0 + |s|)/2; the degenerate exponential is 1 + b; quadratic exponential and logarithm are each other\'s inverse by construction; the linear algebra inverse solves the equations of x * y = 1.',
 ['inputs','configurations'],'all subspaces selected by the condition of each rule, all signatures',
 'The identities are algebraic and must hold for every subspace the condition accepts; numeric tests sample a few subspaces where different involutions coincide.',
 ['numga/multivector/extension/inverse.py','numga/multivector/extension/norms.py','numga/multivector/extension/roots.py','numga/multivector/extension/logexp.py','numga/multivector/extension/decompose.py','numga/subspace/subspace.py: is_*_n_simple'])
p('C20','Multivectors constructed by name live on the space of that name',
 'The constructors of context.multivector (scalar, vector, bivector, trivector, pseudoscalar, antivector, antibivector, antitrivector, k_vector, even_grade, motor, rotor, empty, multivector and calling the namespace) build a multivector of the backend, in that context, on the subspace of that name, with exactly the components given; no subspace means the full space. An attribute that is a blade name, such as yx, is the wedge of the named generators in the order written (so yx = -xy and xx = 0); basis() is the unit vectors in generator order and blade(b, s) has the component s on the blade b. The namespaces of a context belong to that context.',
 ['inputs','configurations'],'all constructor names, grades, dimensions, blade names and generator names, all backends',
 'Tests construct a handful of named multivectors in three or four dimensions, where names counted from the top and from the bottom coincide, and never spell long or unsorted blade names.',
 ['numga/multivector/factory.py: MultiVectorFactory','numga/context.py: AbstractContext'])
p('C21','Example integrators have their order and the rigid body step is invertible',
 'RK1, RK4 and RK8 return y plus h times a combination of stage derivatives and satisfy every rooted-tree order condition up to order 1, 4 and 7 (ten stages cannot reach order 8, but the weights of RK8 integrate polynomials of degree 7 exactly), for every derivative, state and step. A rigid body advances its motor by the exponential of -dt/2 times its integrated local rate, and an unconstrained step reads back exactly that rate.',
 ['inputs'],'all right hand sides, states and step sizes',
 'A wrong coefficient of a high order method still converges, only slower, which no test of a trajectory with a tolerance notices; order is a statement about all right hand sides.',
 ['numga/examples/integrators.py','numga/examples/physics/core.py: motor_add_step, motor_relative_step, Body'])
p('C22','Opt-in optimised rules compute the exact exponential and normalisation',
 'Once numga.multivector.extension.optimized is imported, each of its rules is chosen only for algebras and subspaces whose memory layout and signature its formula assumes, and returns what the operation it replaces is defined to be: the exponential M of a bivector b satisfies d/dt exp(tb) = b exp(tb) and exp(0) = 1, including zero and null bivectors, where exp(b) = 1 + b; the normalised motor n of m has n ~n = 1 and is m times a study number with ~m n having scalar part |m|. Every component of the result is written and the operand is left unchanged.',
 ['inputs'],'all bivectors and motors, including zero and null ones',
 'The existing tests compare one random bivector and one batch of random motors with the generic rules; zero, pure translations, other algebras with equal blade names and aliasing of the operand never occur in them.',
 ['numga/multivector/extension/optimized.py'])
p('N01','Iterative exp, log and normalisation converge to the exact values',
 'For normalised motors and bivectors of moderate size, the bisection exponential and logarithm, the numerical motor normalisation and the inverse by Shirokov or linear algebra approximate the exact result to the precision of the dtype.',
 ['inputs'],'all well conditioned multivectors',
 'Convergence and rounding error have to be bounded for every input, not observed on samples.',
 ['numga/multivector/extension/logexp.py: exp_bisect, motor_log_bisect','numga/multivector/numerical_normalize.py','numga/multivector/multivector.py: inverse_shirokov','numga/backend/*/multivector.py: inverse_la'])
p('N02','Physics integrators conserve what they claim to conserve',
 'The rigid body integrators of the examples conserve energy and momentum up to the order of the scheme, and constraint solving converges for feasible constraint sets.',
 ['inputs','histories'],'all initial conditions and step counts',
 'Long-run drift depends on every trajectory.',
 ['numga/examples/physics/core.py','numga/examples/integrators.py'])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
