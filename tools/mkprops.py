"""Writes /verif/properties.jsonl (kept as a script only so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    P.append(d)

G = 'e2cnn/group/groups/'
prop('C01', 'Every symmetry group obeys the group laws on its elements',
 'For the cyclic groups, dihedral groups, SO(2) and O(2), composing two elements always gives an element, composition is associative, the identity is neutral on both sides, and the inverse of an element undoes it on both sides. Element equality is an equivalence that composition and inversion respect (angles are compared modulo a full turn). A finite group lists exactly as many pairwise different elements as its order, all of them members, and values outside the group are not members.',
 ['inputs', 'configurations'], 'all groups (every order N), all pairs and triples of elements, including out-of-range angles for the continuous groups',
 'the tests sample a few small orders and random elements; the laws must hold for every order and every element',
 [G+'cyclicgroup.py', G+'dihedralgroup.py', G+'so2group.py', G+'o2group.py', 'e2cnn/group/group.py', 'e2cnn/group/utils.py'],
 [('modular arithmetic of combine/inverse/equal/is_element', G+'*.py'), ('Group.order, Group.elements, Group.identity', 'e2cnn/group/group.py')],
 ['Group.combine', 'Group.inverse', 'Group.equal', 'Group.is_element', 'Group.elements'])
prop('C02', 'Subgroup embeddings are exact: homomorphic, injective, invertible',
 'For every valid subgroup identifier of every group, the map from the subgroup into the group is an injective homomorphism, and the map back returns exactly the subgroup element for members and nothing for non-members. The image is the subgroup the identifier describes: the rotations of the stated order and, when a reflection axis is given, the reflection about that axis. Embedding through an intermediate subgroup agrees with embedding directly.',
 ['inputs', 'configurations'], 'all groups, all valid subgroup identifiers (order, reflection axis), all elements of both groups',
 'the tests restrict representations for a few small orders; they never check the maps themselves for all elements, axes and non-members',
 [G+'cyclicgroup.py', G+'dihedralgroup.py', G+'so2group.py', G+'o2group.py', 'e2cnn/group/group.py'],
 [('Group.subgroup(id) -> (subgroup, parent map, child map)', G+'*.py: subgroup')], ['Group.subgroup'])
prop('C03', 'Irreducible representations are orthogonal, faithful to the group law, complete',
 'Every irreducible representation of every group maps the identity to the identity matrix, products to products of matrices, is orthogonal, and reports a character equal to the trace of its matrix. Different irreps are inequivalent and each is irreducible over the reals with the declared commutant type; for a finite group they are all of them. The set of irreps available is the one advertised by the group for its maximum frequency.',
 ['inputs', 'configurations'], 'all groups, all frequencies, all pairs of elements',
 'the tests sample few orders and random angles; the laws are universally quantified over order, frequency and element',
 [G+'cyclicgroup.py', G+'dihedralgroup.py', G+'so2group.py', G+'o2group.py', 'e2cnn/group/irrep.py', 'e2cnn/group/utils.py'],
 [('irrep constructors and their matrix/character functions', G+'*.py: irrep, build_representations'), ('psi, chi, psichi', 'e2cnn/group/utils.py')],
 ['Group.irrep', 'Group.irreps', 'IrreducibleRepresentation.__call__'])
prop('C04', 'Constructed representations are what their construction defines',
 'Direct sums, changes of basis, regular, quotient and induced representations evaluate on every group element to the matrices their mathematical definition gives: block diagonals, conjugations, permutation matrices of the group or coset action, and the induced block matrices whose first block restricted to the subgroup is the inducing representation. Every representation is an orthogonal or invertible homomorphism whose recorded irreps and change of basis reconstruct its matrices, and its recorded size, character and trivial/irreducible flags (which refer to the standard basis) agree with them. Decomposing a representation into blocks or irreps and recomposing gives the original back.',
 ['inputs', 'configurations'], 'all groups, all constructions over all irreps/subgroups, all elements',
 'the tests check a handful of small cyclic/dihedral groups with random sums; the definition must hold for every construction, subgroup and element',
 ['e2cnn/group/representation.py', 'e2cnn/group/group.py', G+'cyclicgroup.py', G+'dihedralgroup.py', G+'so2group.py', G+'o2group.py'],
 [('Representation constructor and __call__', 'e2cnn/group/representation.py'), ('directsum, disentangle, change_basis, build_regular_representation, build_quotient_representation, build_induced_representation', 'e2cnn/group/representation.py'), ('Group.*_representation', 'e2cnn/group/group.py')],
 ['Representation.__call__', 'Representation.irreps', 'Representation.change_of_basis', 'Group.regular_representation', 'Group.quotient_representation', 'Group.induced_representation'])
prop('C05', 'Restricting a representation to a subgroup preserves its matrices',
 'For every representation and every subgroup, the restricted representation evaluated at a subgroup element equals the original evaluated at the embedded element. It is a representation of that very subgroup, of the same size, and its recorded irreps are irreps of the subgroup that together with its change of basis reconstruct it. Restricting in two steps agrees with restricting directly.',
 ['inputs', 'configurations'], 'all groups, subgroups, frequencies, reflection axes and subgroup elements',
 'the tests cover a few orders and axes with small irreps; the aliasing of frequencies and axis phases must be right for all of them',
 [G+'cyclicgroup.py', G+'dihedralgroup.py', G+'so2group.py', G+'o2group.py', 'e2cnn/group/group.py', 'e2cnn/group/representation.py'],
 [('_restrict_irrep', G+'*.py'), ('Group.restrict_representation', 'e2cnn/group/group.py'), ('Representation.restrict', 'e2cnn/group/representation.py')],
 ['Group.restrict_representation', 'Representation.restrict'])
prop('C06', 'Every kernel basis element satisfies the steerability constraint',
 'For every planar symmetry space, every pair of input and output representations, every element of the kernel basis built for them, every point of the plane and every group element g, the kernel at the transformed point g.x equals the output representation of g times the kernel at x times the inverse input representation of g. This holds for every reflection axis and for representations with any change of basis. The kernel shapes reported match the sampled arrays.',
 ['inputs', 'configurations'], 'all groups acting on the plane, irreps/representations, points, group elements, reflection axes, frequencies',
 'the tests sample few points/elements and irreps; the constraint is an identity in angle, radius, group element, axis and frequency',
 ['e2cnn/kernels/irreps_basis.py', 'e2cnn/kernels/basis.py', 'e2cnn/kernels/steerable_basis.py', 'e2cnn/kernels/r2.py', 'e2cnn/kernels/utils.py'],
 [('irrep solution classes: coefficients and sample', 'e2cnn/kernels/irreps_basis.py'), ('radial x angular composition, change of basis', 'e2cnn/kernels/basis.py, e2cnn/kernels/steerable_basis.py')],
 ['KernelBasis.sample', 'kernels_*_act_R2'])
prop('C07', 'The kernel basis is complete, non-redundant and honours its frequency limits',
 'Within the requested maximal angular frequency, the angular kernels built for any two representations span every kernel satisfying the steerability constraint and are linearly independent. No element has a frequency above the limit, and every solution within the limit is present, each combined with each radial ring. The reported number of elements and the per-element descriptions agree with the elements produced.',
 ['inputs', 'configurations'], 'all groups, pairs of representations and frequency limits',
 'the tests never compare the number of elements with the dimension of the solution space, so a silently missing or duplicated kernel is invisible to them',
 ['e2cnn/kernels/irreps_basis.py', 'e2cnn/kernels/basis.py', 'e2cnn/kernels/steerable_basis.py', 'e2cnn/kernels/r2.py', 'e2cnn/kernels/utils.py'],
 [('offset_iterator and the enumeration of frequencies/offsets', 'e2cnn/kernels/utils.py, e2cnn/kernels/irreps_basis.py'), ('IrrepBasis/SteerableKernelBasis dimension and iteration', 'e2cnn/kernels/steerable_basis.py')],
 ['KernelBasis.dim', 'KernelBasis.sample', 'KernelBasis.__iter__'])
prop('C08', 'Group elements act on the plane and on feature fields as a group action',
 'The transformation of a feature field by a group element moves the base plane by the corresponding rotation/reflection (about the declared axis) and mixes channels by the field representation; the identity changes nothing, and transforming by g then h equals transforming by their product, exactly so for elements that map the pixel grid to itself. Restricting a symmetry space to a subgroup keeps the geometry: each subgroup element moves the plane exactly as the element it is embedded as. Two symmetry spaces compare equal only if their elements act identically.',
 ['inputs', 'configurations', 'histories'], 'all planar symmetry spaces, axes, restriction chains, grid-preserving elements, tensors',
 'the tests transform a few random tensors; exactness on grid symmetries and geometric consistency over all restriction chains are not reachable by sampling',
 ['e2cnn/gspaces/gspace.py', 'e2cnn/gspaces/r2/general_r2.py', 'e2cnn/gspaces/r2/*.py', 'e2cnn/nn/field_type.py', 'e2cnn/nn/geometric_tensor.py'],
 [('featurefield_action, _basespace_action, restrict', 'e2cnn/gspaces/'), ('FieldType.transform/restrict, GeometricTensor.transform/restrict', 'e2cnn/nn/')],
 ['GSpace.featurefield_action', 'GSpace.restrict', 'FieldType.transform', 'GeometricTensor.transform'])
prop('C09', 'Steerable convolutions are equivariant for all weights',
 'For every choice of weights and every input, the steerable convolution and its transposed version commute with every transformation that maps the pixel grid to itself (and with grid translations), up to floating-point rounding, for all symmetry spaces, field types, kernel sizes, strides, dilations and group counts whose sampling grid is itself symmetric. The expanded filter satisfies the discrete steerability constraint at every tap and the bias is invariant under the output representation and only on trivial components. The result equals an ordinary convolution of the input with the expanded filter and bias and the declared padding, stride, dilation and groups.',
 ['inputs', 'configurations'], 'all weights, inputs, field types, symmetry spaces, kernel/stride/dilation/groups/padding settings',
 'the repository tests of convolution sample one random weight vector in a few configurations (and several are skipped as too slow); linearity in weights and inputs lets a proof cover all of them',
 ['e2cnn/nn/modules/r2_conv/r2convolution.py', 'e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py', 'e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py', 'e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py'],
 [('expand_parameters, forward', 'e2cnn/nn/modules/r2_conv/r2convolution.py, r2_transposed_convolution.py'), ('compute_basis_params, bias_expansion', 'e2cnn/nn/modules/r2_conv/r2convolution.py'), ('BlocksBasisExpansion', 'e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py')],
 ['R2Conv.forward', 'R2Conv.expand_parameters', 'R2ConvTransposed.forward'])
prop('C10', 'Steerable differential operators are exact and equivariant',
 'Every steerable partial differential operator produced for two representations commutes with the group actions, as an identity of polynomials in the symbols of the partial derivatives, and the operators are linearly independent and complete up to the requested order. The finite-difference stencil of an operator applied to any polynomial whose degree it can resolve gives the exact derivative, on every grid size that has enough points. The differential-operator layer equals a convolution with the expanded stencils and commutes with grid rotations for all weights.',
 ['inputs', 'configurations'], 'all groups, irreps, orders, grids, weights',
 'tests sample small orders and random polynomials, and the layer test is skipped in the stable suite',
 ['e2cnn/diffops/utils.py', 'e2cnn/diffops/basis.py', 'e2cnn/diffops/irreps_basis.py', 'e2cnn/diffops/steerable_basis.py', 'e2cnn/diffops/r2.py', 'e2cnn/nn/modules/r2_conv/r2diffop.py'],
 [('irrep solutions and Laplace profile', 'e2cnn/diffops/irreps_basis.py, basis.py'), ('discretize_homogeneous_polynomial', 'e2cnn/diffops/utils.py'), ('R2Diffop.expand_parameters', 'e2cnn/nn/modules/r2_conv/r2diffop.py')],
 ['DiffopBasis.sample', 'R2Diffop.forward'])
prop('C11', 'Training, evaluation and exported forms of a layer agree',
 'After any sequence of switching between training and evaluation mode, parameter updates made in training mode, and saving and loading (in evaluation mode, as documented), a convolution-like layer in evaluation mode computes exactly what it computes in training mode with its current parameters, with no stale filters. Exporting a layer or a chain of layers yields a plain network that computes the same function on raw tensors for every input size, with the same convolution, pooling and normalisation settings. Saving a state in evaluation mode and loading it into a freshly built identical layer reproduces its output.',
 ['inputs', 'configurations', 'histories'], 'all layers with an export, all settings, all histories of train/eval/load/update',
 'the tests export a few configurations at one input size and never interleave mode switches with updates and loading',
 ['e2cnn/nn/modules/r2_conv/*.py', 'e2cnn/nn/modules/*.py', 'e2cnn/nn/modules/batchnormalization/*.py', 'e2cnn/nn/modules/pooling/*.py', 'e2cnn/nn/modules/nonlinearities/*.py', 'e2cnn/nn/modules/invariantmaps/gpool.py'],
 [('train/eval filter caching', 'R2Conv.train, R2Diffop.train, R2ConvTransposed.train'), ('export of each module', 'e2cnn/nn/modules/')],
 ['EquivariantModule.export', 'Module.train/eval', 'state_dict/load_state_dict'])
prop('C12', 'Results do not depend on what was built before',
 'The groups, representations, kernels, differential operators and layers obtained for given arguments are the same whatever was requested earlier in the process: caches never return an object built for different arguments. Repeating a request returns an equal object, equality and hashing of groups, spaces, bases and field types agree, and objects differing in any behaviour-relevant argument (order, axis, frequency, rings, mask, offset) never compare equal. Building or using one object never changes the behaviour of another. The same holds for the discretised operators stored on disk and loaded again, in this or another process.',
 ['histories', 'configurations'], 'all sequences of constructions and uses before the observed one',
 'the tests build each object in a fresh or similar history; a stale-cache collision needs a specific earlier request',
 ['e2cnn/group/group.py', 'e2cnn/group/groups/factory.py', 'e2cnn/kernels/*.py', 'e2cnn/diffops/*.py', 'e2cnn/gspaces/*.py', 'e2cnn/gspaces/r2/*.py', 'e2cnn/nn/field_type.py', 'e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py'],
 [('group factory caches', 'e2cnn/group/groups/factory.py'), ('kernel basis cache per space', 'e2cnn/gspaces/gspace.py'), ('stored filters', 'e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py'), ('__eq__/__hash__ of bases', 'e2cnn/kernels, e2cnn/diffops')],
 ['public constructors and factories'],
 [('_stored_filters', 'expanded single-block bases keyed by basis and grid', 'basisexpansion_singleblock.py'), ('_cached_group_instances', 'group instances keyed by order', 'factory.py')])
prop('C13', 'Nonlinearities commute with the group action',
 'Every nonlinearity, for every field type it accepts and every parameter value, commutes with the action of every group element when its output is read in the declared output type. Norm-based ones rescale each field by a function of its own norm (and its own parameters) only, gated ones by the sigmoid of its own gate, pointwise ones apply the stated scalar function to every entry, and concatenated ones produce the two rectified halves. Field types for which this would fail are rejected at construction (induced gates and the fields they gate must be induced from the same subgroup, as documented).',
 ['inputs', 'configurations'], 'all inputs, parameters, field-type mixes and group elements',
 'the tests sample random inputs on a few field types; field interleavings, parameter values and extreme norms are not reached',
 ['e2cnn/nn/modules/nonlinearities/*.py'],
 [('forward of each nonlinearity and its constructor checks', 'e2cnn/nn/modules/nonlinearities/')], ['EquivariantModule.forward', 'EquivariantModule.out_type'])
prop('C14', 'Batch normalisation is equivariant and tracks its statistics faithfully',
 'Every batch normalisation layer, in training and evaluation mode and for any learned parameters and running statistics, commutes with the group action, scaling each field (or each irreducible part of it) as a whole and shifting only its invariant part. In training it normalises with the statistics of the batch (mean only on invariant components, one variance per field or irreducible part; the norm-based layers use the running variance just updated by the batch) and updates the running statistics by the stated momentum, or by the cumulative average when momentum is not given; in evaluation it uses the stored statistics and changes nothing. Resetting restores the initial state.',
 ['inputs', 'configurations', 'histories'], 'all inputs, field mixes, parameters, momenta and call sequences',
 'the tests use random batches and never check the running statistics over a history or the affine/momentum corner settings',
 ['e2cnn/nn/modules/batchnormalization/*.py'],
 [('forward/reset_parameters/reset_running_stats', 'e2cnn/nn/modules/batchnormalization/')], ['EquivariantModule.forward', 'buffers running_mean/running_var'])
prop('C15', 'Pooling, invariant maps, upsampling and masking respect the symmetry',
 'Spatial pooling and upsampling layers commute with channel mixing of the fields they accept and with the grid transformations their sampling grid admits, and compute the stated window maximum, average, blurred or norm-selected value. Invariant maps (group, norm and induced-norm pooling) output values unchanged by the group action, one per field, equal to the stated maximum or norm. The mask module leaves the points inside its disk untouched and damps those outside by a factor that depends only on their distance to the centre and decays to zero.',
 ['inputs', 'configurations'], 'all inputs, field types, window/stride/padding settings',
 'the tests check random inputs for default settings only',
 ['e2cnn/nn/modules/pooling/*.py', 'e2cnn/nn/modules/invariantmaps/*.py', 'e2cnn/nn/modules/r2upsampling.py', 'e2cnn/nn/modules/masking_module.py'],
 [('forward of each module', 'e2cnn/nn/modules/pooling, invariantmaps, r2upsampling.py, masking_module.py')], ['EquivariantModule.forward'])
prop('C16', 'Dropout treats fields as units and is the identity in evaluation',
 'In training, field dropout either zeroes all the channels of a field at a position of a sample or scales them all by 1/(1-p), independently per sample, field and position, with the stated probability; pointwise dropout does so for each single entry. In evaluation both are the identity. In-place and out-of-place variants, and contiguous and interleaved field layouts, behave alike.',
 ['inputs', 'configurations', 'histories'], 'all inputs, probabilities in [0,1], field layouts and random draws',
 'the outcome is random, so tests accept any draw; they do not check that a field is dropped as a unit for every layout',
 ['e2cnn/nn/modules/dropout/field.py', 'e2cnn/nn/modules/dropout/pointwise.py'],
 [('dropout_field and forward', 'e2cnn/nn/modules/dropout/field.py'), ('PointwiseDropout.forward', 'e2cnn/nn/modules/dropout/pointwise.py')], ['EquivariantModule.forward'])
prop('C17', 'Containers and structural modules route every channel to the right place',
 'Sequential, multiple, branching, merging, reshuffling, disentangling, restriction, identity and list containers compute exactly the composition they describe: every field is processed by the module its label selects and lands at its declared position in the output type. They therefore preserve the equivariance of their parts; disentangling and restricting agree with the action of the (sub)group on the declared output type. Ill-typed compositions are rejected at construction.',
 ['inputs', 'configurations'], 'all label assignments, field interleavings, nestings',
 'the tests use one or two label layouts; routing errors appear only for particular interleavings',
 ['e2cnn/nn/modules/sequential_module.py', 'e2cnn/nn/modules/multiple_module.py', 'e2cnn/nn/modules/merge_module.py', 'e2cnn/nn/modules/branching_module.py', 'e2cnn/nn/modules/reshuffle_module.py', 'e2cnn/nn/modules/disentangle_module.py', 'e2cnn/nn/modules/restriction_module.py', 'e2cnn/nn/modules/utils.py', 'e2cnn/nn/modules/module_list.py', 'e2cnn/nn/modules/identity_module.py', 'e2cnn/nn/field_type.py'],
 [('forward/constructors', 'e2cnn/nn/modules/'), ('indexes_from_labels and FieldType.group_by_labels/sorted/index_select', 'e2cnn/nn/modules/utils.py, e2cnn/nn/field_type.py')], ['EquivariantModule.forward'])
prop('C18', 'Typed tensors and field types keep data and type consistent',
 'Adding, scaling, splitting, slicing, concatenating, summing and moving typed tensors gives the same data as on raw tensors together with the type describing exactly the resulting channels, without altering the operands or arguments of non in-place operations. Operations on incompatible types, and tensors whose channels do not match their type, are rejected. A field type reports the offsets, sizes, index blocks, irreps, change of basis and representation of its concatenated fields correctly for every sequence of fields.',
 ['inputs', 'configurations'], 'all tensors, field types, break points and index/slice expressions',
 'the tests try a few slices and sums; index arithmetic over all layouts, steps and negative indices is not covered',
 ['e2cnn/nn/geometric_tensor.py', 'e2cnn/nn/field_type.py'],
 [('GeometricTensor operators, __getitem__, split, tensor_directsum', 'e2cnn/nn/geometric_tensor.py'), ('FieldType arithmetic and index maps', 'e2cnn/nn/field_type.py')], ['GeometricTensor', 'tensor_directsum', 'FieldType'])
prop('C19', 'Predicted output shapes equal the shapes produced',
 'For every module, every setting and every input size on which it can run, the output shape it predicts from an input shape is the shape of the tensor it returns, and the output type it declares is the type of that tensor. The prediction is a plain shape of integers and depends on nothing but the input shape.',
 ['inputs', 'configurations'], 'all modules, settings (kernel, stride, padding, dilation, ceil mode) and input sizes',
 'the tests call it for a few default settings; rounding errors show only at particular sizes and strides',
 ['e2cnn/nn/modules/**/*.py'],
 [('evaluate_output_shape', 'every module')], ['EquivariantModule.evaluate_output_shape'])
prop('C20', 'Learnable weights correspond one-to-one with basis filters',
 'In every steerable layer each learnable weight multiplies exactly one basis filter between one input field and one output field; the reported names, indices, descriptions and number of weights agree with each other and with the filter each weight produces. Distinct weights give linearly independent filters, the expanded filter is linear in the weights, and every admissible filter for each pair of fields is reachable. The filters of a pair depend only on its two representations, not on the order or repetition of fields.',
 ['configurations', 'inputs'], 'all field-type pairs, orders and repetitions, kernel sizes, groups, frequency settings, weights',
 'the tests count parameters at most; an index permutation or skipped block leaves shapes unchanged',
 ['e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py', 'e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py', 'e2cnn/nn/modules/r2_conv/basisexpansion.py', 'e2cnn/nn/modules/r2_conv/r2convolution.py'],
 [('BlocksBasisExpansion weight ranges, get_basis_names, get_element_info', 'basisexpansion_blocks.py'), ('normalize_basis, frequency filtering', 'basisexpansion_singleblock.py')], ['BasisExpansion.dimension', 'BasisExpansion.forward', 'get_basis_info'])
prop('C21', 'Weight initialisation has the scale it promises',
 'The generalised He initialisation draws every weight from a centred normal whose variances, summed over all weights feeding one output irrep component, give one: shared equally among the different input irreps that reach it and, within each, equally among the basis filters. The sampled basis filters themselves are normalised: their mean squared norm per channel of the output irrep is one. The delta-orthogonal initialisation gives an expanded filter supported on the centre tap only, which acts there as a scaled orthogonal (or semi-orthogonal) mixing of equal irreps. Initialisation fills every weight of the given tensor, changes nothing else and is reproducible from the random seeds.',
 ['configurations', 'inputs'], 'all basis expansions, field mixes and seeds',
 'random values make tests accept any scale; the statistical test is skipped in the stable suite',
 ['e2cnn/nn/init.py'], [('generalized_he_init, _generalized_he_init_variances, deltaorthonormal_init', 'e2cnn/nn/init.py')], ['nn.init'])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
