O, A, D = "qldpc/objects.py", "qldpc/abstract.py", "qldpc/decoders.py"
prop("P07", "Tanner graphs and strings represent a code exactly",
     "Converting a parity check matrix to its Tanner graph or to Pauli strings and back returns the same matrix over the same field and of the same shape, also when it has empty rows or columns, and the graph of a hypergraph product is the product of the graphs. "
     "Malformed operator strings are rejected rather than read as another operator.",
     ["inputs"], "all matrices within the stated sizes over GF(2), GF(3), GF(4), GF(5); all operators X(x)Z(z) with small powers; strings assembled from a pool of valid and malformed pieces",
     "Tests convert a few codes without empty rows or columns; losing a node or mislabelling a sector shows only for particular supports.",
     [C, O, Q], [("graph and string conversions", "common.py: matrix_to_graph, graph_to_matrix, get_strings, from_strings"), ("operators", "objects.py: Pauli, QuditOperator, Node"), ("graph product", "quantum.py: HGPCode.get_graph_product")],
     "symbolic matrices up to ~12 entries; networkx and text handling run concretely on every path")
prop("P13", "Code transformations keep the promises of the code they produce",
     "Local Fourier transforms, Clifford deformation, stacking and concatenation produce exactly the checks and logical operators they describe, with all commutation relations, logical dimensions and carried-over logical operators valid, and leave their inputs unmodified. "
     "New logical operators are accepted exactly when they are a valid canonical basis, weight reduction keeps a valid basis whatever the decoder answers, and codes count as equivalent exactly when their checks generate the same group.",
     ["inputs", "histories"], "all codes, replacement operators and decoder answers within the stated sizes; fixed Clifford circuits and block mappings",
     "Tests transform a few named codes with one mapping or circuit; sign errors appear only in odd characteristic, bookkeeping errors only for asymmetric codes and mappings.",
     [C], [("transformations", "common.py: conjugated, deformed, stack, concatenate, _standardize_concatenation_inputs"), ("replacing logical operators", "common.py: set_logical_ops, set_logical_ops_xz, reduce_logical_op")],
     "symbolic check matrices up to ~12 bits, GF(2), GF(3), GF(4); decoder answers arbitrary, at most two attempts")
prop("P08", "Product and two-block codes are what their definitions say",
     "Hypergraph products, subsystem hypergraph products and two-block codes have exactly the checks of their definitions, over the field of their seeds, with the number of logical and gauge qudits implied by the ranks of the seeds. "
     "The logical operators they come with commute with all checks and form dual pairs, whether given in closed form or computed, and incompatible two-block matrices are rejected.",
     ["inputs"], "all seed matrices within the stated shapes over GF(2), GF(3), GF(4), GF(5), including rank-deficient and asymmetric ones",
     "Tests use random or well-known full-rank seeds over small fields; closed-form logical operators and dimensions break for rank-deficient, asymmetric or q-ary seeds.",
     [Q, C], [("product constructions", "quantum.py: HGPCode, SHPCode, TBCode"), ("closed-form logical operators", "quantum.py: get_canonical_logical_ops"), ("local Fourier transform of a sector", "common.py: conjugated")],
     "symbolic seed matrices up to ~8 entries")
prop("P09", "Chain complexes compose to zero and multiply correctly",
     "A sequence of boundary operators is accepted exactly when shapes match and neighbours compose to zero; dimensions, duals and end operators are those of the complex. "
     "Tensor products have the boundary operators of the graded Leibniz rule, over fields and over group algebras, and reproduce hypergraph product codes.",
     ["inputs"], "all boundary operators within the stated shapes (up to three links per factor) over GF(2), GF(3), GF(4) and over small group algebras",
     "Tests only check that products of one random matrix compose to zero; wrong signs vanish over GF(2) and wrong sector order shows only for asymmetric shapes.",
     [O, A], [("complexes", "objects.py: ChainComplex.__init__, op, dim, T"), ("tensor products", "objects.py: ChainComplex.tensor_product")],
     "symbolic matrices up to ~10 entries per factor; group algebra coefficients symbolic")
prop("P10", "Group algebras are algebras and lifts are homomorphisms",
     "Sums, products, powers, scalar multiples and transposes of group algebra elements equal those computed from their coefficients; an inverse is returned exactly when one exists and is two-sided. "
     "Lifting an element to a matrix respects sums, products, transposes and the identity, for both the default and the regular representation.",
     ["inputs"], "all pairs of algebra elements over GF(2), GF(3), GF(4) for thirteen small groups (cyclic, abelian, symmetric, dihedral, alternating, quaternion)",
     "Tests use a few elements of one or two groups; order of multiplication and transposition only matters for non-abelian groups and particular supports.",
     [A], [("group algebra", "abstract.py: GroupRing, RingMember"), ("representations", "abstract.py: Group.lift, Group.regular_lift, named groups")],
     "coefficients symbolic; group multiplication runs concretely (sympy)")
prop("P11", "Matrices over group algebras behave like their lifts",
     "Products, transposes and lifts of matrices over a group algebra agree with the coefficient-wise definitions, and conversion to and from coefficient arrays is lossless. "
     "Row reduction keeps the row space, returns independent nonzero rows with unit pivots (or rows without invertible entries), and the null space is annihilated and complete.",
     ["inputs"], "all matrices of the stated shapes over GF(2), GF(3), GF(4) group algebras of small groups",
     "Tests reduce one or two hand-picked matrices; zero divisors make pivoting and trimming fail only for particular combinations of entries.",
     [A], [("arrays", "abstract.py: RingArray"), ("row reduction", "abstract.py: RingArray.row_reduce, null_space and helpers")],
     "coefficients symbolic, at most ~9 free coefficients per matrix")
prop("P12", "Lifted product codes are lifts of products",
     "Lifted product codes and their subsystem version have exactly the lifted checks of the product of their matrices, with the right sizes, sectors, field and number of logical qudits, and over the trivial group they are the hypergraph product codes. "
     "The X-type and Z-type checks of a lifted product commute whenever the entries of the matrices do, in particular over abelian groups.",
     ["inputs"], "all matrices of the stated shapes over group algebras of eight small groups, over GF(2), GF(3), GF(4)",
     "Tests compare a few fixed matrices over one group; sign, order and transposition errors cancel for symmetric inputs, abelian groups and GF(2).",
     [Q, A], [("lifted products", "quantum.py: LPCode, SLPCode"), ("products", "quantum.py: HGPCode.get_matrix_product, SHPCode.get_matrix_product"), ("lifts", "abstract.py: RingArray.lift")],
     "coefficients symbolic; lifted products over non-abelian groups with non-commuting entries are known finding F02")
prop("P14", "Decoders reproduce syndromes within their promises",
     "Lookup decoding corrects every error up to its maximum weight with a correction of no larger weight, and by default every error of weight below half the code distance; union-find decoding reproduces every syndrome that an error can cause and answers all others trivially. "
     "The feasible points of the integer program are exactly the errors with the given syndrome, with their weight as cost; block decoding, direct decoding and the decoder front end pass syndromes and corrections on unchanged.",
     ["inputs"], "all parity check matrices, errors and syndromes within the stated sizes over GF(2), GF(3), GF(4), GF(5), classical and symplectic, as field or integer matrices; all answers of inner decoders",
     "Tests decode a few errors of a repetition or five-qubit code; wrong slack ranges, table collisions and sign errors need particular matrices over larger fields.",
     [D, C], [("decoders", "decoders.py: LookupDecoder, GUFDecoder, ILPDecoder, BlockDecoder, DirectDecoder"), ("front end", "decoders.py: decode, get_decoder"), ("symplectic conjugation", "math.py: symplectic_conjugate")],
     "symbolic matrices up to ~12 bits; the external mixed-integer solver runs only in validation and replay, the program handed to it is decided")

prop("P15", "Distance bounds are never below the true distance",
     "Whatever the decoder answers and whatever words are drawn at random, every upper bound on a code distance lies between the true distance and the code length, and a bound on the distance between a vector and a code is never below the true one. "
     "Known distances are reported as they are, sector distances of CSS codes are kept apart, cutoffs and repeated trials never lower a bound below the truth, and codes without nontrivial words have undefined distance.",
     ["inputs"], "all codes within the stated sizes over GF(2), GF(3) (classical and CSS, subsystem codes included), all random draws, all decoder answers, all vectors",
     "Tests run a few trials with one decoder on known codes, where the decoder answers correctly; a wrong answer that is trusted, or a sector mixed up, needs an adversarial decoder or an asymmetric code.",
     [C, D], [("classical bounds", "common.py: ClassicalCode.get_distance_bound, get_one_distance_bound, get_distance_if_known, get_code_params"), ("quantum bounds", "common.py: CSSCode.get_distance_bound, get_one_distance_bound, get_random_logical_op"), ("decoders", "decoders.py: decode")],
     "at most a few decoder calls per computation; longer retry loops repeat the same step")
prop("P16", "Named code families have the advertised parameters",
     "Every named code family has the length, dimension and distances it claims, over every supported field: repetition, ring, Hamming, Reed-Muller, simplex, BCH and Reed-Solomon codes, and the five-qubit, Steane, C4, C6, iceberg, surface, toric (also in more dimensions), Bacon-Shor and subsystem hypergraph simplex codes. "
     "Their checks commute and are local where promised, and invalid parameters are rejected.",
     ["inputs"], "all members of each family up to the stated sizes, over GF(2), GF(3), GF(4), GF(5), and all words of each code",
     "Tests construct one or two members per family and mostly compare what a code claims with itself; claims can be wrong for particular members (one bit, order zero, one row) or fields.",
     ["qldpc/codes/classical.py", Q, C], [("classical families", "classical.py: RingCode, HammingCode, ReedMullerCode, SimplexCode, ..."), ("quantum families", "quantum.py: SurfaceCode, ToricCode, GeneralizedSurfaceCode, IcebergCode, ...")],
     "one concrete code per case; the quantifier over words (dimension up to ~20) is decided by the solver")
prop("P17", "Tanner and quantum Tanner codes have the promised local views",
     "The words of a Tanner code are exactly those whose view at every check node, in the order of the edge labels, is a word of the subcode, and the input graph is left as it was. "
     "Cayley complexes have exactly the vertices, edges, faces, colouring and subgraphs generated by valid subsets, and conjugate or otherwise invalid subsets are rejected; quantum Tanner codes on them have commuting checks, generated by products of local words at each vertex, and survive being saved and loaded.",
     ["inputs"], "all seed codes of the stated sizes over GF(2), GF(3), GF(4), all subsets of small groups, all edge orders of up to three nodes",
     "Tests build a few complexes from random subsets of one group and compare a code with a rebuilt copy of itself; label order and left/right mix-ups vanish for symmetric seed codes and abelian groups.",
     ["qldpc/codes/classical.py", O, Q, A], [("Tanner codes", "classical.py: TannerCode"), ("complexes", "objects.py: CayleyComplex"), ("quantum Tanner codes", "quantum.py: QTCode, save, load")],
     "groups up to order 6 (8 in the thorough tier), at most ~4 generators per side")
prop("P18", "Encoders and logical Clifford circuits act on states as promised",
     "An encoder maps weight-one operators to the logical, gauge and stabilizer operators of the code with positive sign, and circuits built from it do the same. "
     "The logical operation reported for a circuit that keeps the code, or deforms it while keeping the logical operators, is the one the circuit performs on encoded states, signs included. "
     "Transversal operations found for an automorphism use only the allowed gates, keep the code (or the logical operators of the deformed code) and the signs of stabilizers, and implement the stated logical operation; asked for specific operations, only correct circuits are returned.",
     ["inputs"], "all CSS, stabilizer and subsystem codes of the stated sizes over GF(2), all valid logical operators; eight circuits; automorphisms from a list per case",
     "Tests look at a handful of named codes, up to signs or up to Pauli operators, and skip most searches when the external program GAP is missing.",
     ["qldpc/circuits.py", C], [("encoders", "circuits.py: get_encoding_tableau, get_encoding_circuit"), ("logical operations", "circuits.py: get_logical_tableau, get_encoder_and_decoder"), ("transversal operations", "circuits.py: get_transversal_ops, get_transversal_circuits"), ("automorphisms", "common.py: get_automorphism_group")],
     "2 to 4 qubits; GAP replaced by a group generated by one arbitrary automorphism; stim modelled and compared with the real one")
prop("P19", "Quasi-cyclic codes and their torus layouts follow their polynomials",
     "The checks of a quasi-cyclic code address exactly the qudits that its polynomials say, with the stated coefficients and signs, also with named, unused or trivial cyclic groups and negative or large exponents; canonical forms are the same polynomials with exponents in the stated window. "
     "Labels and positions of qubits of a bivariate code are the documented unraveled ones, injective, and near each other when folded. "
     "Every equivalent toric layout is the same code up to relabelling, contains the steps of the torus and is found whenever there is one.",
     ["inputs"], "all nonzero coefficients over GF(2) to GF(5) for stated supports, all exponents, vectors and qubits in stated ranges",
     "Tests check a few published binary codes; coefficients other than one, orders equal to one, unused orders and most exponents never occur.",
     [Q, A], [("codes", "quantum.py: QCCode, TBCode"), ("layouts", "quantum.py: BBCode"), ("groups", "abstract.py: AbelianGroup")],
     "group orders up to about 16 for codes, 12x6 for layouts (21x18 in the thorough tier); fixed supports")
prop("P20", "Finite groups are groups, and lifts of their members are representations",
     "Members of a group compose, invert, compare, print and combine as permutations; every member is generated exactly once, at its own position, and the multiplication table lists the products. "
     "Groups built from tables, generating matrices, products of groups, and (projective) special linear groups have exactly the members they should, and matrices assigned to members respect products. "
     "Random members are members, random symmetric subsets are symmetric, have the requested size, and exist for all groups, and impossible sizes are rejected.",
     ["inputs", "histories"], "all permutations of up to 4 points, all group tables up to order 5, all invertible 2x2 matrices over GF(2), GF(3), all pairs of members of 20 groups, all sequences of a few random numbers",
     "Tests check a few symmetric groups and only that generators are lifted correctly; order of multiplication is invisible for abelian groups, and random choices are seeded.",
     [A], [("groups", "abstract.py: Group, GroupMember"), ("constructions", "abstract.py: from_table, from_generating_mats, product"), ("matrix groups", "abstract.py: SpecialLinearGroup, ProjectiveSpecialLinearGroup")],
     "sympy itself runs concretely; groups up to order 120")
prop("P21", "Answers of external programs are read exactly and remembered faithfully",
     "Codes, groups, numbers and descriptions of groups, and idempotents are exactly those in the answer of the external program or web page, whatever the numbers in it, and answers to different requests are not mixed up. "
     "A remembered answer is the one given before, also when the program is gone or restarted, and the program is asked once per question. "
     "Missing sources, empty answers and unknown names are errors, and built-in automorphisms of codes map every word to a word.",
     ["inputs", "histories"], "all numbers in answers of the stated layouts, all sequences of up to three requests, with the program present or absent",
     "The external program is not installed where the tests run; they feed one hand-written answer with one-digit numbers and turn off remembering altogether.",
     ["qldpc/external/codes.py", "qldpc/external/groups.py", "qldpc/cache.py", A, C], [("reading", "external/codes.py: get_code; external/groups.py: get_generators, ..., get_primitive_central_idempotents"), ("remembering", "cache.py: use_disk_cache"), ("use", "abstract.py: Group.from_name, get_primitive_central_idempotents; common.py: ClassicalCode.from_name")],
     "the program, web and disk are stand-ins in their documented format; nothing is known about what the real program computes")
prop("P22", "Logical error rate estimates count exactly the failed samples",
     "In the code capacity model, the estimate at physical error rate p is the binomial mixture, over the error weights, of the fraction of sampled errors of that weight on which decoding failed, counting weights beyond the sampled ones as failures, together with the matching standard error. "
     "A sample of weight k is an error on k different symbols with Pauli types that the bias allows; it has failed exactly when its decoded remainder is nonzero (classical codes) or acts on the logical qudits (CSS codes, counted once). "
     "At least the requested number of samples is used, every weight up to the largest is sampled, the estimate at rate zero is zero, and rates beyond the stated maximum are rejected.",
     ["inputs"], "all random errors and all decoder answers (undetected remainders for CSS codes) within the stated code sizes and numbers of samples, over GF(2), GF(3), GF(4), GF(5), with several biases and maximal rates",
     "Tests check only the two ends, where failure is certain or impossible; a swapped bias, a double-counted sample or a wrong sector changes only the numbers in between, which are random.",
     [C, D], [("estimates", "common.py: ClassicalCode.get_logical_error_rate_func, CSSCode.get_logical_error_rate_func"), ("samples", "common.py: _estimate_decoding_fidelity_and_variance, _get_sample_allocation, _get_error_probs_by_weight"), ("remainders", "decoders.py: DirectDecoder, get_decoder")],
     "two to five samples, codes up to length 6; the distribution of the random draws is not judged; floating-point numbers are compared within 1e-9 at five rates")
prop("P23", "Codes, groups and algebras compare, copy and describe themselves exactly",
     "Codes are equal exactly if they have the same field and parity checks (quantum Tanner codes: the same generating data), equality is symmetric, equal groups and group algebras have the same members and equal hashes, and nothing equals an object of another kind. "
     "Lengths, numbers and weights of checks, ranks, fields and types are those of the parity check matrix, copies know the same facts as their originals, and descriptions contain name, length, field and all checks. "
     "Objects with different fields, lengths or algebras are not combined but rejected, and compatible ones are always combined.",
     ["inputs"], "all classical, stabilizer, subsystem and CSS codes with up to 3 checks and 4 symbols over GF(2), GF(3), GF(4), GF(5), all pairs of 16 groups, all pairs of small quantum Tanner codes",
     "Tests compare a few codes with themselves; a comparison that is always true, asymmetric, or false for equal objects built in different ways needs pairs of unrelated objects.",
     [C, Q, A, O], [("codes", "common.py: __eq__, __init__, get_weight, rank, __str__, stack"), ("quantum Tanner codes", "quantum.py: QTCode.__eq__"), ("groups and algebras", "abstract.py: Group, GroupRing, RingMember, RingArray"), ("nodes and complexes", "objects.py: Node, ChainComplex")],
     "small codes; groups from a list")
not_applicable("P24", "Random codes, errors and group members are drawn uniformly",
     "Random codes, random errors of a given weight, random group members and random symmetric subsets are drawn from the distribution that is documented, and estimates of error rates converge to the true rates as the number of samples grows.",
     ["inputs"], "all seeds", "Tests fix seeds and look at shapes only.",
     [C, A], [("random draws", "common.py: get_random_array, random; abstract.py: Group.random, random_symmetric_subset")],
     "a distribution over draws is not a property of single executions: the solver treats every draw as an arbitrary value of its range, which decides what holds for all draws (P15, P17, P20, P22) but not how likely they are")
not_applicable("P25", "Automorphism groups and groups computed by GAP are complete",
     "The automorphism group of a code contains every permutation of bits that maps words to words, and groups built by name have the structure that the name stands for.",
     ["inputs", "configurations"], "all codes and all names of groups", "Tests replace the external program by fixed answers.",
     [C, A, "qldpc/external/groups.py"], [("automorphisms", "common.py: ClassicalCode.get_automorphism_group"), ("groups by name", "external/groups.py: get_generators; abstract.py: Group.from_name, SmallGroup")],
     "the answers are computed by GAP and its packages, an external program that is not installed here and whose source is not part of the repository; what the code does with an answer is decided in P18 and P21")
