import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=list(obs)
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
CM="qldpc/codes/common.py"
p("C01","Logical, stabilizer and gauge operators have the right commutation structure",
 "For every quantum code (stabilizer, CSS or subsystem, over any finite field), the reported logical operators form a canonical symplectic basis of exactly k conjugate pairs that commute with every parity check, the reported stabilizers generate exactly the centre of the group generated by the parity checks, and the reported gauge operators form a canonical symplectic basis that together with the stabilizers generates that group. Asking for only the X-type or Z-type half, for a canonical form, or for a recomputation returns operators with the same guarantees. Replacing the logical operators is accepted when, and only when, the replacement has this structure.",
 ["inputs","histories"],"all parity check matrices over GF(2), GF(3), GF(4), GF(5)..., any rank, redundancy and qudit order, and all orders of queries",
 "Tests sample a handful of named codes and check a few inner products; a wrong sector slice, sign or pivot only shows for particular rank profiles, fields or gauge structures.",
 [CM],[("standard form and logical operators","qldpc/codes/common.py QuditCode.get_logical_ops, get_standard_form_data; CSSCode.get_logical_ops, get_standard_form_data_xz"),("stabilizer and gauge operators","qldpc/codes/common.py get_stabilizer_ops, get_gauge_ops, get_dual_subsystem_code"),("validation","qldpc/codes/common.py set_logical_ops, set_logical_ops_xz")],
 [("_logical_ops/_stabilizer_ops/_gauge_ops","memoized operator bases","QuditCode.__init__")],["return values of the public getters"])
p("C02","Dimension accounting is exact",
 "For every quantum code the number of qudits equals logical qudits plus independent stabilizers plus gauge qudits, the independent parity checks number the stabilizers plus twice the gauge qudits, and a code is a subsystem code exactly when its parity checks do not all commute; for every classical code the number of words is q to the power of the dimension, with dimension equal to length minus rank. These numbers do not depend on redundant checks, on check order, on which other quantity was asked for first, or on a flag stated correctly at construction.",
 ["inputs","histories"],"all parity check matrices of classical, CSS and general quantum codes over all supported fields, with redundant and zero checks, and all query orders",
 "Tests look at full-rank named codes; miscounts appear with redundant checks, k=0, gauge-only codes, or after another cached quantity was computed first.",
 [CM],[("dimension","qldpc/codes/common.py dimension, gauge_dimension, rank, num_checks"),("subsystem detection","qldpc/codes/common.py QuditCode.is_subsystem_code, CSSCode.__init__")])
p("C03","Exact distances are exact, and distance bounds are never too small",
 "The exact distance reported for any classical code is the minimum weight of a nonzero word (or the minimum Hamming distance of a given vector to the code), and for any quantum code it is the minimum weight of an operator that commutes with all stabilizers and acts nontrivially on the logical qudits (minimised over gauge degrees of freedom), also for one Pauli type of a CSS code. A distance bound computed by any decoder is never smaller than the exact value. The distance of a zero-dimensional code is undefined.",
 ["inputs","histories"],"all codes over all supported fields, blocklengths below, at and above machine word boundaries, any kernel block size, and repeated queries",
 "The brute-force kernels are bit-packed with word-sized blocks and Gray-code enumeration; tests compare a few codes for which the packing, blocks and enumeration order are benign.",
 ["qldpc/codes/distance.py",CM],[("packed kernels","qldpc/codes/distance.py get_distance_classical, get_distance_quantum, get_distance_sector_xz"),("exact distance and bounds","qldpc/codes/common.py get_distance_exact, get_distance_bound, get_one_distance_bound, get_distance_if_known")])
p("C04","Classical code algebra denotes the right word sets",
 "For every linear code over any supported finite field, the enumerated words, membership, generator matrix, random words, dual, tensor product, stacking, puncturing and shortening all denote exactly the vector spaces that coding theory defines: the words are the kernel of the checks, the dual is its orthogonal complement, puncturing deletes coordinates from all words, shortening keeps the words vanishing on the deleted coordinates, and tensor/stacked codes have the expected word sets. Codes built from a generator matrix have exactly its row space as words, including degenerate cases such as zero-dimensional or full spaces.",
 ["inputs"],"all parity check/generator matrices over all fields, and all choices of coordinates",
 "Tests check one or two codes per operation; the operations are linear-algebra identities over all matrices, and degenerate coordinates (identically zero, dependent) are exactly where they break.",
 [CM],[("classical code operations","qldpc/codes/common.py ClassicalCode.iter_words, generator, set_generator, dual, tensor_product, from_generator, stack, puncture, shorten, __contains__")])
p("C05","Stacking and concatenation compose quantum codes correctly",
 "Stacking quantum codes yields exactly the disjoint union of their parity checks on disjoint qudits, and, when logical operators are inherited, exactly the constituents' logical operators in order. Concatenation encodes every physical qudit of each outer block into the wired logical qudit of an inner block: parity checks are the inner checks together with the outer checks rewritten in inner logical operators under the given wiring, and inherited logical operators are the outer logical operators rewritten the same way. The result is a valid code whose parameters and logical operators satisfy every guarantee of a directly built code, and no input code is changed.",
 ["inputs","histories"],"all tuples of codes (mixed CSS / non-CSS / subsystem), wiring permutations and maps, block numbers, inherit flags and prior logical-operator histories",
 "Tests use symmetric codes with identity-like wirings; index mapping errors need asymmetric codes, non-involutive wirings and previously set logical operators to show.",
 [CM],[("stack and concatenate","qldpc/codes/common.py QuditCode.stack, concatenate, _standardize_concatenation_inputs; CSSCode.stack, concatenate")])
p("C06","Local Fourier conjugation and Clifford deformation preserve the code",
 "Conjugating any set of qudits by the Fourier gate, or deforming a qubit code by any Clifford circuit, maps every parity check to its image under that gate (up to phase), so commutation relations, code parameters and subsystem structure are preserved. Logical operators carried over by a deformation are the images of the original logical operators and remain valid, and the original code is unchanged.",
 ["inputs","programs"],"all codes over all supported fields, qudit subsets, and Clifford circuits including identity, multi-qubit and non-self-inverse gates",
 "Tests deform one or two codes; sign/direction and ordering errors are invisible for self-inverse gates, qubits, or symmetric codes.",
 [CM],[("conjugated, deformed","qldpc/codes/common.py QuditCode.conjugated, deformed"),("symplectic_conjugate","qldpc/math.py")])
p("C07","Answers about a code do not depend on what was asked before",
 "Whatever sequence of queries, recomputations, derivations and explicit logical-operator replacements is applied to a family of codes, every query about a code answers consistently with that code's parity checks and the logical operators explicitly chosen for it. Queries and derivations never change the parity checks, parameters or logical operators of any existing code, inputs passed by the caller are never modified, and an operation that succeeds on a fresh code also succeeds on one that has been queried.",
 ["histories"],"all interleavings of queries, cache-filling calls, derivations and replacements over several codes sharing data",
 "Tests call each method once on a fresh object; the caches (logical, stabilizer, gauge operators, dimension, distance, lifts) interact only in longer histories.",
 [CM,"qldpc/abstract.py"],[("memoization","qldpc/codes/common.py _logical_ops, _stabilizer_ops, _gauge_ops, _dimension, _distance; abstract.py Group.regular_lift")],
 [("memo fields","what has been computed or set so far","QuditCode / CSSCode / ClassicalCode instances")])
p("C08","Decoders return errors that explain the syndrome, and exact decoders are optimal",
 "For every parity check matrix and every syndrome that some error can produce, the exact decoders (integer programming, full-weight lookup) return an error with that syndrome of minimum weight, the generalized union-find decoder and belief-propagation with post-processing return an error with that syndrome, and the lookup decoder returns a minimum-weight explanation whenever one exists within its weight limit and the zero error otherwise. This holds over every supported field, in the error-channel and symplectic variants, for compositions of decoders over disjoint blocks, for direct decoders that return corrected words, and independently of earlier calls on the same decoder.",
 ["inputs","histories"],"all matrices over all fields, all syndromes, weights, decoder options, batch compositions and call sequences",
 "Tests decode one or two errors on tiny repetition-like codes; cluster growth/merge order, table construction and integer encodings fail only for particular graphs, fields and syndromes.",
 ["qldpc/decoders.py"],[("decoders","qldpc/decoders.py LookupDecoder, GUFDecoder, ILPDecoder, BlockDecoder, DirectDecoder, get_decoder*, decode")])
p("C09","Finite groups obey the group laws and their lifts are homomorphisms",
 "Every group object satisfies the group axioms and has the advertised order, its multiplication table, iteration order and element index agree with its multiplication, and reconstructing a group from its table gives the same structure. The matrix lift, the regular lift and the permutation matrix of members are homomorphisms of the group (products map to products, identity to identity, and the regular lift to permutation matrices), for direct products and tensor products as well, and groups built from generating matrices lift back to the group those matrices generate.",
 ["inputs","configurations"],"all group families and parameters, direct products, generator choices, lifts and fields",
 "Tests check a few small (mostly abelian) groups; ordering and left/right conventions only differ on non-abelian groups and particular products.",
 ["qldpc/abstract.py"],[("groups","qldpc/abstract.py GroupMember, Group, AbelianGroup, CyclicGroup, DihedralGroup, QuaternionGroup, SmallGroup, SpecialLinearGroup, ...")])
p("C10","Group-algebra arithmetic obeys the ring laws and lifting respects it",
 "Elements of a group algebra over any finite field and finite group form a ring under the provided operations: sums, differences, negation, products, powers, scalar and group-member multiplication satisfy associativity, distributivity and identities, transposition reverses products, and an inverse, when reported, is a two-sided inverse and is reported whenever one exists. Lifting to matrices turns ring sums and products into matrix sums and products, lifts of transposes into transposes of the regular lift, and conversion to and from coefficient vectors is lossless.",
 ["inputs"],"all group-algebra elements over small groups (abelian and not) and fields, and matrices over them",
 "The laws quantify over all pairs/triples of elements of every algebra; tests evaluate a few products in one or two abelian algebras.",
 ["qldpc/abstract.py"],[("ring members and arrays","qldpc/abstract.py RingMember, RingArray, GroupRing")])
p("C11","Reductions of matrices over a group algebra keep their documented guarantees",
 "Row reduction of any matrix over a group algebra yields a matrix with the same row module, in which leading entries that are units have been normalised to one and cleared from their columns as documented; the null space returned consists of vectors annihilated by the matrix and spans everything annihilated by it. Converting arrays over a group algebra to and from arrays over the base field loses nothing.",
 ["inputs"],"all matrices over abelian and non-abelian group algebras of small groups and fields",
 "Pivot search with unit/non-unit entries restarts and reorders rows depending on the data; tests cover two matrices over one ring.",
 ["qldpc/abstract.py"],[("row_reduce, null_space","qldpc/abstract.py RingArray.row_reduce, _reduce_rows_with_invertible_entries, null_space, to_field_array, from_field_array, to_field_vector, from_field_vector")])
p("C12","Chain complexes have vanishing consecutive products, and so do their products",
 "A chain complex is accepted exactly when its operators compose to zero with matching dimensions, over any field or group algebra. Transposing reverses it into a valid complex, transposing twice gives it back, and the tensor product of complexes is again a valid complex, whose spaces have the dimensions and whose boundary maps have the block structure (with signs) of the standard tensor product.",
 ["inputs"],"all chain complexes of varying lengths and dimensions, over all fields and group algebras",
 "Tests multiply two small complexes of length one or two; sign and block order errors need longer complexes over odd characteristic.",
 ["qldpc/objects.py"],[("chain complexes","qldpc/objects.py ChainComplex")])
p("C13","Product constructions satisfy their defining formulas for all seeds",
 "Two-block, quasi-cyclic, bivariate bicycle, hypergraph product, lifted product and subsystem product constructions return, for every choice of seed matrices, polynomials, groups and fields, parity checks equal to their defining formulas up to the documented ordering, so that X-type and Z-type checks commute (or have the documented gauge structure). The code dimension obtained equals the value the theory predicts from the seeds, and logical operators set by the construction satisfy all guarantees of computed ones.",
 ["inputs","configurations"],"all seed matrices, polynomials, orders, groups (abelian or not) and fields for each construction",
 "Tests use a few published examples; an index or transpose slip that is invisible for square, symmetric or binary seeds breaks others.",
 ["qldpc/codes/quantum.py"],[("constructions","qldpc/codes/quantum.py TBCode, QCCode, BBCode, HGPCode, SHPCode, LPCode, SLPCode, SHYPSCode")])
p("C14","Named code families have their advertised parameters",
 "Every member of a named code family (repetition, ring, Hamming, extended Hamming, Reed-Solomon, BCH, Reed-Muller, simplex; five-qubit, Steane, iceberg, C4, C6, surface, rotated surface, toric, generalised surface, Bacon-Shor, ...) has the length, dimension and distance its definition promises, for every admissible size, field and variant, including rectangular and rotated variants with separate X and Z distances. Inadmissible parameters are rejected.",
 ["inputs","configurations"],"all admissible sizes, fields and layout flags of each family",
 "Tests pin one or two sizes of each family; layouts are index arithmetic whose corner cases depend on parity, rectangularity and field.",
 ["qldpc/codes/classical.py","qldpc/codes/quantum.py"],[("families","qldpc/codes/classical.py; qldpc/codes/quantum.py")])
p("C15","Alternative representations of codes and operators round-trip",
 "Converting a code to a Tanner graph, to check strings, or to a saved file and back reproduces the same parity checks over the same field, and the graph or strings describe exactly the nonzero entries of the checks. Pauli and qudit operators convert losslessly between strings, values and integers, their inverses and products behave as the operators they denote, and rendering parity-check vectors as Pauli products names exactly the nonzero sites.",
 ["inputs"],"all parity check matrices over all fields (including extension fields, zero rows and unused qudits) and all operator values",
 "Tests round-trip a few dense binary codes; extension-field entries, identity sites and unused rows or columns are not exercised.",
 [CM,"qldpc/objects.py","qldpc/math.py","qldpc/codes/quantum.py"],[("representations","qldpc/codes/common.py matrix_to_graph, graph_to_matrix, get_strings, from_strings; objects.py Pauli, QuditOperator; math.py op_to_string; quantum.py QTCode.save/load")])
p("C16","Encoding circuits and transversal circuits implement what they claim",
 "The encoding circuit or tableau of any qubit code maps the single-qubit Paulis of the logical, stabilizer and (if any) gauge inputs exactly to the code's logical operators, stabilizers and gauge operators. The logical tableau of a Clifford circuit describes the circuit's action on logical operators, and a circuit found transversally preserves the code space and implements the requested logical operation, with the gate set and layout requested.",
 ["inputs","programs"],"all qubit codes, all Clifford circuits, all requested logical operations, with and without prior logical-operator choices",
 "Tests check two codes; destabilizer completion, sign tracking and permutation direction matter only for codes with particular structure.",
 ["qldpc/circuits.py"],[("tableaus and transversal search","qldpc/circuits.py get_encoding_tableau, get_encoding_circuit, get_logical_tableau, get_transversal_ops, get_transversal_circuit")])
p("C17","Disk caching is transparent",
 "A function memoized on disk returns exactly what the plain function returns for the same arguments, whatever was called before, by this or another process, with positional or keyword arguments, for any argument and result values including falsy ones, and across crashes between computing and storing. Distinct functions, cache names and argument values never share entries, a call that raises stores nothing, and disabling the cache only affects speed.",
 ["histories","schedules","crash_points"],"all call histories over several functions, argument shapes, processes and crash points",
 "Caching is disabled while the test suite runs, so the real store is never exercised by it.",
 ["qldpc/cache.py","qldpc/external/groups.py"],[("disk cache","qldpc/cache.py get_disk_cache, use_disk_cache; users in external/groups.py")],[("cache entries","key to result on disk","qldpc/cache.py")])
p("C18","Cayley-complex and quantum Tanner codes have their defining structure",
 "A Cayley complex built from any group and generating sets contains exactly the specified vertices, edges and faces (and rejects or covers cases violating the non-conjugacy condition as requested), and its four subgraphs are the declared bipartite graphs. Tanner codes on any sorted bipartite graph impose exactly the subcode on every check neighbourhood, and quantum Tanner codes obtained from any complex and seed codes have commuting checks that are the tensor-product checks local to each vertex.",
 ["inputs","configurations"],"all groups, symmetric generating subsets, subcodes, graph orders and fields",
 "Tests build random instances and check commutation only; a wrong face or neighbour order yields another code that may still commute.",
 ["qldpc/objects.py","qldpc/codes/classical.py","qldpc/codes/quantum.py"],[("complex and Tanner codes","qldpc/objects.py CayleyComplex; classical.py TannerCode; quantum.py QTCode")])
p("C19","Random constructions are reproducible and satisfy their postconditions",
 "With a given seed every randomised construction returns the same result in every process and regardless of the global random state, and leaves the global random state as it found it where it promises isolation. Results always satisfy the promised postconditions: random code matrices have no zero rows or columns, random words are words, random logical operators are nontrivial logical operators, and random symmetric subsets are symmetric, exclude the identity and have the requested size.",
 ["inputs","histories"],"all seeds, sizes, fields, groups and surrounding random-state histories",
 "Tests use one or two seeds and never inspect the global state around the calls.",
 [CM,"qldpc/abstract.py","qldpc/codes/quantum.py"],[("seeding","qldpc/codes/common.py get_scrambled_seed, get_random_array, ClassicalCode.random, get_random_word, get_random_logical_op; abstract.py Group.random, random_symmetric_subset; quantum.py QTCode.random")])
p("C20","External group and code lookups return what the source describes",
 "Whatever well-formed answer the external algebra system or web service gives for a group or code, the returned generators and parity checks are exactly the ones described, in the library's zero-based conventions, and unknown names, missing tools, connection failures or malformed answers produce the documented failure or fallback rather than wrong data. Repeated lookups return equal results which callers cannot corrupt for each other.",
 ["inputs","fault_sequences","histories"],"all permutation generators, cycle formats, field elements and failure combinations of the external tools",
 "The external tools are absent offline, and tests mock a handful of literal answers.",
 ["qldpc/external/gap.py","qldpc/external/groups.py","qldpc/external/codes.py"],[("lookup and parsing","qldpc/external/gap.py, groups.py, codes.py")])
p("C21","Planar and toric layouts of bivariate bicycle codes are faithful",
 "Toric layouts reported for a bivariate bicycle code are exactly the ones with nearest-neighbour support, and re-expressing the code in such a layout gives an equivalent code. Mapping between qubit/check labels and lattice positions, folded or unfolded, is one-to-one and consistent with the code's support, and every reported equivalent code is one.",
 ["inputs","configurations"],"all orders, polynomial pairs, layouts and fold choices",
 "Tests evaluate a couple of published codes; the modular change of basis depends on gcd structure of the orders and generators.",
 ["qldpc/codes/quantum.py"],[("layouts","qldpc/codes/quantum.py BBCode.get_node_pos, get_equivalent_toric_layout_code_data, modular_inverse, get_coefficient_and_exponents, toric layouts")])
p("C22","Equality and equivalence of codes, groups and operators mean what they say",
 "Code equality holds exactly when type-independent data (field and parity checks, plus construction data for codes that carry it) agree; code equivalence holds exactly when the two codes have the same checks up to row operations over the same field, whatever their presentation (classical, quantum, CSS). Equality of groups, ring elements and ring arrays is an equivalence relation consistent with hashing and with equality of their lifted matrices.",
 ["inputs"],"all pairs of codes, groups, ring elements and operators, including ones differing in a single datum",
 "Tests assert a few positive and negative pairs; a comparison that ignores one field of the data passes them.",
 [CM,"qldpc/abstract.py","qldpc/codes/quantum.py","qldpc/objects.py"],[("equality","__eq__, equiv, __hash__ in qldpc/codes/common.py, codes/quantum.py, abstract.py, objects.py")])
p("C23","Estimated logical error rates follow the sampled failure counts",
 "The logical error rate function returned for a code interpolates the same sampled failures at every physical error rate: it is zero where no correctable pattern can fail, never leaves [0, 1], rejects error rates above the declared maximum, spends exactly the requested number of samples over error weights, and counts a sample as failed exactly when decoding leaves a nontrivial logical error.",
 ["inputs","histories"],"all codes, decoders, sample budgets, Pauli biases and error rates",
 "Tests check one value of one code at loose tolerance; the weighting over error weights is not observed.",
 [CM],[("error-rate estimation","qldpc/codes/common.py get_logical_error_rate_func, _estimate_decoding_fidelity_and_variance, _get_sample_allocation, _get_error_probs_by_weight")])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title'])); f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
