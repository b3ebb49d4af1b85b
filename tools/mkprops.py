"""Writes ../properties.jsonl (the single source of the property texts)."""
import json, os

L, C, G = "src/ff/ff_lib.py", "src/ff/ff_combinatorics.py", "src/ff/ff_graph_theory.py"
D, R, U, I = ("src/ff/ff_distance_measures.py", "src/ff/ff_random_states.py",
              "src/ff/ff_utils.py", "src/ff/__init__.py")
P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe),
                          "hook_needed": None}})


prop("C01", "Jordan-Wigner operators realise the fermionic algebra",
     "For every number of sites, the raising, lowering and Majorana operators are the Jordan-Wigner matrices on the occupation basis (leftmost qubit = first site, first basis state = vacuum): ladder operators obey the canonical anticommutation relations, and Majoranas are Hermitian, square to one half and mutually anticommute. "
     "Combined lists put all raising (first half) before all lowering (second half) operators, and the Majorana list is the Majorana basis-change matrix applied to the combined ladder list. "
     "The anticommutator matrix computed from any list whose anticommutators are scalars (ladder, Majorana, or any linear recombination of them) is exactly the matrix of those scalars.",
     "all site counts, all pairs of operators, all linear recombinations of the operator lists",
     "Tests check a handful of pairs at 2-3 sites; the sign string has to be right for every pair, every basis state and every size.",
     [L], [("jordan_wigner_lowering", L), ("jordan_wigner_alphas", L), ("jordan_wigner_majoranas", L), ("compute_algebra_S", L)])
prop("C02", "The Pauli enumeration is the complete ordered Pauli basis",
     "For every positive number of qubits n, the enumeration lists exactly the 4^n tensor products of I, X, Y, Z, in lexicographic order with the rightmost factor varying fastest; every operator on n qubits is recovered from its expectation values in that order. "
     "With verbose printing, the i-th printed string names the i-th operator.",
     "all n, all strings, all operators expanded in the basis",
     "Tests look at n = 1, 2 and a few members; consumers rely on position-to-operator correspondence for all 4^n positions.",
     [L], [("generate_pauli_group", L), ("pauli_matrices", L)])
prop("C03", "Quadratic lift is the faithful many-body image of its coefficients",
     "Lifting a coefficient matrix R gives sum_ij R_ij a_i^dagger a_j (or sum_ij R_ij a_i a_j in direct mode) for any list of operators, linearly in R. "
     "Coefficient matrices assembled from a Hermitian A and a skew-symmetric B have the documented blocks; their lifts are Hermitian, the two assembled forms (adjoint and direct) describe the same operator, commutators with the ladder operators are linear in them with the coefficient matrix as generator, and the many-body spectrum is the set of all signed sums of the single-particle energies. "
     "The Kitaev-chain builder is the assembled matrix of an open chain with -mu on the diagonal, -t hopping and skew pairing delta between nearest neighbours.",
     "all complex coefficient matrices, operator lists, site counts",
     "Tests sample a few small Hamiltonians; linearity, Hermiticity and the spectral correspondence hold for every A and B.",
     [L], [("build_op", L), ("build_H", L), ("build_V", L), ("kitaev_chain", L)])
prop("C04", "Gaussian states are the normalised Gibbs states of their Hamiltonian",
     "For every Hermitian quadratic Hamiltonian, given either as a coefficient matrix with the documented particle-hole block form or as the many-body operator itself, the generated state is exp(-H)/Tr exp(-H): a Hermitian, positive, unit-trace matrix. "
     "Its two-point correlations are the Fermi function of the coefficient matrix, and every higher correlation of ladder operators follows from them by Wick's theorem (pfaffian of contractions, zero for an odd number of operators).",
     "all quadratic Hamiltonians, both input forms, all operator lists satisfying the algebra, all tuples of operators",
     "Tests check trace and positivity for one or two Hamiltonians; the existing tests did not notice that two-site coefficient matrices were exponentiated as if they were operators.",
     [L], [("generate_gaussian_state", L), ("build_op", L), ("correlation_matrix", L)])
prop("C05", "Two-point functions equal the traces they denote",
     "For any matrix rho and operator list a_i the correlation matrix is Tr[rho a_i a_j] by default (no flag, zero or False), Tr[rho a_i a_j^dagger] for a positive flag or True, and Tr[rho a_i^dagger a_j] for a negative flag; the covariance matrix is Tr[rho a_i a_j] - Tr[rho a_j a_i]. "
     "Omitted operators mean Jordan-Wigner ladder operators and an omitted number of sites is inferred from the size of rho. "
     "Consequently covariance = correlation minus its transpose, and correlation plus its transpose = Tr[rho] times the anticommutator matrix.",
     "all matrices rho, operator lists, flags and omitted arguments",
     "Tests only check shapes and a few entries; one documented call form crashed and one flag value was silently wrong.",
     [L], [("compute_2corr_matrix", L), ("compute_cov_matrix", L), ("correlation_matrix", L)])
prop("C06", "Operator rotation is the linear recombination it documents",
     "Rotating a list of operators by a square matrix C gives b_j = sum_i C_ji a_i, and in left mode b_j = sum_i a_i conj(C_ij), whatever the order of the two arguments. "
     "Rotations compose (C2 after C1 equals C2 C1), correlation matrices transform as C G C^T, and rotations that preserve the anticommutator matrix preserve the algebra.",
     "all complex matrices C and operator lists of any dimension",
     "Tests use identity and one or two rotations; the index order only shows for asymmetric complex C.",
     [L], [("rotate_operators", L), ("_perform_rotation", L)])
prop("C07", "Symplectic eigensolver diagonalises every free-fermion Hamiltonian",
     "For every coefficient matrix assembled from a Hermitian A and skew-symmetric B - including degenerate, singular, purely hopping, purely pairing and zero ones - the solver returns a unitary U of block form [[s, t],[t*, s*]] that preserves the fermionic algebra and whose columns carry the phases that make its diagonal real and non-negative, and L = U^dagger H U real diagonal of the form diag(-S, S) with the spectrum of H. "
     "A matrix that does not have the particle-hole block form is refused rather than decomposed.",
     "all coefficient matrices of the documented form",
     "Tests diagonalise a few random or textbook matrices; degenerate and zero modes, and sign/ordering conventions, are where the sorting logic can fail.",
     [L], [("eigh_sp", L), ("build_K", L), ("build_Omega", L)])
prop("C08", "Majorana and V-form eigensolvers return true canonical forms",
     "For a V-form coefficient matrix the solver returns a block-structured unitary U with U^T V U equal to the returned matrix, which is zero apart from off-diagonal blocks S and -S that are diagonal, real and carry the spectrum. "
     "For a Majorana-form coefficient matrix G, the two Majorana solvers return a real orthogonal O with O^T G O equal to the returned matrix; it is i times a real skew matrix whose non-zero entries are only the off-diagonal-block diagonals (Y form) or only the 2x2 diagonal blocks (canonical form), with the single-particle energies as magnitudes.",
     "all coefficient matrices of the documented forms, including singular and degenerate ones",
     "Tests sample a couple of matrices; zero and degenerate energies make the block alignment delicate.",
     [L], [("eigv_sp", L), ("eigm_sp", L), ("eigm_sp_can", L)])
prop("C09", "Structure predicates answer exactly the condition they name",
     "The symplectic test is true exactly for matrices with U S U^T = S (in canonical form or not), the canonical-form test exactly for real skew-symmetric even-dimensional square matrices supported on 2x2 diagonal blocks, and the matchgate test exactly for 4x4 matrices whose corner and inner 2x2 determinants agree; for the canonical-form and matchgate tests matrices of another size answer false. "
     "The permutation matrix of a valid permutation p maps basis vector i to p(i), and any list that is not a permutation of 0..n-1 gives None.",
     "all matrices with a clear margin to the condition, all integer lists",
     "Tests use a few positive and negative examples; a predicate can be wrong on any structured near-miss.",
     [L], [("is_symp", L), ("check_canonical_form", L), ("is_matchgate", L), ("permutation_to_matrix", L)])
prop("C10", "Basis-change and assembly matrices connect the conventions exactly",
     "For every number of sites, the Majorana basis change is unitary and carries the fermionic swap form to the identity, the mode reordering is the permutation matrix taking [x1..xn p1..pn] to [x1 p1 .. xn pn], and the symplectic transform between canonical and standard eigenstructure is unitary and turns the canonical form of any energies into diag(-S, S). "
     "The direct sum of any two matrices, of any shapes, is block diagonal with exactly those blocks.",
     "all site counts, all energies, all shapes and entries of the summands",
     "Tests check unitarity at one size; the conventions must agree with each other at every size.",
     [L, U], [("build_Omega", L), ("build_K", L), ("build_reordering_xx_to_xp", L), ("kron_plus", U)])
prop("C11", "Signed combinatorial sums: permutation sign, pfaffian, determinant",
     "The sign of a permutation is the parity of its inversions; the combinatorial determinant equals the determinant of every square matrix, and the pfaffian equals the signed sum over perfect matchings of the skew part of every even matrix and 0 for odd ones - for real, complex, integer of any width, boolean and list input, without integer overflow. "
     "Hence pf^2 = det on skew matrices and pf(B A B^T) = det(B) pf(A); the eigenvalue-based determinant agrees and returns None for non-square input.",
     "all square matrices and permutations, all numeric types",
     "Tests check a handful of matrices up to size 4-6; the identities quantify over all entries and types.",
     [C], [("sgn", C), ("pf", C), ("dt", C), ("dt_eigen", C)])
prop("C12", "Unsigned combinatorial sums: permanent and hafnian",
     "The permanent equals the sum over permutations of products of entries for every square matrix, and the hafnian equals the sum over perfect matchings of the symmetric part of every even matrix and 0 for odd ones - for real, complex, integer of any width, boolean and list input, without integer overflow. "
     "Hence the permanent is invariant under row and column permutations and transposition and linear in each row, the hafnian ignores the diagonal and counts matchings of adjacency matrices, and hf [[0,B],[B^T,0]] = pt(B).",
     "all square matrices, all numeric types",
     "Tests check a few small matrices; overflow, sign or normalisation errors appear for other sizes and types.",
     [C], [("pt", C), ("hf", C)])
prop("C13", "Planar perfect-matching counts are exact",
     "For every simple planar graph with positive edge weights - connected or not, with any node labels in any insertion order, with bridges, isolated nodes or an odd number of nodes - the count equals the sum over perfect matchings of the product of edge weights, i.e. the number of perfect matchings when unweighted.",
     "all planar graphs, labellings, insertion orders and positive weights",
     "Tests count cycles, paths and small grids with nodes 0..n-1; other labels, orders and disconnected graphs crashed or gave wrong counts unnoticed.",
     [G], [("count_perfect_matchings", G), ("count_perfect_matchings_planar", G), ("pfo_algorithm", G)])
prop("C14", "Pfaffian orderings orient every planar graph correctly",
     "For every simple planar graph the ordering matrix is skew-symmetric with entries +1 or -1 exactly on the edges (indexed in node order) and 0 elsewhere, and the absolute pfaffian of its product with the weighted adjacency matrix is the weighted number of perfect matchings. "
     "Completing a face that has one unassigned edge assigns exactly that edge, skew-symmetrically, so that an odd number of the face's edges point against the traversal, and changes nothing else.",
     "all planar graphs; all faces, partial orientations and missing edges",
     "Tests only use the upper triangle of the ordering on a few graphs, and did not see that it was not skew-symmetric.",
     [G], [("pfo_algorithm", G), ("complete_face", G)])
prop("C15", "Brute-force matching enumeration is complete, and used when non-planar",
     "For every simple graph with up to fifteen nodes the enumeration returns each perfect matching exactly once, as edges of the graph covering every node once, and nothing else; odd graphs give none. "
     "For non-planar graphs the perfect-matching count is the sum over perfect matchings of the product of edge weights (their number when unweighted), and on planar graphs counting by orientation agrees with enumeration.",
     "all simple graphs of up to fifteen nodes, any labels",
     "Tests enumerate two or three graphs.",
     [G], [("find_perfect_matchings_brute", G), ("count_perfect_matchings", G)])
prop("C16", "Faces, dual tree, random planar graphs and tree depth are structurally right",
     "The faces of a connected embedded planar graph are closed walks that use each directed edge exactly once and satisfy Euler's formula (a non-planar graph gives 0); the dual graph built from a spanning tree is a tree on the faces whose edges are exactly the pairs of faces sharing a non-tree edge. "
     "Random planar graphs with n nodes (n >= 1) are connected, planar, simple, on nodes 0..n-1. "
     "Tree depth is the largest distance from the first node, and non-trees are refused with ValueError.",
     "all connected planar graphs and embeddings, all seeds and sizes, all trees",
     "Tests check face counts of two or three graphs and one or two generator seeds.",
     [G], [("faces", G), ("dual_graph_H", G), ("generate_random_planar_graph", G), ("compute_tree_depth", G)])
prop("C17", "Partial traces reduce composite matrices correctly",
     "For every square matrix on a product space of dimensions d1 x d2 and every divisor, the block-trace reduction is the partial trace over the second factor and the diagonal-block-sum reduction is the partial trace over the first, in the documented orientation; on products they give A Tr B and B Tr A, they are linear and preserve the trace. "
     "A dimension that does not divide the size is refused.",
     "all matrices (real, complex, Hermitian or not), all factorisations including non-powers of two",
     "Tests use Bell and product states where the two reductions or their transposes coincide.",
     [U], [("partial_trace_blockTr", U), ("partial_trace_diagblocksum", U)])
prop("C18", "State casting accepts exactly valid states and preserves them",
     "Density matrices are returned unchanged, normalised vectors (flat, column or row) become their projector, probability vectors become the diagonal state, lists are accepted like arrays, and casting to a distribution returns the real, non-negative diagonal of that state. "
     "Vectors normalised in neither norm, non-square arrays, and matrices that are clearly not unit-trace, not Hermitian or not positive are rejected with an error, never silently repaired.",
     "all states and vectors of any dimension, all clearly invalid inputs",
     "Tests show a few valid and invalid examples; acceptance and rejection quantify over all inputs.",
     [U], [("cast_to_density_matrix", U), ("cast_to_pdf", U)])
prop("C19", "Numerical cleaning rounds and zeroes, and nothing else",
     "Cleaning sets every value whose magnitude is below the threshold to zero, rounds every other value to the threshold's number of decimals, drops imaginary parts only when all of them are below the threshold, keeps the shape (lists stay lists), treats an integer threshold k as 10^-k, is idempotent for power-of-ten thresholds, returns non-numeric strings unchanged, and refuses unsupported types with TypeError. "
     "Formatted output shows the value to the requested number of decimals, and the printing helper shows the cleaned values with no more than the requested number of decimals and leaves the global print options as they were, whatever it prints.",
     "all scalars, lists, arrays and matrices, real or complex, all thresholds",
     "Tests use a few values far from the threshold; values in its vicinity and non-power-of-ten thresholds were wrong.",
     [U], [("clean", U), ("formatted_output", U), ("print_custom", U)])
prop("C20", "Classical divergences equal their definitions and obey their laws",
     "Total variation, Kullback-Leibler divergence, Jensen-Shannon divergence and Bhattacharyya coefficient equal their defining sums (natural logarithm, 0 log 0 = 0, infinite KL exactly when support is missing) for every pair of distributions, given as vectors, wavefunctions or density matrices (through their diagonals). "
     "They satisfy symmetry, bounds (0..1, >= 0, 0..log 2, 0..1), identity of indiscernibles, Pinsker's inequality and monotonicity under coarse-graining.",
     "all pairs of distributions of any length and support, all input forms",
     "Tests use two- and four-element examples; zeros, tiny probabilities and other input forms are the hard part.",
     [D], [("total_variation_distance", D), ("relative_entropy", D), ("jensen_shannon_divergence", D), ("bhattacharyya_coeff", D)])
prop("C21", "Renyi and linear entropies equal their definitions for all orders",
     "For every distribution and every order alpha >= 0, including 0, 1, infinity, very small, very large and near-1 orders, the Renyi entropy equals log(sum p^alpha)/(1-alpha) or its limit: it is finite, between 0 and log(support size), non-increasing in alpha, additive over product distributions and invariant under permutation and zero padding. "
     "Linear entropy is 1 - sum p^2 for every distribution of perfect-square length, and other lengths are refused.",
     "all distributions and all orders",
     "Tests use a few orders on a few distributions; extreme orders overflowed to infinity unnoticed.",
     [D], [("renyi_entropy", D), ("linear_entropy", D)])
prop("C22", "Stabilizer distribution and stabilizer entropy are exact and Clifford-invariant",
     "For every n-qubit state the stabilizer distribution is Tr[P rho]^2/(2^n Tr rho^2) over all Paulis P in enumeration order, non-negative and summing to one; the stabilizer entropy is its Renyi entropy minus n log 2, except that it is 0 for the maximally mixed state. "
     "It is invariant under Clifford unitaries, additive over tensor products of pure states, zero exactly on stabilizer states among pure states for alpha > 0 and positive otherwise, and the same for a wavefunction and its density matrix.",
     "all states (pure, mixed, rank-deficient), all Clifford circuits, all orders",
     "Tests evaluate a few named states.",
     [D, L], [("stabilizer_distribution", D), ("SRE", D)])
prop("C23", "Covariance spectrum and fermionic anti-flatness are exact and Gaussian-invariant",
     "For every n-site state the covariance distribution consists of the non-zero squared singular values, one per pair, of the real antisymmetric Majorana covariance matrix, all between 0 and 1; the anti-flatness of order k is n - Tr[(M^T M)^k]/2. "
     "It lies between 0 and n, is non-decreasing in k, vanishes on pure Gaussian states, is invariant under Gaussian unitaries, and is the same for a wavefunction and its density matrix.",
     "all states including parity-mixing and degenerate ones, all orders k >= 1, all Gaussian unitaries",
     "Tests evaluate a few states; degenerate and vanishing covariance eigenvalues are where extraction fails.",
     [D, L], [("cov_distribution", D), ("FAF", D), ("compute_cov_matrix", L)])
prop("C24", "Quantum trace distance is the trace-norm metric",
     "For every pair of states, given as density matrices, wavefunctions or probability vectors, the trace distance is half the trace norm of their difference: a metric between 0 and 1, invariant under unitaries, non-increasing under partial trace, equal to sqrt(1 - overlap) for pure states, to total variation for diagonal states, and never below the total variation of the diagonals.",
     "all pairs and triples of states, all unitaries",
     "Tests compare identical and orthogonal states.",
     [D], [("trace_distance", D)])
prop("C25", "Random free-fermion objects are valid and Gaussian",
     "For every size and seed: the random orbital rotation is a canonical symplectic unitary, uniformly distributed over special orthogonal mode rotations, and the random rotation operator built from the same seed is the unitary that implements it on the ladder operators and is exp(-iH) of the Hermitian quadratic generator returned for that seed. "
     "Random generators have the documented block form, with isotropic Gaussian entries and no pairing when particle-number conserving; when particle-number conservation is requested the returned generator commutes with the number operator; thermal, rotated-distribution, vacuum-rotated and occupied random states are normalised, of definite parity symmetry, Gaussian where claimed (pure ones have zero anti-flatness, thermal ones obey Wick's theorem), pure ones unbiased over their parity sector, and the returned generator or probability vector is the one the returned state was made from.",
     "all sizes, seeds and option combinations",
     "Tests check shapes and normalisation for a few seeds; a returned generator that did not belong to the state went unnoticed.",
     [L, R], [("random_FF_rotation", L), ("random_FF_state", L), ("random_H_generator", L), ("random_FF_pure_state_W0", R), ("random_FF_pure_state_WN", R), ("random_FF_pure_state_CN", R), ("random_FF_state_randH", R), ("random_FF_state_rotPDF", R)])
prop("C26", "Random qubit states, stabilizer states and bit strings are valid and unbiased",
     "Random mixed states are unit-trace positive matrices, random pure states normalised vectors, random Clifford states normalised stabilizer states, random bit strings 0/1 integer vectors of exactly the requested length and weight (None for an impossible weight). "
     "Over repeated draws no basis direction, Pauli direction or bit position is preferred: first and second moments match the uniform (Haar, uniform stabilizer, uniform subset) distribution.",
     "all sizes, weights and seeds; statistics over repeated draws",
     "Tests check shapes and norms of a few draws; a biased or non-uniform generator passes them.",
     [R, U], [("random_qubit_state", R), ("random_qubit_pure_state", R), ("random_CHP_state", R), ("generate_random_bitstring", U)], over=("inputs", "histories"))
prop("C27", "Seeded generation is reproducible and seed-sensitive",
     "Every generator that takes a seed returns the same object when called again with the same arguments and seed - any integer seed from 0 to 2^32-1, whatever was generated or seeded before - and different objects for different seeds. "
     "Without a seed, successive calls give different objects, and seeding the global generators makes the whole sequence of calls reproducible.",
     "all generators, seeds (0 included), option combinations and preceding call histories",
     "Tests repeat one or two calls with one seed; seed 0 was ignored by one generator unnoticed.",
     [L, R, G], [("seed handling", L), ("seed handling", R), ("generate_random_planar_graph", G)], over=("inputs", "histories"))
prop("C28", "Orthonormal completion and state paths have the stated endpoints and geometry",
     "For every non-zero real or complex vector of dimension at least two, the completion is unitary with the normalised vector as its first column (the identity for a zero vector). "
     "The unitary path between two vectors starts at the first and ends at the second normalised vector, preserves the norm at every parameter and is a one-parameter unitary flow; the linear path is the normalised straight line between them.",
     "all pairs of non-zero vectors, parallel, orthogonal and antipodal ones included; all parameters in [0, 1]",
     "Tests evaluate a few paths between simple vectors.",
     [R], [("get_orthogonal_vectors", R), ("build_unitary_path", R), ("build_linear_path", R)])
prop("C29", "Calls are pure: inputs untouched, results fresh, history irrelevant",
     "No library function modifies an array, list or graph it is given (the face-completion step, whose purpose is to update the ordering it is given, excepted); modifying a returned object never changes what a later call returns, and a returned path does not change when its end points are overwritten afterwards. "
     "A deterministic function returns the same result for the same arguments whatever calls came before, and leaves the global random state and print options unchanged.",
     "all sequences of calls with shared inputs and scribbled results",
     "Tests call each function once on fresh inputs; only histories reveal mutation, aliasing or caching.",
     [L, C, G, D, R, U], [("all public functions", I)], over=("histories", "inputs"))
prop("C30", "Invalid arguments are refused in the documented way",
     "The generators of the random-states module and the Pauli enumeration raise TypeError for a non-integer and ValueError for a non-positive number of qubits or sites, and ValueError for a particle number that is not an integer in 0..n; plotting of populations raises TypeError for non-array input and ValueError for empty or unnormalised input. "
     "Gaussian-state generation returns 0 for a Hamiltonian of neither size, and rotation returns 0 for a matrix smaller than the operator list; cleaning an unsupported type (TypeError), the depth of a non-tree (ValueError), the linear entropy of a length that is no perfect square (AssertionError), and partial traces to a dimension that does not divide are refused; valid arguments are never refused.",
     "all argument values outside (and inside) the documented domains",
     "Tests try one bad value for some functions.",
     [R, L, U], [("input validation", R), ("generate_pauli_group", L), ("generate_gaussian_state", L), ("analyze_pdf", U)])
prop("C31", "Plots and returned graphs show the data they were given",
     "The weighted-graph view of a matrix or graph returns a graph on nodes 0..n-1 with exactly the non-zero off-diagonal entries as edges, weighted by the entries to four decimals, undirected when the matrix is symmetric and directed (row to column, loops included) otherwise; nodes, edge weights and the matching given are drawn. "
     "The population plot draws the diagonal of the state and its eigenvalues in descending order, on a logarithmic axis with the given name in the title, as stems or lines; the planar-embedding plot draws every edge at planar positions and highlights oriented edges in the direction of the ordering (a negative entry [i, j] points from the i-th to the j-th node).",
     "all matrices, graphs, states, names and styles",
     "Tests only check that plotting does not raise.",
     [G, U], [("plot_graph_with_edge_weights", G), ("plot_planar_embedding", G), ("analyze_pdf", U)])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
