def prop(id, title, statement, over, qtext, why, files, mech, note=None, reason=None, state=(), observe=()):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a)
    if note:
        d["note"] = note
    if reason:
        d["reason"] = reason
    return d


TRUST = "Trusted: clang's AST, the VC generator in vc/, the solvers, contracts of GMP/FLINT/libc calls; array accesses are assumed in bounds. "
PROPS = [
    prop("P01", "Monomial comparisons implement the requested monomial order",
         "Whenever two monomials are compared - sorting the terms of an input polynomial, ordering input polynomials, ordering matrix columns, "
         "ordering S-pairs by their least common multiple - the outcome is that of the requested order: degree reverse lexicographic, lexicographic, "
         "or two-block elimination with degree reverse lexicographic blocks. The comparison is a total order compatible with multiplication, and all "
         "comparison routines in use agree on which of two monomials is larger.",
         ["inputs", "configurations"], "every number of variables, every elimination block size, every pair of exponent vectors, each monomial order",
         "Tests run a few systems in degree reverse lexicographic order with small exponents; ties decided deep in a long exponent vector, the block boundary and the lexicographic comparators are barely reached.",
         ["src/neogb/order.c", "src/neogb/io.c", "src/neogb/data.h"],
         [("monomial_cmp_{drl,lex,be}, initial_input_cmp_*, initial_gens_cmp_*, hcm_cmp_pivots_*, spair_cmp_*", "src/neogb/order.c"),
          ("set_function_pointers installs one family for the requested order", "src/neogb/io.c")],
         TRUST + "Every comparator is proved against the definition of its order for all exponent vectors, the order lemmas (asymmetry, transitivity, compatibility with products) are discharged separately. Sorting itself (sort_r, qsort) is not under contract."),
    prop("P02", "Divisibility, coprimality and reducer lookup are exact",
         "A monomial is reported to divide another exactly when each of its exponents is at most the other's; the divisor masks that filter these tests never reject a true divisor, whatever thresholds they were built with. "
         "The pair update drops exactly the multiples it is asked to drop, coprimality holds exactly when no variable is shared, and a reducer is found for a monomial exactly when a current lead monomial divides it; "
         "that reducer row is the product with this monomial as its lead term.",
         ["inputs", "histories"], "every number of variables, block size and set of exponent vectors, every assignment of mask thresholds",
         "Tests have few variables and small exponents; a mask that wrongly rejects a divisor only makes the computation slower or loses a reducer now and then, and the final answer often survives.",
         ["src/neogb/hash.c", "src/neogb/symbol.c", "src/neogb/update.c"],
         [("generate_short_divmask, calculate_divmask, check_monomial_division, check_monomial_division_in_update, prime_monomials, get_lcm, check_lm_divisibility_and_insert_in_hash_table", "src/neogb/hash.c"),
          ("find_multiplied_reducer", "src/neogb/symbol.c")],
         TRUST + "The mask, the divisibility tests and coprimality are proved for all tables; reducer lookup, least common multiples and the thresholds are bounded replays."),
    prop("P03", "A hash table gives each monomial exactly one index",
         "Inserting a monomial returns the index it already has in that table, or a fresh index whose stored exponent vector, degree, hash value and divisor mask are those of the monomial. "
         "Indices handed out earlier keep designating the same monomials through insertions, growth of the table, transfers between tables and resets, and two different monomials never share an index, also when their hash values collide. "
         "Products, least common multiples and rows inserted through the table designate the right monomials.",
         ["inputs", "histories"], "all sequences of insertions, all hash values including colliding ones, all table sizes",
         "Collisions of complete hash values and growth in the middle of a row do not occur in the systems tested.",
         ["src/neogb/hash.c"],
         [("insert_in_hash_table, insert_multiplied_poly_in_hash_table, insert_poly_in_hash_table, insert_multiplied_signature_in_hash_table, reinsert_in_hash_table, enlarge_hash_table, reset_hash_table, "
           "switch_hcm_data_to_basis_hash_table, insert_plcms_in_basis_hash_table, get_lcm", "src/neogb/hash.c")],
         TRUST + "insert_in_hash_table is proved against a table invariant for all tables and hash values (also when the argument is a row of the table); growth, resets and the other inserting routines are bounded replays.",
         state=[("hmap, hd, ev, eld", "open-addressing table over exponent vectors", "src/neogb/data.h: struct ht_t")]),
    prop("P04", "Modular inverses are exact and rows are made monic",
         "The inverse computed for a nonzero value modulo a prime is the reduced residue whose product with it is one. Making a row monic replaces each coefficient by its quotient by the leading coefficient modulo the prime, "
         "makes the leading coefficient one and touches nothing else, for every row length and every prime of the 8-, 16- and 32-bit arithmetic; the same holds for the input polynomials.",
         ["inputs"], "every prime up to 2^8, 2^16 and 2^32 respectively, every unit, rows of every length",
         "Tests use a handful of primes far from the limits of the integer types.",
         ["src/neogb/tools.h", "src/neogb/la_ff_8.c", "src/neogb/la_ff_16.c", "src/neogb/la_ff_32.c", "src/neogb/basis.c"],
         [("mod_p_inverse_8, mod_p_inverse_16, mod_p_inverse_32", "src/neogb/tools.h"),
          ("normalize_dense_matrix_row_ff_*, normalize_sparse_matrix_row_ff_*, multiply_sparse_matrix_row_ff_32, adjust_multiplier_sparse_matrix_row_ff_32", "src/neogb/la_ff_8.c, la_ff_16.c, la_ff_32.c"),
          ("normalize_initial_basis_ff_8, _16, _32", "src/neogb/basis.c")],
         TRUST + "All functions named are proved, for all lengths and primes; that a nonzero residue modulo a prime has an inverse is the hypothesis."),
    prop("P05", "F4 row reductions are exact modulo the prime",
         "A row reduced by the known pivot rows becomes its normal form modulo the prime: it changes by a combination of pivot rows, every entry is reduced, every column that has a pivot is cleared, and the row returned lists exactly the nonzero entries "
         "in increasing columns, or no row is returned exactly when all entries are zero. When a computation is traced, exactly the reducers used are recorded. "
         "The rows produced by the linear algebra of a matrix are the reduced echelon form of its lower part modulo its upper part, a row reducing to zero while a trace is applied is reported, and every variant (field size, vector instructions, dense, sparse, traced) agrees; "
         "the probabilistic variants never produce a row outside the row space.",
         ["inputs"], "all matrix shapes, all entries, all primes of each arithmetic (8, 16, 17 and 31 bit), all lengths of pivot rows, all vector builds",
         "The tests' matrices are small and use one or two primes on one instruction set; an overflow of an accumulator, a lost lane or a wrong remainder loop needs particular lengths and entries.",
         ["src/neogb/la_ff_8.c", "src/neogb/la_ff_16.c", "src/neogb/la_ff_32.c", "src/neogb/tools.c"],
         [("reduce_dense_row_by_known_pivots_sparse_31_bit, _17_bit, _ff_16, _ff_8 and their trace_ and sba_ variants", "src/neogb/la_ff_32.c, la_ff_16.c, la_ff_8.c"),
          ("reduce_dense_row_by_old_pivots_*, reduce_dense_row_by_dense_new_pivots_*, reduce_dense_row_by_all_pivots_*, exact_*_linear_algebra_*, probabilistic_*_linear_algebra_*, interreduce_matrix_rows_*, compute_kernel_sat_ff_32", "src/neogb/la_ff_8.c, la_ff_16.c, la_ff_32.c"),
          ("construct_trace", "src/neogb/tools.c")],
         TRUST + "The eight sparse reduction kernels are proved for all sizes (31 bit: also with AVX2 and AVX512, 17 bit: also with AVX2; 17 bit under at most 2^26 columns); the dense kernels, the drivers around them and the saturation kernel are bounded replays against elimination in Python."),
    prop("P06", "Chinese remaindering keeps all residues and the agreed range",
         "When the residue of a coefficient modulo a new prime is combined with its value modulo the product of the earlier primes, the new value has both residues, "
         "and lies in the symmetric range around zero when signed representatives are requested and in the range from zero to the new modulus otherwise. "
         "This holds for every coefficient of the polynomials and rows being lifted, and no other coefficient changes.",
         ["inputs", "histories"], "all residues, all moduli, all primes up to 64 bits, in-place and out-of-place, histories of any length by induction on one step",
         "Tests lift a handful of systems whose coefficients never sit at the edges of the range, and an error in the last residue is usually masked by later primes.",
         ["src/crt/mpz_CRT_ui.c", "src/msolve/msolve.c", "src/msolve/lifting.c", "src/msolve/lifting-gb.c"],
         [("mpz_CRT_ui, _mpz_CRT_ui_precomp", "src/crt/mpz_CRT_ui.c"), ("crt_lift_mpz_upoly, crt_lift_mpz_param", "src/msolve/msolve.c"),
          ("crt_lift_dense_rows", "src/msolve/lifting.c"), ("incremental_dlift_crt, incremental_dlift_crt_full", "src/msolve/lifting-gb.c")],
         TRUST + "The combination step and the two array liftings are proved; the parametrisation and Groebner-basis lifting loops around them are bounded replays."),
    prop("P07", "Rational reconstruction is sound, and complete within its bounds",
         "A fraction returned as reconstructed from a residue is in lowest terms, has a positive denominator, respects the numerator and denominator bounds in force, and is congruent to the residue "
         "(to the residue times the guessed denominator where one is supplied). If some fraction within the bounds has that residue and twice the product of the bounds is smaller than the modulus, reconstruction succeeds and returns exactly that fraction.",
         ["inputs"], "all residues, moduli, bounds and guessed denominators",
         "Tests reconstruct the coefficients of a few systems; fractions at the edge of the bounds and failing reconstructions are not exercised.",
         ["src/crt/mpq_reconstruct.c", "src/msolve/msolve.c", "src/msolve/lifting.c", "src/msolve/lifting-gb.c"],
         [("ratrecon, ratreconwden", "src/crt/mpq_reconstruct.c"), ("rational_reconstruction_mpz_ptr, rational_reconstruction_mpz_ptr_with_denom, set_recdata, reconstructcoeff, ratrecon_lift_modgbs", "src/msolve")],
         TRUST + "ratrecon and ratreconwden are proved sound and complete; the loops that apply them to whole polynomials are bounded replays."),
    prop("P08", "Real root isolation finds every real root exactly once",
         "For a square-free univariate integer polynomial the solver returns, in increasing order with the negative ones first, one record for every real root: either the exact dyadic value of the root, or an open dyadic interval containing that root and no other. No root is lost, duplicated or invented, whatever the degree (also beyond the block size of the divide-and-conquer shift), the size of the coefficients, the position of the roots (zero, dyadic, close together, huge, tiny, of both signs), and the number of threads; with a requested precision the intervals have at most that width. "
         "The root bound is at least every positive root; scaling by a power of two, shifting by one, dividing by an exact linear factor and counting sign changes are exact, and a count on truncated coefficients is used only when the truncation cannot have changed it.",
         ["inputs"], "all square-free integer polynomials, all precisions, all thread counts",
         "Tests isolate the roots of a few polynomials of small degree; roots on the bisection grid, truncated counts and degrees above 256 need particular inputs.",
         ["src/usolve/usolve.c", "src/usolve/descartes.c", "src/usolve/taylor_shift.c", "src/usolve/utils.c"],
         [("bound_roots, merge_root, mpz_poly_sgn_variations_coeffs_is_zero, mpz_poly_sign_at_one, sgn_mpz_upoly_eval_onehalf, numer_quotient_uint, nb_0_case_in_bisection_rec, nb_1_case_in_bisection_rec, nb_2_case_in_bisection_rec, bisection_rec, bisection_Uspensky, real_roots", "src/usolve/usolve.c"),
          ("mpz_poly_sgn_variations_coeffs, descartes, descartes_truncate", "src/usolve/descartes.c"),
          ("taylorshift1_naive, taylorshift1_dac, taylorshift1_dac_wsgnvar, mpz_poly_add, mpz_poly_add_th, mpz_poly_swap_th, rescale_upoly_2exp, mpz_poly_sgn_variations_coeffs_bsize_with_index", "src/usolve/taylor_shift.c"),
          ("mpz_poly_max_bsize_coeffs, mpz_poly_remove_binary_content, USOLVEmpz_poly_rescale_normalize_2exp_th, USOLVEmpz_poly_sgn_variations_coeffs_bsize", "src/usolve/utils.c")],
         TRUST + "The building blocks (bound, scaling, naive shift as a polynomial identity, sign counts, quotient, recording of roots, leaves of the bisection) are proved. The recursion (bisection_rec), the divide-and-conquer shift and the driver are a bounded replay against Sturm sequences in rational arithmetic; that Descartes' rule and the bound of Kioustelidis are theorems is assumed."),
    prop("P09", "Every coordinate box returned for a real solution contains that solution",
         "Evaluations of an integer polynomial at dyadic points are exact up to the stated power of two; enclosures of polynomials over an interval of points contain the value at every point of it, for all signs of the bounds and of the coefficients; tables of powers and enclosures of the denominator are correctly rounded outwards, and a denominator enclosure is reported usable only when it excludes zero. "
         "For a parametrisation with integer coefficients and an isolating interval of its eliminating polynomial, each coordinate of the reported point is an interval, or an exact value, that contains the coordinate of the real solution, and its width is at most two to the minus the requested precision. Real solutions are neither lost nor duplicated when they are written out.",
         ["inputs"], "all integer polynomials, all dyadic intervals of either sign, all precisions, all denominators and coordinate polynomials",
         "Tests compare printed boxes of a few systems; an enclosure wrong by one unit or for one sign pattern stays inside the tolerance or never occurs.",
         ["src/msolve/msolve.c", "src/usolve/evaluate.c"],
         [("mpz_poly_eval_2exp_naive, mpz_poly_eval_2exp_naive2, mpz_poly_eval_interval, mpz_scalar_product_interval", "src/usolve/evaluate.c"),
          ("generate_table_values_full, newvalue_denom, value_denom, extract_real_roots_param, isolate_real_roots_param, normalize_points, display_real_points", "src/msolve/msolve.c")],
         TRUST + "The evaluation kernels, the interval scalar product, the power tables and the denominator enclosures are proved. The driver loops (extract_real_roots_param, isolate_real_roots_param and the printing) are a bounded replay against Sturm sequences in rational arithmetic."),
    prop("P10", "Refining an isolating interval keeps its root and reaches the precision",
         "From an interval over which the square-free integer polynomial changes sign, every refinement step and the repeated refinement return either a smaller interval inside the given one over which the polynomial still changes sign, or an exact root strictly inside it; an unsuccessful step leaves the interval as it was. "
         "After refinement an interval that is not an exact root has width at most two to the minus the requested precision. When an exact root is met the polynomial is divided exactly by its linear factor, up to a power of two. This holds for positive and for negative roots, for intervals longer and shorter than one, and when several roots are refined one after another.",
         ["inputs"], "all square-free integer polynomials, all dyadic intervals with a sign change, all precisions",
         "Tests print a few roots; the interpolation step goes through rarely taken branches (failed guesses, walks to the neighbour, hits on exact roots, long intervals) that depend on the coefficients.",
         ["src/usolve/refine.c", "src/usolve/evaluate.c", "src/usolve/utils.c"],
         [("refine_root_by_N_positive_k, refine_root_by_N_negative_k, refine_positive_root_by_N, refine_QIR_positive_root, get_values_at_bounds, refine_QIR_roots, refine_QIR_roots_adaptative", "src/usolve/refine.c"),
          ("basic_mpz_poly_eval_at_point, mpz_poly_eval_2exp_naive", "src/usolve/evaluate.c"), ("USOLVEnumer_quotient, mpz_poly_remove_binary_content", "src/usolve/utils.c")],
         TRUST + "Every function of one root's refinement is proved, with the linear interpolation, the interval walks and the removal of exact roots. The loops over all roots (refine_QIR_roots, refine_QIR_roots_adaptative) are a bounded replay. Termination is not proved."),
    prop("P11", "Change of order yields a parametrisation of all the solutions",
         "The products of the multiplication matrix with vectors that drive the change of order are exact modulo the prime: each coordinate is copied, zero, or the full scalar product of the vector with its dense row, in every build of the kernels, for all sizes. "
         "The parametrisation modulo the prime has a monic squarefree eliminating polynomial vanishing exactly at the values of the last variable at the solutions, and gives the other coordinates of every solution; "
         "when the last variable does not separate the solutions, success is not reported. Later primes of another degree are refused.",
         ["inputs"], "all matrix sizes and entries, all primes accepted by the callers, all zero-dimensional ideals in the required position",
         "Tests run a few systems with small quotients; full accumulators, ragged row lengths and ideals in special position do not occur.",
         ["src/fglm/linalg-fglm.c", "src/fglm/fglm_core.c", "src/fglm/berlekamp_massey.c"],
         [("non_avx_matrix_vector_product, _8mul_matrix_vector_product, sparse_mat_fglm_mult_vec, sparse_mat_fglm_colon_mult_vec", "src/fglm/linalg-fglm.c, src/fglm/fglm_core.c"),
          ("generate_sequence_verif, compute_minpoly, compute_parametrizations, invert_table_polynomial, divide_table_polynomials, nmod_fglm_compute_trace_data, nmod_fglm_compute_apply_trace_data", "src/fglm/fglm_core.c")],
         TRUST + "The kernels and the two matrix products are proved without and with AVX2. The construction of the parametrisation (FLINT polynomials, Berlekamp-Massey, random start vector) is a bounded replay on algebras given by their solutions."),
]
NA = []
