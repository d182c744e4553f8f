NA = {}
prop('P01', 'Field arithmetic is exact modulo the BN254 scalar prime',
     'For all pairs of field elements, in any order and mixture of operations, sums, differences, products and negations computed by the library equal the corresponding operation on residues modulo the prime used by the proof system. Every result is again a canonical residue whose equality with other results is decided by value.',
     ['inputs', 'histories'], 'all operand pairs and all chains of operations (operands may be unreduced sums as the implementation keeps them)',
     'There are about 2^508 operand pairs; carry, borrow and quotient-estimate corner cases have probability around 2^-60 and are not met by running proofs.',
     [LG + 'prime_field.cpp', 'include/linear_gkr/prime_field.h'], [('operators on field elements', LG + 'prime_field.cpp: field_element operator+,-,*, unary -'), ('reduction', LG + 'prime_field.cpp: u512b operator%')],
     ['256-bit limbs of an element', 'global modulus and its pre-computed multiples'], ['value of each result modulo the prime'])
prop('P02', 'Wide-integer operations are exact',
     'For all operands, the fixed-width unsigned 256- and 512-bit integers add, subtract, multiply and reduce exactly as the mathematical integers do modulo two to their width. Reading a bit of a 256-bit integer returns that bit of its binary expansion, for every position.',
     ['inputs'], 'all operands, all bit positions',
     'Carry chains across limbs and boundary positions are reached by a vanishing fraction of inputs.',
     [LG + 'prime_field.cpp', 'include/linear_gkr/prime_field.h'], [('256-bit operators', LG + 'prime_field.cpp: u256b'), ('512-bit operators', LG + 'prime_field.cpp: u512b')],
     ['limbs'], ['value of each result'])
prop('P03', 'Comparisons and equality agree with numeric value',
     'For all operands, every ordering and equality test on wide integers and field elements answers exactly what the same test on the represented numbers (for field elements: on the residues) answers. Exactly one of less, equal and greater holds.',
     ['inputs'], 'all operand pairs',
     'A comparison wrong only when high limbs tie, or for unreduced representations, accepts or rejects proofs on inputs tests do not draw.',
     [LG + 'prime_field.cpp'], [('comparison operators', LG + 'prime_field.cpp: u256b, u512b, field_element operator<,>,<=,>=,==,!=')], ['limbs'], ['boolean results'])
prop('P04', 'Field set-up and conversions preserve value',
     'After initialisation the modulus is the BN254 scalar prime and all derived constants agree with it. Constructing an element from an integer of either sign or from a decimal string yields the residue of that number, and exporting an element to a big integer or to bits returns exactly its residue.',
     ['inputs'], 'all machine integers, all decimal numerals, all field elements',
     'The tests convert only small non-negative constants.',
     [LG + 'prime_field.cpp'], [('constants', LG + 'prime_field.cpp: init'), ('conversions', LG + 'prime_field.cpp: field_element constructors, to_gmp_class, bit_stream, u256b constructors')],
     ['global modulus and constants'], ['value of converted number'])
prop('P05', 'Low-degree polynomials are evaluated and combined exactly',
     'For all coefficient values and all points, evaluating a linear-to-quintic univariate polynomial returns the value of that polynomial in the field, and the addition and multiplication of polynomials that the library offers commute with evaluation. These objects are the round messages of every sumcheck.',
     ['inputs'], 'all coefficients, all points',
     'Only the coefficients of honest proofs are sampled; a wrong high-degree coefficient can cancel there.',
     [LG + 'polynomial.cpp', 'include/linear_gkr/polynomial.h'], [('polynomial classes', LG + 'polynomial.cpp')], ['coefficients'], ['evaluated field element'])
prop('P06', 'Circuit evaluation gives every gate its defined value (linear-time prover)',
     'For every layered circuit and every input assignment, the honest linear-time prover computes for each gate of each layer exactly the field value defined by that gate\'s operation (input, constant, sum, product, difference, negation, xor, not-a-and-b, range sum, relay, dummy zero) on the values of the previous layer. The output it returns is the last layer of that evaluation, every value being a canonical residue.',
     ['inputs', 'configurations'], 'all layered circuits (depth, layer sizes, gate types, wirings) and all inputs',
     'The tests only run whole proofs of a few generated circuits and compare the printed verdict; an evaluation error that is consistent between prover and verifier, or in a gate type/operand pattern they do not generate, is invisible.',
     [LG + 'prover_fast_track.cpp', 'include/linear_gkr/circuit_fast_track.h'], [('gate semantics, value tables', LG + 'prover_fast_track.cpp: prover::evaluate, get_circuit')],
     ['value table of each layer'], ['returned output vector', 'value table of each layer'])
prop('P07', 'Multilinear extension evaluation is exact',
     'For every table of 2^n field elements and every point r, evaluating the table\'s multilinear extension at r - by the prover and, independently, by the verifier for its own output and input claims - returns the sum over x of table[x] times the equality weight of x at r. The table itself is left unchanged.',
     ['inputs'], 'all n, all tables, all points',
     'Tests never evaluate an extension in isolation; a wrong weight order or a dropped term cancels when the same code is used on both sides of a check.',
     [LG + 'prover_fast_track.cpp', LG + 'verifier_fast_track.cpp'], [('folding by one coordinate at a time', 'prover::V_res, verifier::V_in')], [], ['returned field element'])
prop('P08', 'Verifier\'s wiring predicates equal their multilinear definitions (linear-time)',
     'For every layer and every verifier challenge, the value the verifier uses for each gate type\'s wiring predicate equals the multilinear extension of that type\'s wiring relation, combined over the two output points with the layer\'s two random weights. Equality tables it builds for the challenges hold the product weight at every index.',
     ['inputs', 'configurations'], 'all circuits, all layers, all challenge vectors and combination weights',
     'An honest proof accepted by the tests exercises each predicate on a handful of circuits with fixed pseudo-random challenges; a predicate wrong only for some wiring patterns or layer sizes is not reached.',
     [LG + 'verifier_fast_track.cpp'], [('equality tables', 'verifier::beta_init'), ('per-type predicate sums', 'verifier::add, mult, not_gate, xor_gate, minus_gate, NAAB_gate, sum_gate, relay_gate, direct_relay')],
     ['beta_g_r0, beta_g_r1, beta_u, beta_v'], ['predicate values used in the final check of a layer'])
prop('P09', 'Honest prover\'s sumcheck messages are the specified round polynomials (linear-time)',
     'In every round of both sumcheck phases of every layer, the honest linear-time prover\'s message is the univariate polynomial obtained by summing the layer polynomial over the remaining variables with earlier variables bound to the received challenges. Its claims at the end of the layer are the values of the previous layer\'s multilinear extension at the two challenge points.',
     ['inputs', 'histories', 'configurations'], 'all circuits, all layers and rounds, all challenge histories',
     'Tests see only accept/reject on a few circuits; the bookkeeping tables are exercised for few sizes and gate mixes.',
     [LG + 'prover_fast_track.cpp'], [('bookkeeping tables of phase one', 'prover::sumcheck_phase1_init'), ('phase two', 'prover::sumcheck_phase2_init'), ('round messages', 'prover::sumcheck_phase1_update, sumcheck_phase2_update'), ('final claims', 'prover::sumcheck_finalize')],
     ['V_mult_add, add_mult_sum, addV_array, beta tables'], ['messages returned to the verifier'])
prop('P10', 'Linear-time verifier accepts exactly the transcripts that pass every protocol check',
     'For every circuit, every prover (honest or malicious) and every sequence of messages, the linear-time verifier accepts if and only if the claimed output\'s extension opens the first claim, every round polynomial sums to the current claim, every layer\'s final claim equals the gate polynomial at the claimed values, the value of V(u) used during the phase is the one claimed at the end, and the last claims match the verifier\'s own evaluation of the input. No challenge is disclosed to the prover before the message it must follow.',
     ['inputs', 'histories', 'fault_sequences'], 'all circuits, all prover messages (adversarial), all challenges',
     'The tests only run the honest prover, so a missing or weakened check changes nothing they observe.',
     [LG + 'verifier_fast_track.cpp'], [('protocol loop', 'verifier::verify'), ('wiring predicates', 'verifier::*_gate, beta_init'), ('own evaluation of output and input', 'verifier::V_in')],
     ['running claim, alpha/beta, challenge vectors'], ['boolean result of a proof run'])
prop('P11', 'Honest proofs are always accepted (linear-time)',
     'For every well-formed layered circuit and every input, the linear-time verifier interacting with the honest linear-time prover accepts, for every choice of challenges. The accepted output is the circuit\'s true output.',
     ['inputs', 'configurations', 'histories'], 'all circuits, inputs and challenges',
     'Tests run a few dozen generated circuits with one unseeded challenge sequence each.',
     [LG + 'prover_fast_track.cpp', LG + 'verifier_fast_track.cpp'], [('round messages against round checks', 'prover::sumcheck_*, verifier::verify'), ('gate polynomial', 'prover::sumcheck_phase1_init, phase2_init against verifier::*_gate')],
     ['all bookkeeping tables'], ['boolean result of a proof run'])
prop('P12', 'Evaluation and extensions are exact in the C log C and data-parallel provers',
     'For every layered circuit of additions, multiplications, constants and dummy gates and every input, the C log C prover, and the data-parallel prover for each of its copies, give every gate the field value its type defines and return the last layer (copy after copy in the data-parallel case). Both sides\' evaluations of the multilinear extension of a table at a point - for the data-parallel case at a pair of copy point and gate point - equal the sum of the entries times their equality weights.',
     ['inputs', 'configurations'], 'all layered circuits, all numbers of copies 2^m, all inputs, tables and points',
     'The tests only compare the verdict of whole proofs of a few generated circuits; errors consistent on both sides are invisible.',
     [TG + 'prover_clogc.cpp', TG + 'verifier_traditional.cpp', TG + 'prover_bc_clogc.cpp', TG + 'verifier_bc_clogc.cpp'],
     [('gate semantics', 'prover::evaluate in prover_clogc.cpp and prover_bc_clogc.cpp'), ('folding', 'prover::V_res, verifier::V_in')],
     ['value tables'], ['returned output vector', 'returned field element'])
prop('P13', 'Honest C log C proofs are always accepted, with the specified messages',
     'For every layered circuit of additions, multiplications and dummy gates, every input and every choice of challenges, each round message of the honest C log C prover is the specified sum over the remaining variables, its final claims are the values of the previous layer\'s extension at the two challenge points, and the verifier accepts. The accepted output is the circuit\'s true output.',
     ['inputs', 'configurations', 'histories'], 'all circuits, inputs, layers, rounds and challenge histories',
     'Tests run a few generated circuits with one challenge sequence each and see only the verdict.',
     [TG + 'prover_clogc.cpp', TG + 'verifier_traditional.cpp'],
     [('gate weights', 'prover::sumcheck_phase1_init'), ('round messages', 'prover::sumcheck_phase1_update, sumcheck_phase2_update'), ('phase change and claims', 'prover::sumcheck_phase2_init, sumcheck_finalize'), ('matching checks', 'verifier::verify')],
     ['beta_g_sum, V_mult_add'], ['messages returned to the verifier', 'boolean result of a proof run'])
prop('P14', 'C log C verifier accepts exactly the transcripts that pass every protocol check',
     'For every circuit, every prover (honest or malicious) and every sequence of messages, the C log C verifier accepts if and only if the claimed output\'s extension, evaluated by the verifier itself, opens the first claim, every round polynomial sums to the current claim, every layer\'s final claim equals the gate polynomial at the claimed values with wiring weights the verifier computed itself, and the last combined claim matches its own evaluation of the input. No challenge is disclosed to the prover before the message it must follow.',
     ['inputs', 'histories', 'fault_sequences'], 'all circuits, all prover messages (adversarial), all challenges',
     'The tests only run the honest prover, so a missing or weakened check changes nothing they observe.',
     [TG + 'verifier_traditional.cpp'], [('protocol loop', 'verifier::verify'), ('wiring predicates', 'verifier::add, mult, beta_init'), ('own evaluation of output and input', 'verifier::V_in')],
     ['running claim, alpha/beta, challenge vectors'], ['boolean result of a proof run'])
prop('P15', 'Honest data-parallel proofs are always accepted, with the specified messages',
     'For every circuit replicated over 2^m copies (m may be 0), every assignment of inputs to copies and every choice of challenges, each message of the honest data-parallel prover - the cubic polynomials binding the copy index and the quadratic ones binding the two gate indices - is the specified sum over the remaining variables, its final claims are the values of the previous layer\'s extension at the challenge points, and the verifier accepts. The accepted output is the true output of every copy.',
     ['inputs', 'configurations', 'histories'], 'all circuits, all numbers of copies, inputs, layers, rounds and challenge histories',
     'Tests run a few circuits and copy counts with one challenge sequence each and see only the verdict.',
     [TG + 'prover_bc_clogc.cpp', TG + 'verifier_bc_clogc.cpp'],
     [('copy phase', 'prover::sumcheck_phase0_init, sumcheck_phase0_update'), ('binding the copies', 'prover::sumcheck_phase1_init'), ('gate phases', 'prover::sumcheck_phase1_update, sumcheck_phase2_init, sumcheck_phase2_update, sumcheck_finalize'), ('matching checks', 'verifier::verify')],
     ['block_beta_value, block_v_value, beta_g_sum, V_mult_add, beta_blk_val'], ['messages returned to the verifier', 'boolean result of a proof run'])
prop('P16', 'Data-parallel verifier accepts exactly the transcripts that pass every check',
     'For every replicated circuit, every prover (honest or malicious) and every sequence of messages, the data-parallel verifier accepts if and only if the claimed outputs\' extension opens the first claim, every cubic and quadratic round polynomial sums to the current claim, every layer\'s final claim equals the gate polynomial at the claimed values weighted by copy and wiring weights the verifier computed itself, and the last combined claim matches its own evaluation of all copies\' inputs. Nothing the prover stores outside its messages influences the verdict.',
     ['inputs', 'histories', 'fault_sequences'], 'all circuits, all numbers of copies, all prover messages and prover states (adversarial), all challenges',
     'The tests only run the honest prover, so a missing or weakened check changes nothing they observe.',
     [TG + 'verifier_bc_clogc.cpp'], [('protocol loop', 'verifier::verify'), ('wiring predicates', 'verifier::add, mult, beta_init'), ('own evaluation of outputs and inputs', 'verifier::V_in')],
     ['running claim, alpha/beta, challenge vectors, copy weight'], ['boolean result of a proof run'])
prop('P17', 'Verifier challenges are fresh full-width draws, never constant or reused',
     'Every challenge the verifier uses - the output point, each round challenge, the weights that combine two claims - is a fresh draw that uses the full width of the random source (never a constant, a truncated range, or a value copied from another challenge). This holds for the linear-time, the C log C and the data-parallel verifier, and no challenge reaches the prover before the claim or message it must follow.',
     ['histories', 'inputs'], 'all circuits, all layers and rounds, all streams of the random source',
     'An honest proof is accepted whatever the challenges are, so tests cannot see constant, short or reused challenges.',
     [LG + 'prime_field.cpp', LG + 'verifier_fast_track.cpp', TG + 'verifier_traditional.cpp', TG + 'verifier_bc_clogc.cpp'], [('random field element', LG + 'prime_field.cpp: random'), ('challenge vectors', LG + 'verifier_fast_track.cpp: generate_randomness'), ('order of draws', LG + 'verifier_fast_track.cpp: verify')],
     ['challenge vectors'], ['challenges passed to the prover'])
prop('P18', 'The circuit verified is the one the file describes',
     'For every well-formed circuit file, each of the three verifiers holds in memory exactly the circuit the file describes: the same layers in the same order, every gate with its type and operands, single-gate layers completed by one dummy gate, and (linear-time verifier) one relay layer above the inputs. In the data-parallel verifier every copy is that circuit. The work tables of verifier and prover have room for the largest layer.',
     ['inputs'], 'all well-formed files: any depth, layer sizes, gate types and operands; any number of copies',
     'A gate dropped, shifted or rewritten while reading gives a circuit that still proves and verifies; a table sized by the last layer instead of the largest is out of bounds only for some shapes.',
     [LG + 'verifier_fast_track.cpp', TG + 'verifier_traditional.cpp', TG + 'verifier_bc_clogc.cpp'],
     [('linear-time reader', LG + 'verifier_fast_track.cpp: read_circuit'), ('C log C reader', TG + 'verifier_traditional.cpp: read_circuit_from_FILE'), ('data-parallel reader', TG + 'verifier_bc_clogc.cpp: read_circuit')],
     ['layers and gates in memory', 'table sizes'], ['circuit in memory against the file'])
prop('P19', 'The programs report success only for accepted proofs',
     'Each proving program reports success exactly when every verification it was asked to run was run, on a verifier prepared with the right field, circuit and prover, and accepted. One rejected copy among many is enough for the report to be a failure, wherever it stands.',
     ['inputs', 'histories'], 'all numbers of copies and all combinations of verdicts',
     'With an honest prover every verification accepts, so tests never see a program combine a rejection with acceptances.',
     [LG + 'main_fast_track.cpp', TG + 'bclogc.cpp', TG + 'bc_clogc.cpp'],
     [('linear-time program', LG + 'main_fast_track.cpp: main'), ('C log C program', TG + 'bclogc.cpp: run_verifications'), ('data-parallel program', TG + 'bc_clogc.cpp: run_verifications')],
     ['verdicts of the verifications'], ['reported verdict'])
