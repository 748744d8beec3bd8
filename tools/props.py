prop('P01', 'A recursion search reports success only for maximal-period parameters',
     'When a recursion search reports success, the generator holds the parameters of the candidate just tested, and the minimal polynomial handed out was measured for exactly those parameters from a freshly seeded nonzero state, has degree equal to the state size, and passed the primitivity test the caller supplied. A candidate is rejected only if its degree or the primitivity test fails. The number of candidates tried never exceeds the number asked for, stops early only on success, and is counted exactly once per candidate.',
     ['inputs', 'histories'], 'for every generator, every parameter source, every primitivity test and every trial limit, on every path through the search and repeated searches on one object',
     'The tests run a handful of searches with one small generator; they cannot show that no path (last trial, first trial, repeated start, degree or test failing in either order) accepts an untested candidate, skips one, or counts wrongly.',
     [INC + 'AlgorithmRecursionSearch.hpp'], [('AlgorithmRecursionSearch::start', INC + 'AlgorithmRecursionSearch.hpp'), ('minpoly', INC + 'period.hpp')],
     'path-sensitive typestate analysis on normalised LLVM IR, trip counts from scalar evolution',
     'Decides all paths of the search for both instantiated word sizes under the contracts of the virtual generator interface and of NTL; the minimal-polynomial and primitivity functions are modelled here and decided by P03/P05.')

prop('P02', 'A reducible-generator search accepts only a factor of exactly the wanted degree',
     'When a search for a generator with reducible characteristic polynomial reports success, the polynomial handed out as characteristic polynomial was measured for the parameters the generator now holds from a freshly seeded nonzero state, and the irreducible factor handed out was extracted from that very polynomial with the degree the generator declares as its Mersenne exponent. A candidate is rejected only if its degree is too small or the factor search fails. Trials are bounded by the limit given and counted exactly once each.',
     ['inputs', 'histories'], 'for every reducible generator, parameter source and trial limit, on every path and over repeated searches',
     'The one test uses a tiny generator and a lucky seed; it cannot show that no path accepts a wrong factor, mixes up polynomials of different candidates or rejects good ones.',
     [INC + 'AlgorithmReducibleRecursionSearch.hpp'], [('AlgorithmReducibleRecursionSearch::start', INC + 'AlgorithmReducibleRecursionSearch.hpp'), ('hasFactorOfDegree', 'lib/period.cpp')],
     'path-sensitive typestate analysis on normalised LLVM IR, trip counts from scalar evolution',
     'Decides all paths of the search for both word sizes; the factor search itself is modelled here and decided by P03.')

prop('P03', 'Primitivity decisions are exact: degree, irreducibility, order, factor degree',
     'The primitivity test says yes exactly when the polynomial has the required degree, is irreducible, and either the period is a Mersenne prime or x raised to (2^n-1)/p differs from 1 modulo the polynomial for every listed prime p. Prime lists given as decimal strings are read completely and in order. The search for an irreducible factor of given degree strips only factors of smaller degree, strips all of them, and says yes exactly when what remains is irreducible of the requested degree.',
     ['inputs'], 'for every polynomial over GF(2), every degree and every list of prime factors',
     'Tests check a few small polynomials and one factor table; a prime that is skipped, a missed degree step or a repeated factor only shows for particular polynomials of large degree.',
     ['lib/period.cpp', 'lib/AlgorithmPrimitivity.cpp', INC + 'AlgorithmPrimitivity.hpp'],
     [('AlgorithmPrimitivity::operator()', 'lib/AlgorithmPrimitivity.cpp'), ('isPrime, hasFactorOfDegree, isMexp', 'lib/period.cpp')],
     'path-sensitive dataflow with an algebraic abstract domain (Frobenius powers), loop coverage by scalar evolution',
     'Decides the control and the algebraic expressions of the decisions on every path, given NTL\'s contracts (deg, GCD, PowerXMod, irreducibility test); it does not verify NTL.')

prop('P04', 'Prime-factor tables and the Mersenne-exponent table are exact and complete',
     'Every published table of prime factors of 2^N-1 lists exactly the distinct prime divisors of that number, once each, as plain decimal strings with a terminator. The table of Mersenne exponents contains only exponents of Mersenne primes and misses none up to its largest entry.',
     ['configurations'], 'for every table entry the library ships',
     'A test checks that the entries of some tables divide 2^N-1; it cannot see a missing prime, a composite or repeated entry, or the tables it does not read, and each of these silently turns non-primitive polynomials into accepted ones.',
     ['lib/AlgorithmPrimitivity.cpp', 'lib/period.cpp'], [('prime_factors2_N_1', 'lib/AlgorithmPrimitivity.cpp'), ('mersenne_exponent', 'lib/period.cpp')],
     'evaluation of constant initialisers in the IR with exact arithmetic',
     'Complete for the tables: every entry of every table is checked against 2^N-1; primality by Miller-Rabin with 26 fixed bases.')

prop('P05', 'Minimal, characteristic and annihilating polynomials are computed as defined',
     'The minimal polynomial of an output bit is computed from exactly 2*n consecutive outputs, each bit stored at its own place in order, with bound n the state size, and a non-positive state size is refused. The characteristic polynomial of a reducible generator is the least common multiple over the unit states, one run per bit position, ending early only when the degree reaches the full state size. Annihilating a state with a polynomial replaces it by the sum over exactly the nonzero coefficients i of the state advanced i steps.',
     ['inputs'], 'for every generator, bit position, state size and polynomial',
     'Tests compare a few polynomials of one or two generators; a missing coefficient, one output too few or an early stop changes the result only for generators whose recurrence happens to need it.',
     [INC + 'period.hpp', INC + 'util.hpp', INC + 'ReducibleGenerator.hpp', INC + 'AlgorithmReducibleRecursionSearch.hpp'],
     [('minpoly', INC + 'period.hpp'), ('annihilate, calcCharacteristicPolynomial', INC + 'AlgorithmReducibleRecursionSearch.hpp'), ('LCM', INC + 'util.hpp')],
     'dataflow with loop summaries over an algebraic domain (polynomial and state terms), loop coverage by scalar evolution',
     'Decides which outputs, positions, degrees and operands enter each computation on every path; the correctness of NTL\'s MinPolySeq and GCD is assumed.')

prop('P06', 'Equidistribution results are the minimum step counts, defects are summed exactly',
     'For a w-bit analysis the dimension of equidistribution is computed for every length v from w down to 1, each after the basis was reduced to v bits, and equals the least step count among the v basis vectors of the dual lattice. get_all_equidist stores k(v) at index v-1 for all v and returns the sum over all v of floor(n/v)-k(v); get_equidist returns k(w) and stores the sum over v<w. n is the Mersenne exponent when one is given, otherwise the state size; a k(v) above floor(n/v) is never reported. The variant for reducible generators analyses a private copy whose state was annihilated by characteristic polynomial divided by the irreducible factor.',
     ['inputs'], 'for every generator, word size, bit length and Mersenne exponent',
     'Tests compare results for one generator; a skipped vector, a missing length or a wrong defect only shows when the affected vector happens to be the minimum or the affected length has a defect.',
     [INC + 'AlgorithmEquidistribution.hpp', INC + 'AlgorithmReducibleEquidistribution.hpp'],
     [('get_all_equidist, get_equidist, get_equidist_main', INC + 'AlgorithmEquidistribution.hpp'), ('AlgorithmReducibleEquidistribution constructor', INC + 'AlgorithmReducibleEquidistribution.hpp')],
     'dataflow with loop summaries (recurrences from the IR, compared with the specification at sample sizes)',
     'Decides what is enumerated, reported and summed on every path of both word sizes; that the lattice reduction terminates with the true dimensions is a mathematical fact assumed here (its bookkeeping is P07).')

prop('P07', 'The lattice reduction keeps its vectors, step counts and flags consistent',
     'A basis vector owns a private copy of the generator; the unit vector for bit p starts with zero state and output word with only bit p from the top set. Adding vectors adds states and output words and nothing else. Every output taken is counted once; outputs are skipped only while zero, and a vector is declared zero only after at least as many consecutive zero outputs as the state has bits. A reduction step adds the pivot vector and the working vector, always changing the one with the smaller step count, refills it exactly when its output word became zero, and ends exactly when the working vector is zero. Reducing the output length masks every vector to the new length and refills exactly those that become zero.',
     ['inputs', 'histories'], 'for every generator and bit length, on every step of the reduction',
     'The reduction takes thousands of data-dependent steps; an uncounted output or a wrong vector changed in a rare branch alters the reported dimensions only for particular generators.',
     [INC + 'AlgorithmEquidistribution.hpp'],
     [('linear_generator_vector', INC + 'AlgorithmEquidistribution.hpp'), ('get_equidist_main, adjust', INC + 'AlgorithmEquidistribution.hpp')],
     'path-sensitive dataflow and typestate over the reduction loop',
     'Decides every path of vector construction, addition, advance, adjustment and the reduction step in both word sizes.')

prop('P08', 'Tempering searches leave the best pattern installed, measured as it is used',
     'A tempering search measures the caller\'s generator, or a copy, only after setUpTempering has made the patterns set last effective, and in the bit order the algorithm announces (reversed exactly when isLSBTempering says so). The partial-bit-pattern search goes through all windows of step bits up to the try length, all tempering parameters in each window and all patterns of the window, measured over all output bits; it keeps the pattern with the least defect, more one-bits deciding ties. The best-bits search goes through all bits up to its limit and all patterns in range at each, measured over the bits settled so far; a candidate keeps every bit settled before, and its new bits take every combination; it goes on from every pattern with the least defect of the round. When a search returns, the kept patterns are installed and effective in the caller\'s generator and its output order is normal again.',
     ['inputs', 'histories'], 'for every generator, word size, number of parameters, shuffle, window size and bit order, on every path of the search',
     'The tests accept any tempering; a window that is skipped, a stale pattern left effective or a wrong bit order still gives a plausible, merely worse, generator.',
     [INC + 'AlgorithmBestBits.hpp', INC + 'AlgorithmPartialBitPattern.hpp'],
     [('AlgorithmBestBits::operator()', INC + 'AlgorithmBestBits.hpp'), ('AlgorithmPartialBitPattern::operator()', INC + 'AlgorithmPartialBitPattern.hpp')],
     'path-sensitive typestate and ghost-state analysis on normalised LLVM IR, loop coverage by scalar evolution and pattern expressions, bit-level abstract interpretation of the candidate functions',
     'Decides measurement order, enumeration, selection and the final state on every path of both algorithms in both word sizes; that the greedy search finds good patterns is not claimed.')

prop('P09', 'Two-stage searches hand out results measured on what they leave installed',
     'A two-stage search (recursion, then tempering) reports success exactly if the recursion search on the caller\'s generator, with the caller\'s parameter source and primitivity test, succeeded. It then applies the LSB tempering (unless switched off) and the MSB tempering exactly once each. The defect handed out was measured on the final parameters, over all bits of the word, in normal bit order, and for reducible generators against the Mersenne exponent on a state annihilated by characteristic polynomial divided by irreducible factor. Polynomial, weight and parity handed out belong to the successful search.',
     ['inputs', 'histories'], 'for every generator, parameter source, tempering algorithm and flag, on every path of both overloads and both word sizes',
     'The tests run one tiny generator whose defect is the same before and after most mistakes; whether values handed out belong to the parameters left installed depends on the order of steps on each path.',
     [INC + 'AlgorithmRecursionAndTempering.hpp', INC + 'AlgorithmReducibleRT.hpp'],
     [('AlgorithmRecursionAndTempering::search', INC + 'AlgorithmRecursionAndTempering.hpp'), ('AlgorithmReducibleRecursionAndTempering::search', INC + 'AlgorithmReducibleRT.hpp')],
     'path-sensitive typestate analysis on normalised LLVM IR over generator state and parameter versions',
     'Decides every path of both overloads in both word sizes; the searches, analyses and tempering algorithms enter by the contracts decided in P01, P02, P06, P08 and P10.')

prop('P10', 'The parity vector comes from a complete search over the unit states',
     'The parity search works on copies of the caller\'s generator only. It takes the states with a single bit set in order from bit 0, without gaps, each annihilated with the given polynomial before any output is used, until all are taken or state size minus Mersenne exponent independent vectors were found. All base vectors start as zero, state and parity value. A working vector is reduced by the base vector at its pivot, state and parity value always together, or put there if that base is empty; it is passed over only when its state is zero. The matrix handed to the kernel computation holds bit w-1-i of the k-th nonzero base vector in row i, column k. The result is a row of that kernel, an empty kernel is refused, and the value returned is the one set in the caller\'s generator.',
     ['inputs', 'histories'], 'for every reducible generator and polynomial, on every path of the search, both word sizes',
     'A parity vector computed from an incomplete or inconsistent base still looks like a parity vector, and certifies the period only for some initial states; tests compare one value for one generator.',
     [INC + 'AlgorithmCalculateParity.hpp'],
     [('AlgorithmCalculateParity::searchParity', INC + 'AlgorithmCalculateParity.hpp')],
     'path-sensitive ghost-variable analysis on normalised LLVM IR, recurrences of the matrix loops from scalar evolution',
     'Decides every path of the search in both word sizes. That the reduction loop\'s fixed number of steps suffices is checked only as a lower bound (more steps than the word has bits); annihilate, NTL\'s kernel and fromGF2Vec enter by contract (P05, P16).')

prop('P16', 'Bit utilities compute exactly what they document, for every input',
     'count_bit returns the number of one bits; calc_1pos returns -1 for zero and otherwise the position, counted from the most significant bit, of the lowest one bit; reverse_bit maps bit i to bit w-1-i; getBitOfPos and setBitOfPos touch exactly the addressed bit; floor2p(n) is the largest power of two not above n for every n > 0; get_range(x, a, b) is a + x mod (b-a+1) and refuses an empty range; fill_table XORs into entry i exactly the source entries selected by the bits of i and writes nothing else; toGF2Vec and fromGF2Vec place bit w-1-i at element i; print_binary writes the coefficients from degree 0, with a line break after every 32 when asked, and the degree. None of them overflows a signed number, shifts by the word width or reads outside its table, for any input.',
     ['inputs'], 'for every 16-, 32- and 64-bit input word, every bit position and every polynomial',
     'A wrong mask or an overflow shows only for a few of the 2^64 words; the equidistribution, parity and search code builds on these functions and would give quietly wrong results.',
     [INC + 'util.hpp'],
     [('count_bit, reverse_bit, calc_1pos, floor2p, get_range, fill_table, toGF2Vec, fromGF2Vec, print_binary', INC + 'util.hpp')],
     'bit-level abstract interpretation of LLVM IR in the domain of canonical decision diagrams',
     'Exact over all inputs for the word functions and vector conversions; get_range for all inputs at a list of ranges (small inputs for the largest one), fill_table for all contents at sizes up to 32, print_binary for all polynomials of a list of degrees.')

prop('P17', 'The Mersenne Twisters are MT19937 and MT19937-64 for every seed and key',
     'MersenneTwister and MersenneTwister64 produce exactly the published MT19937 and MT19937-64 sequences, for every numeric seed (the 32-bit class uses the low 32 bits), for every key array and for strings (each character converted from char is a key element), and default to the published seeds. Seeding a used object restarts the same sequence as a new object with that seed. getUint64 of the 32-bit class puts the earlier output above the later one; getUint32 of the 64-bit class hands out the upper half of the output. Every later output, not only the first ones, follows the recurrence, and no access leaves the state array.',
     ['inputs', 'histories'], 'for every seed, every key content, every state and every number of outputs',
     'The test compares the first thousand outputs for two seeds; a slip at one ring position, in key wrap-around, in reseeding or for particular seeds is not sampled, and parameter searches would no longer be reproducible.',
     [INC + 'MersenneTwister.hpp', INC + 'MersenneTwister64.hpp'],
     [('MersenneTwister::next, seed, seed_array', INC + 'MersenneTwister.hpp'), ('MersenneTwister64::next, seed, seed_array', INC + 'MersenneTwister64.hpp')],
     'value-graph comparison by bit-level abstract interpretation of LLVM IR with canonical forms',
     'Exact over all seeds, key contents and states: identity of canonical forms with the published recurrences; key lengths from a list around the state size (more in the thorough tier); all outputs by induction over one cycle of the position.', thorough=True)

prop('P18', 'The linearity test says yes exactly when its outputs agree',
     'TestLinearity answers yes exactly when, for two copies of the generator seeded with two different nonzero seeds, the first 100 outputs of a copy added to itself are all zero and each of the first 100 outputs of the sum of the two copies is the exclusive or of the outputs of the two, all bits of the word compared. Nothing but clone is called on the caller\'s generator, and every copy is released once on every path.',
     ['inputs'], 'for every generator, linear or not, whatever the 600 outputs it gives, in both word sizes',
     'The test passes one linear generator; a comparison that is skipped, cut short or ignores bits accepts nonlinear generators, and every later result rests on linearity.',
     [INC + 'TestLinearity.hpp'],
     [('TestLinearity::operator()', INC + 'TestLinearity.hpp')],
     'bit-level abstract interpretation of LLVM IR with generators as histories and canonical decision diagrams',
     'Exact: the answer is a Boolean function of all bits of all outputs, compared in canonical form with the specification, in both word sizes.')

prop('P19', 'Sequential counts down through every value once and then refuses',
     'A Sequential with counter c and mask m hands out c xor m, (c-1) xor m, ... down to 0 xor m, and then throws std::underflow_error on every further request. The default counter is the largest value of the type, the default mask zero. Seeding sets the counter, keeps the mask and ends a refusal. A copy goes on exactly as the original would, exhausted or not. getUint32 and getUint64 hand out the low 32 or all bits of the same sequence.',
     ['inputs', 'histories'], 'for every counter, mask and history, in both word sizes',
     'The end of the count lies 2^32 or 2^64 requests away for default objects; a wrong end, a wrap-around or a lost flag silently repeats or drops parameters of an exhaustive search.',
     [INC + 'Sequential.hpp'],
     [('Sequential::next, seed, reseed, constructors', INC + 'Sequential.hpp')],
     'bit-level abstract interpretation of LLVM IR with canonical decision diagrams, induction on the counter',
     'Exact for all counters and masks: the object after an output is identical to one constructed with the next counter.')

SMP = 'samples/'
prop('P20', 'The sample generators follow their published recurrences',
     'Each sample generator computes its published recurrence: MT (MTDC), RMT64, MTGP32, TinyMT32, SFMT, dSFMT and the four Xorshift programs. One advance replaces exactly the oldest state word by the published function of the state and the parameters the object holds (matrices, masks, positions, shift amounts), leaves the other words alone, and returns the published output with the tempering in force; the word replaced next is the next oldest, cyclically, so that every state word takes part. For SFMT and dSFMT this holds lane by lane, for dSFMT with the lung word.',
     ['inputs', 'histories'], 'for every state, every matrix, mask and tempering word, every position in the ring and every shift amount',
     'No test runs a sample generator; parameters found by a search on a slightly different recurrence are valid for no published generator, and a slip at one ring position or one shift amount shows only after hundreds of outputs for some parameters.',
     [SMP + 'MTDC/mt2.cpp', SMP + 'RMT/rmt64.hpp', SMP + 'MTGPDC/MTGP32search.hpp', SMP + 'TinyMTDC/tinymt32search.hpp', SMP + 'sfmtdc/sfmtsearch.hpp', SMP + 'dSFMTdc/dSFMTsearch.hpp', SMP + 'XORSHIFT/xorshift-2.cpp', SMP + 'XORSHIFT/xorshift-3.cpp', SMP + 'XORSHIFT/xorshift-4.cpp', SMP + 'XORSHIFT/xorshift-5.cpp'],
     [('next_state, generate', SMP + 'MTDC/mt2.cpp'), ('next_state, generate', SMP + 'sfmtdc/sfmtsearch.hpp'), ('next_state, generate', SMP + 'dSFMTdc/dSFMTsearch.hpp'), ('next_state, generate', SMP + 'MTGPDC/MTGP32search.hpp')],
     'bit-level abstract interpretation of LLVM IR, canonical forms compared with the published recurrence',
     'Exact for all states and parameter words from every ring position at small exponents (521, 607, 1279), every shift amount of SFMT and dSFMT and a spread of Xorshift parameters; larger exponents run the same code with another size and are not examined.')

prop('P21', 'Sample generators are vectors: add, zero test, unit states, copies, seed',
     'For every sample generator: add() gives the state whose outputs are the exclusive or of the outputs of both, wherever each stands in its ring, leaves the added object alone and refuses an object of another type with std::invalid_argument before changing anything; isZero() is true exactly for the states all of whose outputs are zero; setZero() leads to such a state from anywhere; bitSize() is the number of state bits the outputs depend on; clone() and copies behave like the original and share nothing with it; what seed() leads to depends on the seed and the parameters only. Reducible samples: setOneBit(k) for k below bitSize() gives bitSize() different states with one state bit set, getParityValue() returns what setParityValue() set, which changes one state word at most. None of these writes to standard output.',
     ['inputs', 'histories'], 'for every pair of states and ring positions, every seed and every bit index',
     'No test runs a sample generator; an addition that is wrong for unequal positions or a zero test that ignores a word makes the lattice reduction report wrong dimensions or run on without end, for some parameters only.',
     [SMP + 'MTDC/mt2.cpp', SMP + 'RMT/rmt64.hpp', SMP + 'MTGPDC/MTGP32search.hpp', SMP + 'TinyMTDC/tinymt32search.hpp', SMP + 'sfmtdc/sfmtsearch.hpp', SMP + 'dSFMTdc/dSFMTsearch.hpp', SMP + 'XORSHIFT/xorshift-3.cpp', SMP + 'XORSHIFT/xorshift-4.cpp'],
     [('add, isZero, setZero, setOneBit, clone', SMP + 'RMT/rmt64.hpp'), ('add, isZero, setZero, setOneBit, clone', SMP + 'sfmtdc/sfmtsearch.hpp'), ('add, isZero, setZero, setOneBit, clone', SMP + 'dSFMTdc/dSFMTsearch.hpp')],
     'bit-level abstract interpretation of LLVM IR with canonical forms; relevant bits by closure over supports',
     'Exact for all states; at small exponents and, for add, at five pairs of ring positions; a clone is compared member by member, or failing that by its outputs.')

prop('P22', 'Sample generators draw parameters that cover exactly the documented range',
     'setUpParam of the sample generators draws every position and shift amount so that all values of its documented range can come up and no others (MT 2 to N-1, RMT64 0 to N-1, SFMT and dSFMT 1 to N-2, shifts 1 to 31, 1 to 51 or odd byte counts, MTGP below the largest power of two that fits), lets every bit of the free matrices and masks take both values independently, embeds the identifier where the generator documents it (MT, MTGP, TinyMT), and excludes in MTGP the four tables that would make the columns dependent. For the exhaustive Xorshift searches the draws below 2^15 and 2^18 correspond one to one to the parameter combinations. Drawing again does not depend on the parameters drawn before.',
     ['inputs'], 'for every sequence of draws, every identifier and a list of exponents',
     'No test calls setUpParam of a sample; a draw outside the range makes a generator read its own future, a value that never comes up silently thins the search, and an identifier in the wrong bits breaks the promise of independent streams.',
     [SMP + 'MTDC/mt2.cpp', SMP + 'RMT/rmt64.hpp', SMP + 'MTGPDC/MTGP32search.hpp', SMP + 'TinyMTDC/tinymt32search.hpp', SMP + 'sfmtdc/sfmtsearch.hpp', SMP + 'dSFMTdc/dSFMTsearch.hpp', SMP + 'XORSHIFT/xorshift-3.cpp', SMP + 'XORSHIFT/xorshift-4.cpp'],
     [('setUpParam', SMP + 'MTDC/mt2.cpp'), ('setUpParam', SMP + 'MTGPDC/MTGP32search.hpp'), ('setUpParam', SMP + 'sfmtdc/sfmtsearch.hpp'), ('setUpParam', SMP + 'dSFMTdc/dSFMTsearch.hpp')],
     'bit-level abstract interpretation of LLVM IR with symbolic draws and canonical decision diagrams',
     'Exact over all draws and identifiers at the listed exponents; the drawn values are read from the columns of getParamString, which P27 decides.')

prop('P27', 'Parameter lines match their header: each column holds what its name says',
     'For the sample generators getParamString writes one column for each name of getHeaderString, every parameter of the generator has its column, and the column holds the parameter of that name now in force, also after parity and fixed point have been set: exponents, identifiers, positions and shift amounts in decimal, matrices, masks, parities and tables in zero-padded hexadecimal of full width. The MTGP lookup tables printed are the exclusive-or closure of the four base entries.',
     ['inputs'], 'for every value of the parameters',
     'The lines are the product of a search and are read back by the other programs; a column that is swapped, truncated or stale gives a parameter set nobody tested, and no test prints one.',
     [SMP + 'MTDC/mt2.cpp', SMP + 'RMT/rmt64.hpp', SMP + 'MTGPDC/MTGP32search.hpp', SMP + 'TinyMTDC/tinymt32search.hpp', SMP + 'sfmtdc/sfmtsearch.hpp', SMP + 'dSFMTdc/dSFMTsearch.hpp', SMP + 'XORSHIFT/xorshift-3.cpp', SMP + 'XORSHIFT/xorshift-4.cpp'],
     [('getHeaderString, getParamString', SMP + 'sfmtdc/sfmtsearch.hpp'), ('getHeaderString, getParamString', SMP + 'dSFMTdc/dSFMTsearch.hpp'), ('getHeaderString, getParamString', SMP + 'MTGPDC/MTGP32search.hpp')],
     'bit-level abstract interpretation of LLVM IR recording what is written to the string stream',
     'Exact over all parameter values; text built in another way than by stream insertion is left undecided.')

prop('P23', 'Sample outputs, tempering patterns, 128-bit words and certification are exact',
     'For the sample generators generate(n) returns the n upper bits of the output, of the bit-reversed output while reversed output is on, for every n from 1 to the word size, and leaves the state generate() leaves; generate() without a length never depends on the reversal; setTemperingPattern replaces exactly the masked bits of the tempering word of the source bit. For SFMT and dSFMT start mode k shows the lanes from k on of the previous word followed by the lower lanes of the new one, and weight mode w replaces the lanes from w on by those of the previous output. The operations on 128-bit words (shifts, logic, equality, reversal, masks, bit access, lowest one bit) act on the 128-bit number with the first half low. periodCertification answers whether the parity product is odd, leaves such a state alone, and otherwise makes it odd by flipping one bit.',
     ['inputs'], 'for every state, bit length, mask, pattern, parity, shift amount and bit position',
     'No test runs a sample generator; a lane or a bit that is wrong for one length, one shift amount or one weight mode changes the dimensions reported for it, and only those.',
     [SMP + 'MTDC/mt2.cpp', SMP + 'RMT/rmt64.hpp', SMP + 'MTGPDC/MTGP32search.hpp', SMP + 'TinyMTDC/tinymt32search.hpp', SMP + 'sfmtdc/sfmtsearch.hpp', SMP + 'dSFMTdc/dSFMTsearch.hpp', SMP + 'sfmtdc/w128.hpp', SMP + 'dSFMTdc/w128.hpp', SMP + 'XORSHIFT/xorshift-3.cpp'],
     [('generate(int), setTemperingPattern', SMP + 'RMT/rmt64.hpp'), ('generate, periodCertification', SMP + 'sfmtdc/sfmtsearch.hpp'), ('generate, periodCertification', SMP + 'dSFMTdc/dSFMTsearch.hpp'), ('operators, make_msb_mask, calc_1pos', SMP + 'sfmtdc/w128.hpp')],
     'bit-level abstract interpretation of LLVM IR with canonical forms and decision diagrams',
     'Exact over all states and words at small exponents; lengths, shifts and positions enumerated completely.')

prop('P11', 'Measuring, testing and searching work on copies: the argument is left as it was',
     'Computing equidistribution (plain or of a reducible generator), testing linearity, deciding primitivity and finding the parity vector leave the generators and polynomials they are given unchanged: they clone the generator and only the clone moves, and a polynomial is only read. Nothing that declares a parameter const writes through it, directly, through a cast, or through a reference it kept. The one exception is intended: searchParity stores the parity it found in the generator by setParityValue, and changes nothing else of it.',
     ['inputs'], 'for every generator, polynomial, and path through the functions',
     'A test would have to compare the whole state of a generator before and after every entry point for every generator class; a change that moves the caller\'s generator shows only in what the caller computes next.',
     [INC + 'TestLinearity.hpp', INC + 'AlgorithmEquidistribution.hpp', INC + 'AlgorithmReducibleEquidistribution.hpp', INC + 'AlgorithmCalculateParity.hpp', INC + 'ReducibleGenerator.hpp', INC + 'period.hpp', INC + 'util.hpp'],
     [('operator()', INC + 'TestLinearity.hpp'), ('linear_generator_vector', INC + 'AlgorithmEquidistribution.hpp'), ('AlgorithmReducibleEquidistribution', INC + 'AlgorithmReducibleEquidistribution.hpp'), ('searchParity', INC + 'AlgorithmCalculateParity.hpp')],
     'interprocedural may-write analysis of parameters on LLVM IR',
     'Sound for stores and calls inside the library and for const-correct external functions; a user generator that changes itself in a const method is outside.')

prop('P12', 'Every block of memory is released exactly once, in the form it was made',
     'Whatever a function of the library or of a sample generator makes with new, new[] or clone() is released exactly once on every path on which the function returns, or belongs to an object that releases it when it is destroyed, after any of its public methods has been called; it is released in the form it was made (delete / delete[]), and neither used afterwards nor touched outside its bounds. An object that releases memory in its destructor cannot be copied or assigned member by member, and an object deleted through a base class has a virtual destructor there.',
     ['inputs', 'histories'], 'for every path through the functions that make or release memory and every life of an owning object',
     'A search runs for days and clones generators all the time: a block that stays behind on one failing path grows without bound, and a shallow copy destroys the state of another object. Tests end before either is seen.',
     [INC + 'TestLinearity.hpp', INC + 'AlgorithmEquidistribution.hpp', INC + 'AlgorithmReducibleEquidistribution.hpp', INC + 'AlgorithmCalculateParity.hpp', INC + 'AlgorithmBestBits.hpp', INC + 'AlgorithmPrimitivity.hpp', INC + 'ReducibleGenerator.hpp', INC + 'MersenneTwister.hpp', INC + 'MersenneTwister64.hpp', SMP + 'MTDC/mt2.cpp', SMP + 'RMT/rmt64.hpp', SMP + 'MTGPDC/MTGP32search.hpp', SMP + 'sfmtdc/sfmtsearch.hpp', SMP + 'dSFMTdc/dSFMTsearch.hpp'],
     [('operator(), test1, test2', INC + 'TestLinearity.hpp'), ('constructor, destructor', INC + 'AlgorithmEquidistribution.hpp'), ('searchParity', INC + 'AlgorithmCalculateParity.hpp'), ('annihilate', INC + 'ReducibleGenerator.hpp'), ('constructors, destructor', SMP + 'RMT/rmt64.hpp')],
     'typestate analysis: path-sensitive ownership interpretation of LLVM IR; AST query for copying and virtual destructors',
     'Loops with unknown bounds are followed for two more rounds, sizes are 1, 3 and 20; paths that leave by an exception are outside. Functions with too many paths are undecided.')

prop('P13', 'Failures surface as std::exception objects and never end the process',
     'Whatever the library or a sample generator class throws is an object derived from std::exception, thrown by value, so that a caller\'s handler for std::exception receives it. No handler inside turns such a failure into an ordinary return, no destructor or noexcept function can run into a throw, and nothing calls exit, abort, terminate or the like: a failed search, an exhausted sequence or an impossible parity is reported to the caller and to nobody else.',
     ['inputs', 'fault_sequences'], 'for every throw expression, every handler and every function that may not throw',
     'The failing paths need inputs tests do not have (pivot errors, impossible parities, exhausted counters); a pointer or literal thrown there is found only when it is too late.',
     [INC + 'AlgorithmEquidistribution.hpp', INC + 'AlgorithmCalculateParity.hpp', INC + 'Sequential.hpp', INC + 'util.hpp', 'lib/period.cpp', 'lib/AlgorithmPrimitivity.cpp', SMP + 'TinyMTDC/tinymt32search.hpp', SMP + 'sfmtdc/sfmtsearch.hpp'],
     [('get_equidist_main', INC + 'AlgorithmEquidistribution.hpp'), ('search_parity_check_vector', INC + 'AlgorithmCalculateParity.hpp'), ('next', INC + 'Sequential.hpp'), ('add', SMP + 'TinyMTDC/tinymt32search.hpp')],
     'type query over throw expressions; may-throw and handler analysis over the call graph',
     'Assertions and exceptions of NTL itself are outside; a virtual call is taken as not throwing for the noexcept rule.')

prop('P14', 'Results depend on the arguments only: no hidden state, clock or randomness',
     'No function of the library or of a sample generator class writes a global variable, a static member or a local static after its one initialisation, and that initialisation uses no argument; none reads a clock, an environment variable, the process number or an entropy source, or draws from C\'s, C++\'s or NTL\'s global random generators. Searching twice with the same parameter generator, measuring two generators alternately, or using two objects in two threads gives what each gives alone. The time printed in verbose mode reaches the output stream and nothing else.',
     ['inputs', 'histories', 'schedules'], 'for every function, sequence of calls and interleaving of uses of distinct objects',
     'Hidden state shows only on the second call, on another object or in another thread; a test that runs each function once cannot see it.',
     ['lib/period.cpp', 'lib/AlgorithmPrimitivity.cpp', INC + 'AlgorithmRecursionSearch.hpp', INC + 'AlgorithmEquidistribution.hpp', INC + 'AlgorithmCalculateParity.hpp', INC + 'AlgorithmBestBits.hpp', INC + 'MersenneTwister.hpp', SMP + 'sfmtdc/sfmtsearch.hpp'],
     [('isMexp, isPrime, hasFactorOfDegree', 'lib/period.cpp'), ('search', INC + 'AlgorithmRecursionAndTempering.hpp'), ('searchParity', INC + 'AlgorithmCalculateParity.hpp')],
     'effect analysis on LLVM IR: writes of storage that outlives the call, calls of nondeterministic sources',
     'Reads of uninitialised memory are not part of this property; NTL\'s global modulus is not used.')

prop('P15', 'The library is silent unless asked, and prints only where it is told to',
     'A public function of the library or of a sample generator class writes nothing on any stream unless its caller asked for it: searches and tempering algorithms write only when verbose is true, a function that is given a stream to print on writes on that stream and on no other, and only diagnostics immediately followed by a thrown exception are exempt. No function opens, removes or renames a file, reads input or starts a program.',
     ['inputs'], 'for every public function and every path with verbose off',
     'Tests do not look at standard output; a stray message corrupts the parameter tables that the search programs print there.',
     [INC + 'AlgorithmRecursionAndTempering.hpp', INC + 'AlgorithmReducibleRT.hpp', INC + 'AlgorithmBestBits.hpp', INC + 'AlgorithmPartialBitPattern.hpp', INC + 'AlgorithmCalculateParity.hpp', INC + 'AlgorithmEquidistribution.hpp', 'lib/period.cpp', SMP + 'dSFMTdc/dSFMTsearch.hpp'],
     [('search', INC + 'AlgorithmRecursionAndTempering.hpp'), ('search', INC + 'AlgorithmReducibleRT.hpp'), ('operator()', INC + 'AlgorithmBestBits.hpp'), ('operator(), search_best_temper', INC + 'AlgorithmPartialBitPattern.hpp')],
     'interprocedural effect analysis on LLVM IR with conditional constant propagation (verbose = false)',
     'Code under #if DEBUG is not compiled and not considered; a flag stored in an object is left undecided.')

prop('P25', 'Every public header can be used: alone, together, in several files, fully',
     'Each header under include/MTToolBox compiles as the first and only include of a program, twice, and in any order with the others; including headers in several source files of a program makes no clashing definitions, and whatever a header declares is defined in it or in the library. Every public class template can be instantiated with all its members for 32-bit and 64-bit words, and each algorithm accepts a user\'s class that implements its abstract interface and nothing more, with every documented default argument. The sources and headers of the sample programs compile likewise.',
     ['programs', 'configurations'], 'for every program that includes the headers and every generator class with the documented interface',
     'Tests instantiate a few members for a few generator classes in programs of one source file; a member that does not compile, a missing include or a definition in a header is met first by users.',
     [INC + h for h in ('AbstractGenerator.hpp', 'AlgorithmBestBits.hpp', 'AlgorithmCalculateParity.hpp', 'AlgorithmEquidistribution.hpp', 'AlgorithmPartialBitPattern.hpp', 'AlgorithmPrimitivity.hpp', 'AlgorithmRecursionAndTempering.hpp', 'AlgorithmReducibleRT.hpp', 'AlgorithmReducibleEquidistribution.hpp', 'AlgorithmReducibleRecursionSearch.hpp', 'TestLinearity.hpp', 'Sequential.hpp', 'util.hpp', 'period.hpp', 'version.h')],
     [('whole header', INC + 'util.hpp'), ('search', INC + 'AlgorithmReducibleRT.hpp'), ('constructor', INC + 'AlgorithmReducibleEquidistribution.hpp'), ('declarations', INC + 'AlgorithmPrimitivity.hpp')],
     'type-level witnesses: explicit instantiations and archetype classes; linkage query on LLVM IR; declaration-definition matching on the AST',
     'C++17 as in the build, g++ for well-formedness; the DEBUG and USE_SHA configurations are outside.')

prop('P28', 'The SIMD samples measure what they report: every mode, element and bit length',
     'The equidistribution analysis of sfmtdc and dSFMTdc packs the leading v bits (or the trailing ones, when asked for the low end) of each element of an output, element by element, from the top of the word and nothing else; it starts from the unit vectors and the generator\'s own state, adds vectors with next word and state together, always modifies the one with the smaller step count, counts every output taken, and declares a vector zero only after as many zero outputs as the state has bits. The dimension found is the least count of the unit slots, and one above the bound is refused. The report measures, for every start mode and every weight mode and every v, a copy set to the two modes and advanced once; it keeps the largest scaled dimension over the weight modes and the smallest of those over the start modes, and returns the sum of the defects.',
     ['inputs', 'histories'], 'for every generator, element size, mode and bit length',
     'No test covers the samples; a mode that is skipped, or bits taken from the wrong element, only makes published figures slightly wrong.',
     [SMP + 'sfmtdc/AlgorithmSIMDEquidistribution.hpp', SMP + 'dSFMTdc/AlgorithmDSFMTEquidistribution.hpp', SMP + 'sfmtdc/w128.hpp', SMP + 'dSFMTdc/w128.hpp'],
     [('calc_SIMD_equidistribution, get_equidist_main, get_next, next_state', SMP + 'sfmtdc/AlgorithmSIMDEquidistribution.hpp'), ('calc_dSFMT_equidistribution, get_equidist_main, get_next, next_state', SMP + 'dSFMTdc/AlgorithmDSFMTEquidistribution.hpp')],
     'path-sensitive dataflow with loop summaries on LLVM IR; typestate of the measured copy; bit-domain evaluation of the packing',
     'The lattice theory behind the method (P40) is not decided; loop bounds and recurrences are evaluated at sample sizes.')

prop('P40', 'The equidistribution analysis ends, and its figures are the true dimensions',
     'For every GF(2)-linear generator that draws all bits of its state, the lattice reduction ends after finitely many steps with a reduced basis, and the values k(v) it reports are the mathematical dimensions of equidistribution: for each v every v-bit, k(v)-dimensional output occurs equally often over the period, and for k(v)+1 some do not.',
     ['inputs', 'histories'], 'for every generator and bit length',
     'The figures are quoted in papers; a test compares a few generators with values from the same program.',
     [INC + 'AlgorithmEquidistribution.hpp', INC + 'AlgorithmReducibleEquidistribution.hpp'],
     [('get_equidist_main', INC + 'AlgorithmEquidistribution.hpp')],
     na='The claim is a theorem about polynomial lattices over GF(2) (a strictly falling sum of degrees, and duality between shortest vectors and equidistribution) over state spaces fixed only at run time; no dataflow or abstract domain in reach carries degrees of formal power series. P06 and P07 decide the steps of the method that the theorem needs; the theorem itself is not a static fact of the source.')

prop('P41', 'What a search finds has the period and quality it was searched for',
     'The parameters a search prints give a generator whose period is the Mersenne prime (or a multiple of it, for every seed after period certification), and tempering patterns with the smallest defect among those the method reaches.',
     ['inputs', 'histories'], 'for every search, exponent and identifier',
     'Confirming one result at full size takes hours.',
     [INC + 'AlgorithmRecursionAndTempering.hpp', INC + 'AlgorithmReducibleRT.hpp', INC + 'AlgorithmBestBits.hpp', INC + 'AlgorithmPartialBitPattern.hpp', INC + 'AlgorithmCalculateParity.hpp'],
     [('search', INC + 'AlgorithmRecursionAndTempering.hpp'), ('search', INC + 'AlgorithmReducibleRT.hpp')],
     na='Irreducibility, order and optimality of concrete numbers drawn at run time are computed by the program itself; a static argument cannot bound them. That a result is accepted only after the right test, and stays installed, is decided by P01, P02, P03, P05, P08, P09 and P10.')

prop('P42', 'Searches and measurements stay within their time and memory',
     'A search takes an expected number of candidates proportional to the exponent, a dimension measurement polynomial time, and memory does not grow during either.',
     ['inputs', 'configurations'], 'for every exponent and machine',
     'Costs at full size are not reached by a test.',
     [INC + 'AlgorithmRecursionSearch.hpp', INC + 'AlgorithmEquidistribution.hpp', INC + 'AlgorithmBestBits.hpp'],
     [('start', INC + 'AlgorithmRecursionSearch.hpp')],
     na='Expected counts depend on the density of irreducible polynomials and costs on NTL\'s algorithms and the machine; neither can be bounded from this source. That no block of memory stays behind is decided by P12.')
