"""What decides each property.

fns      functions under contract (overlays in contracts/fns), whose obligations decide the property
theory   additional theories (with the theorems that state the property over the contracts)
theorems names of the lemmas that state the property
bins     tools of the repository that the bounded stand-in runs
bounded  what only the bounded stand-in covers (never counted as proved)
rule     how the cases of the bounded stand-in are made
"""
TEXTS = ('texts: all texts of a small length over alphabets of 1-4 letters, then random, periodic, '
         'run-length, Fibonacci-like and extreme-byte texts up to the length bound; a case is non-trivial if '
         'the input has at least 2 characters; cases are distinct by (function, parameters, input)')

P = {}

P['P01'] = dict(
    fns=['bwt_from_text_by_sa', 'suffixarray_naive', 'bwt_from_sa', 'bwt_main_p01'],
    modular=['bwt_by_matrix_naive', 'bwt_by_matrix'],
    theorems=['bwt_perm', 'naive_same', 'sorted_sa'],
    bins=['bwt'],
    bounded='argument parsing of bwt',
    rule=TEXTS)
P['P02'] = dict(
    fns=['bwt_by_matrix_naive', 'bwt_by_matrix', 'bwt_main_p02'],
    theorems=['mat_bwt', 'mbwt_same', 'naive_mbwt'],
    bins=['bwt'],
    bounded='argument parsing of bwt',
    rule=TEXTS)
P['P03'] = dict(
    fns=['duval', 'isa_lyndon_factorization', 'lyndonfactorization_main'],
    theorems=['fact_unique', 'isa_fact', 'fact_longest'],
    bins=['lyndonfactorization'],
    bounded='argument parsing of lyndonfactorization',
    rule=TEXTS)
P['P04'] = dict(
    fns=['lyndon_conjugate'],
    theorems=['lyn_min_rot', 'fact_suffix_min'],
    bins=[],
    bounded='nothing: every function of the property is under contract',
    rule=TEXTS)
P['P05'] = dict(
    fns=['border_array', 'smallest_period'],
    theorems=['smallest_period_thm', 'border_per'],
    bins=[],
    bounded='nothing: every function of the property is under contract',
    rule=TEXTS)
P['P06'] = dict(
    fns=['is_primitive'],
    theorems=['primitive_thm'],
    bins=[],
    bounded='nothing: every function of the property is under contract',
    rule=TEXTS)
P['P07'] = dict(
    fns=['bbwt_naive', 'duval'],
    theorems=['bbwt_perm', 'bbwt_unique', 'om_same', 'ole_trans', 'fact_unique'],
    bins=[],
    bounded='texts of 2^32 characters or more',
    rule=TEXTS)

P['P08'] = dict(
    fns=['inverse_permutation', 'compute_phi', 'compute_plcp', 'compute_lcp'],
    theorems=['sa_isa', 'sa_phi', 'plcp_thm', 'lcp_thm'],
    bins=[],
    bounded='nothing: every function of the property is under contract',
    rule=TEXTS)
P['P09'] = dict(
    fns=['compute_psv', 'compute_nsv'],
    bins=[],
    bounded='nothing: every function of the property is under contract',
    rule=TEXTS)

P['P14'] = dict(
    fns=['number_of_runs', 'read_char', 'count_runs_main', 'count_r_main'],
    modular=['bwt_from_text_by_sa', 'bwt_by_matrix_naive', 'bwt_by_matrix'],
    theorems=['runs_starts'],
    bins=['count_runs', 'count_r'],
    bounded='argument parsing of count_runs and count_r',
    rule=TEXTS)
P['P15'] = dict(
    fns=['mtf', 'mtf_vector', 'read_char', 'mtf_main'],
    theorems=['mtf_inverse'],
    bins=['mtf'],
    bounded='argument parsing of mtf',
    rule=TEXTS)
P['P16'] = dict(
    fns=['rle', 'rle_zero', 'rle_text', 'read_char', 'rle_main'],
    theorems=['groups_expand'],
    bins=['rle'],
    bounded='argument parsing of rle',
    rule=TEXTS)

P['P17'] = dict(
    fns=['escape_main', 'read_char'],
    theorems=['esc_safe', 'esc_injective'],
    bins=['escape'],
    bounded='argument parsing of escape',
    rule=TEXTS)
P['P18'] = dict(
    fns=['count_sigma', 'count_sigma_main'],
    theorems=['sigma_set'],
    bins=['count_sigma'],
    bounded='argument parsing of count_sigma',
    rule=TEXTS)

# the words of the other properties, used in the main function of word through their contracts
WORD_FNS = {'P21': ['fibonacci_word', 'tribonacci_word', 'vtm_word', 'fibonacci_lyndonfactor'], 'P22': ['thuemorse_word', 'period_doubling_word'], 'P27': ['paperfolding_word', 'quaternary_paperfolding_word', 'power2_sequence'], 'P23': ['kolakoski_word'], 'P24': ['binary_debruijn_word']}
def others(prop):
    return [f for p in WORD_FNS for f in WORD_FNS[p] if p != prop]


WORDS = 'orders: every order up to a bound for every word; cases are distinct by (function, order)'
P['P21'] = dict(
    fns=['word_main_p21', 'fibonacci_word', 'tribonacci_word', 'vtm_word', 'fibonacci_lyndonfactor', 'fibonacci_number',
         'tribonacci_number', 'fibonacci_morphism'],
    theorems=['fib_len', 'trib_len'],
    modular=others('P21'),
    bins=['word'],
    bounded='argument parsing of word',
    rule=WORDS)
P['P22'] = dict(
    fns=['word_main_p22', 'thuemorse_word', 'period_doubling_word', 'thuemorse_morphism'],
    theorems=['pd_fixed', 'tm_fixed'],
    modular=others('P22'),
    bins=['word'],
    bounded='argument parsing of word',
    rule=WORDS)
P['P27'] = dict(
    fns=['word_main_p27', 'paperfolding_word', 'power2_sequence'],
    theorems=['fold_rec', 'pow2_test'],
    modular=others('P27'),
    bins=['word'],
    bounded='argument parsing of word',
    rule=WORDS)

P['P23'] = dict(
    fns=['word_main_p23', 'kolakoski_word'],
    theorems=['kola_prefix'],
    modular=others('P23'),
    bins=['word'],
    bounded='argument parsing of word',
    rule=WORDS)

P['P24'] = dict(
    fns=['word_main_p24', 'binary_debruijn_word', 'prenecklace_period', 'is_necklace', 'is_necklace_slice', 'reverse'],
    theorems=['de_bruijn_thm', 'return_time', 'orbit_all'],
    modular=others('P24'),
    bins=['word'],
    bounded='argument parsing of word',
    rule=WORDS)

P['P11'] = dict(
    fns=['compute_lexparse', 'compute_lexparse_enum', 'count_lexparse_main', 'compute_phi', 'compute_plcp'],
    theorems=['lexparse_decodes'],
    bins=['count_lexparse'],
    bounded='argument parsing of count_lexparse',
    rule=TEXTS)
P['P12'] = dict(
    fns=['get_mus', 'mus_main', 'inverse_permutation', 'compute_phi', 'compute_plcp', 'compute_lcp'],
    theorems=['mus_test', 'mus_skip', 'mus_add'],
    bins=['mus'],
    bounded='argument parsing of mus',
    rule=TEXTS)
P['P13'] = dict(
    fns=['lcp_intervals', 'is_attractor', 'attractor_main', 'compute_phi', 'compute_plcp', 'compute_lcp'],
    theorems=['tree_close', 'tree_split', 'tree_leaf', 'flag_sound', 'flag_complete'],
    bins=['is_stringattractor'],
    bounded='argument parsing of is_stringattractor; that no RefCell is borrowed twice within one statement',
    rule=TEXTS)
P['P25'] = dict(
    fns=['zero_order_entropy', 'kth_order_entropy', 'entropy_main', 'increment_kmer', 'entropy_kmer', 'entropy_kmer_main',
         'compute_phi', 'compute_plcp', 'compute_lcp'],
    theorems=['hk_positions', 'block_step', 'ranked_all', 'entries_sum', 'kmer_entropy'],
    bins=['entropy', 'entropy_kmer'],
    bounded='argument parsing; the rounding of floating-point operations',
    rule=TEXTS)
P['P26'] = dict(
    fns=['file2byte_vector', 'stdin2byte_vector', 'file_or_stdin2byte_vector', 'stringopt_stropt', 'reverse_main'],
    # the other tools with a prefix option, each in a crate of its own
    mains=['count_sigma_main', 'bwt_main_p01', 'bwt_main_p02', 'count_r_main', 'count_z_main', 'count_lexparse_main', 'entropy_main', 'entropy_kmer_main',
           'escape_main', 'attractor_main', 'lyndonfactorization_main', 'mus_main'],
    tag='// PREFIX',
    theorems=[],
    bins=['reverse', 'count_sigma', 'bwt', 'count_r', 'count_z', 'count_lexparse', 'entropy', 'entropy_kmer', 'escape', 'is_stringattractor', 'lyndonfactorization', 'mus'],
    bounded='argument parsing',
    rule='inputs: texts of several lengths, prefix lengths below, at and above the length and 0, from a file and '
         'from standard input; cases are distinct by (tool, source, prefix length, input)')

P['P20'] = dict(
    fns=['conj_new', 'conj_next', 'bin_new', 'bin_next', 'enumerate_for_length', 'enumerate_main', 'generator_kmer_main'],
    theorems=['conj_run', 'bin_run', 'bin_complete', 'enum_complete', 'kmers_complete'],
    bins=['enumerate', 'generator_kmer'],
    bounded='argument parsing of enumerate',
    rule=TEXTS + '; lengths: every length up to a bound; cases are distinct by (iterator or tool, parameters)')

P['P19'] = dict(
    fns=['lyngen_new', 'lyngen_next', 'lyndonwords_main'],
    theorems=['gen_run', 'gen_ends', 'gen_some', 'gen_none', 'list_unique'],
    bins=['lyndonwords'],
    bounded='argument parsing of lyndonwords; alphabets of more than 159 characters in the tool',
    rule='maximal lengths and alphabet sizes up to bounds, the whole sequence of calls; cases are distinct by (iterator or tool, length, alphabet size)')

P['P10'] = dict(
    fns=['compute_lz77', 'decode_lz77', 'count_z_main', 'inverse_permutation', 'compute_psv', 'compute_nsv', 'compute_phi', 'compute_plcp', 'compute_lcp'],
    theorems=['range_lce', 'lz_neighbours', 'lz_decodes', 'lz_text_unique', 'lz77_unique'],
    bins=['count_z'],
    bounded='argument parsing of count_z',
    rule=TEXTS)

P['P28'] = dict(
    fns=['randomstring_main'],
    theorems=['set_push'],
    bins=['randomstring'],
    bounded='argument parsing of randomstring; that the search for a character of the chosen set ends (it does with probability one)',
    rule='lengths and alphabet bounds up to bounds, several runs each (the random choices are not controlled); cases are distinct by (length, bound)')
P['P29'] = dict(
    fns=['bit_size', 'rsgen_new', 'rsgen_next'],
    theorems=['rs_text_ends', 'nbits_lead', 'digit_shift'],
    bins=[],
    bounded='ranges that end beyond 2^63',
    rule='ranges and alphabet sizes 2 to 128, near 0, near powers of two and large; cases are distinct by (range, alphabet)')

P['P30'] = dict(
    fns=['stream_or_stdin', 'stream_or_stdout', 'stringopt_stropt', 'file2byte_vector', 'stdin2byte_vector', 'file_or_stdin2byte_vector',
         'reverse_main', 'mtf_main', 'rle_main'],
    modular=['mtf', 'rle', 'rle_zero', 'rle_text', 'read_char'],
    # the other tools with an output, each in a crate of its own
    mains=['escape_main', 'bwt_main_p01', 'bwt_main_p02', 'lyndonwords_main', 'randomstring_main', 'count_z_main', 'count_lexparse_main',
           'lyndonfactorization_main', 'word_main_p21', 'word_main_p22', 'word_main_p23', 'word_main_p24', 'word_main_p27'],
    tag='// OUTPUT',
    theorems=['nothing_before'],
    bins=['reverse', 'mtf', 'rle', 'escape', 'bwt', 'word', 'lyndonwords', 'randomstring', 'lyndonfactorization', 'count_z', 'count_lexparse'],
    bounded='argument parsing of the tools',
    rule='inputs as for the other tools; every combination of input and output file; cases are distinct by (tool, arguments, input)')

P['P31'] = dict(
    fns=['file_or_stdin2byte_vector', 'file2byte_vector', 'stdin2byte_vector'],
    # every other function on the way of the data, each in a crate of its own
    mains=['read_char', 'number_of_runs', 'count_runs_main', 'count_sigma_main', 'count_r_main', 'mus_main', 'entropy_main', 'entropy_kmer_main', 'enumerate_main',
           'enumerate_for_length', 'generator_kmer_main', 'attractor_main', 'stream_or_stdin', 'stream_or_stdout', 'mtf', 'rle', 'rle_zero', 'rle_text',
           'reverse_main', 'mtf_main', 'rle_main', 'escape_main', 'bwt_main_p01', 'bwt_main_p02', 'lyndonwords_main', 'randomstring_main', 'count_z_main', 'count_lexparse_main',
           'lyndonfactorization_main', 'word_main_p21', 'word_main_p22', 'word_main_p23', 'word_main_p24', 'word_main_p27'],
    tag='// DELIVERED',
    faults=True,
    theory=['unwrap'],
    theorems=['nothing_before'],
    bins=['reverse', 'mtf', 'rle', 'escape', 'bwt', 'word', 'lyndonwords', 'randomstring', 'lyndonfactorization', 'count_z', 'count_lexparse',
          'count_sigma', 'count_runs', 'count_r', 'mus', 'entropy', 'entropy_kmer', 'enumerate', 'generator_kmer', 'is_stringattractor'],
    bounded='argument parsing of the tools; that println! panics if printing fails, and hands completed lines over at once',
    rule='inputs as for the other tools; every tool with its output, or its standard output, on a full device, at a file size limit, and with a read or write that fails at a position in the stream; '
         'input that cannot be opened or read; cases are distinct by (tool, arguments, input, fault)')

NA = {}
