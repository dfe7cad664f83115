import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=state
    P.append(d)
I=["inputs"]
p("P01","Suffix-array BWT is the BWT of the text",
 "For every nonempty byte text in which a 0 byte occurs at most at the end, the suffix-array based BWT returns a sequence of the same length whose entry i is the character cyclically preceding the i-th smallest suffix, hence a permutation of the text. The naive suffix array lists all suffix start positions in strictly increasing lexicographic order of the suffixes, and combining it with the permute-by-suffix-array function gives the same BWT. The bwt tool with default flags writes exactly that BWT of its input followed by one 0 byte, for inputs without 0 bytes.",
 I,"all nonempty texts (all lengths, all byte values, all alphabets for the generic functions)",
 "tests compare two implementations on a few random strings over a 2-letter alphabet with at most 12 characters; they say nothing about other alphabets, lengths or the tool's output",
 ["src/core.rs","src/bin/bwt.rs"],[("bwt_from_text_by_sa","src/core.rs"),("bwt_from_sa","src/core.rs"),("suffixarray_naive","src/core.rs"),("main","src/bin/bwt.rs")],
 ["return value","stdout / output file of bwt"])
p("P02","Matrix BWT is the last column of the sorted rotations",
 "For every text the naive matrix BWT returns the last column of the matrix of all rotations sorted lexicographically. The linear-time variant through the smallest rotation returns exactly the same sequence for every nonempty text without 0 bytes, including texts that are powers. The bwt tool with --use-matrix writes this transform of the text it is asked to transform (with or without the appended 0 byte), for short and long inputs alike.",
 I,"all texts, all lengths (the tool switches implementation by length)",
 "the test compares both variants on random strings over two letters; long inputs, powers and other alphabets are untested",
 ["src/core.rs","src/bin/bwt.rs"],[("bwt_by_matrix_naive","src/core.rs"),("bwt_by_matrix","src/core.rs"),("lyndon_conjugate","src/core.rs"),("main","src/bin/bwt.rs")],
 ["return value","stdout / output file of bwt --use-matrix"])
p("P03","Duval and ISA computations give the Lyndon factorization",
 "For every text over an ordered alphabet, the reported end positions are strictly increasing, the last one is the last text position, every factor is a Lyndon word (strictly smaller than each of its proper suffixes), and no factor is smaller than its successor. The computation from the inverse suffix array returns the same end positions for every nonempty text. The lyndonfactorization tool reports the number of these factors and writes them in order to the output file if one is given, each behind a line with its number and position, leaving out an end mark (a 0 byte as the last of several factors).",
 I,"all texts, all alphabets with a total order",
 "the test only checks random binary strings of at most 12 characters against the other implementation",
 ["src/core.rs","src/bin/lyndonfactorization.rs"],[("duval","src/core.rs"),("isa_lyndon_factorization","src/core.rs"),("main","src/bin/lyndonfactorization.rs")],["return value","factors= on stdout"])
p("P04","Lyndon conjugate is a lexicographically smallest rotation",
 "For every nonempty text the returned position is a valid text position and the rotation of the text starting there is lexicographically not larger than any other rotation of the text.",
 I,"all nonempty texts, including powers and unary texts",
 "the test checks a few generated binary strings",["src/core.rs"],[("lyndon_conjugate","src/core.rs"),("duval","src/core.rs")],["return value"])
p("P05","Border array and smallest period are exact",
 "For every text of length n the border array has n+1 entries, and for every i from 1 to n its entry i is the length of the longest proper border of the prefix of length i. The smallest period computed from the border array of a nonempty text is the least positive p such that any two text characters at distance p are equal.",
 I,"all texts over any alphabet with equality","the tests sample generated strings; the property is about longest borders of every prefix of every text",
 ["src/core.rs"],[("border_array","src/core.rs"),("smallest_period","src/core.rs")],["return value"])
p("P06","Primitivity test is exact",
 "For every nonempty text the primitivity test returns true exactly if the text is not an x-fold repetition of a shorter string for any integer x of at least two.",
 I,"all nonempty texts over any alphabet with equality","no test exercises this function for correctness on arbitrary texts",
 ["src/core.rs"],[("is_primitive","src/core.rs"),("border_array","src/core.rs"),("smallest_period","src/core.rs")],["return value"])
p("P07","Bijective BWT sorts the factor conjugates in omega-order",
 "For every nonempty text the bijective BWT is the sequence of last characters of all rotations of all Lyndon factors of the text, listed in omega-order (comparison of the infinite repetitions of the rotations). In particular it is a permutation of the text.",
 I,"all nonempty texts over any ordered alphabet","no unit test covers the bijective BWT",
 ["src/core.rs"],[("bbwt_naive","src/core.rs"),("duval","src/core.rs")],["return value"])
p("P08","Inverse suffix array, phi, PLCP and LCP arrays are exact",
 "For every text and its suffix array, the inverse permutation maps every suffix to its rank, and phi maps every suffix to its predecessor in suffix array order (and the smallest suffix to the largest). The PLCP entry of a suffix is the length of its longest common prefix with its predecessor in suffix array order and is 0 for the smallest suffix; the LCP array is the PLCP array in suffix array order.",
 I,"all nonempty texts and all permutations","these helpers have no tests of their own; wrong values only surface in particular downstream inputs",
 ["src/core.rs"],[("inverse_permutation","src/core.rs"),("compute_phi","src/core.rs"),("compute_plcp","src/core.rs"),("compute_lcp","src/core.rs")],["return value"])
p("P09","Previous and next smaller values are exact",
 "For every nonempty array and every position, the previous-smaller-value entry is the largest position to the left holding a strictly smaller value, the next-smaller-value entry is the smallest position to the right holding a strictly smaller value, and each is the reserved invalid value exactly if no such position exists.",
 I,"all nonempty arrays of fewer than 2^32 - 1 totally ordered values, with ties","no unit test covers these arrays",
 ["src/core.rs"],[("compute_psv","src/core.rs"),("compute_nsv","src/core.rs")],["return value"])
p("P10","LZ77 factorization is greedy and decodes to the text",
 "For every nonempty byte text, the LZ77 factors cover the text from left to right; each factor is either a single literal character that does not occur earlier in the text, or a copy whose length is the longest prefix of the remaining text that also starts at an earlier position, together with the distance to such an earlier occurrence. Decoding the factors reproduces the text, and count_z reports the number of the factors and writes them in order as pairs (distance or literal, length) to the output file if one is given.",
 I,"all nonempty texts","the test decodes factorizations of generated strings over a two-letter alphabet but never checks that factors are longest",
 ["src/bin/count_z.rs","src/core.rs"],[("compute_lz77","src/bin/count_z.rs"),("decode_lz77","src/bin/count_z.rs"),("compute_psv/compute_nsv","src/core.rs"),("compute_plcp","src/core.rs")],["factors= and the factor file of count_z"])
p("P11","Lex-parse copies from the lexicographic predecessor",
 "For every nonempty byte text, the lex-parse factors cover the text from left to right; a factor starting at a suffix is a copy of the longest common prefix with the lexicographically preceding suffix, referring to the start of that suffix, and is a single literal character exactly if that common prefix is empty. Hence the text can be recovered from the factors, and count_lexparse reports their number and writes them in order as pairs (position or literal, length) to the output file if one is given.",
 I,"all nonempty texts","there is no test of lex-parse",
 ["src/bin/count_lexparse.rs","src/core.rs"],[("compute_lexparse","src/bin/count_lexparse.rs"),("compute_plcp","src/core.rs"),("compute_phi","src/core.rs")],["factors= and the factor file of count_lexparse"])
p("P12","Minimal unique substrings are reported exactly",
 "For every nonempty text without 0 bytes, the mus tool reports exactly the minimal unique substrings of the text, as pairs of start position and length in order of start positions: the substrings that occur exactly once in the text while every proper substring of them occurs at least twice.",
 I,"all nonempty texts without 0 bytes","the test only checks Fibonacci words, which have two minimal unique substrings",
 ["src/bin/mus.rs","src/core.rs"],[("get_mus","src/bin/mus.rs"),("compute_plcp/compute_lcp","src/core.rs"),("main","src/bin/mus.rs")],["mus= on stdout"])
p("P13","String attractor verification is exact",
 "For every nonempty text without 0 bytes and every set of positions of the text or its end marker, the string attractor check answers valid exactly if every nonempty substring of the text (the end marker excluded) has an occurrence in the text that contains one of the given positions.",
 I,"all texts and all position sets","tests only cover two families of words with known attractors, and only positive answers",
 ["src/bin/is_stringattractor.rs"],[("is_attractor","src/bin/is_stringattractor.rs"),("lcp_intervals","src/bin/is_stringattractor.rs")],["exit code and last line of is_stringattractor"])
p("P14","Run counting is exact",
 "For every byte stream the number of runs reported is the number of maximal blocks of equal consecutive bytes, which is 0 for the empty stream. count_runs reports this number for its input and count_r reports it for the BWT of its input.",
 I,"all byte streams","no unit test covers run counting",
 ["src/core.rs","src/bin/count_runs.rs","src/bin/count_r.rs"],[("number_of_runs","src/core.rs"),("read_char","src/io.rs")],["stdout"])
p("P15","Move-to-front encoding is exact and invertible",
 "For every byte stream the move-to-front output has the same length, and each output byte is the current position of the input byte in a list that starts as 0,1,...,255 and in which each processed byte is moved to the front. Hence the standard inverse move-to-front transform recovers the input from the output.",
 I,"all byte streams, all 256 byte values","tests cover five texts over two letters",
 ["src/bin/mtf.rs","src/io.rs"],[("mtf","src/bin/mtf.rs"),("read_char","src/io.rs")],["output bytes of mtf"])
p("P16","Run-length encodings are lossless",
 "For every byte stream, the binary run-length encoding consists of pairs of a byte and the run length minus one, the zero-only variant replaces only runs of the character '0' by such a pair and copies all other bytes, and the human-readable format writes one (character,length) group per maximal run with the character in UTF-8. Expanding the output of each format in this way gives back exactly the input, for runs of every length.",
 I,"all byte streams, runs of any length","the tool has no tests",
 ["src/bin/rle.rs","src/io.rs"],[("rle","src/bin/rle.rs"),("rle_zero","src/bin/rle.rs"),("rle_text","src/bin/rle.rs")],["output bytes of rle"])
p("P17","Escaping and unescaping are inverse",
 "For every byte stream, escape symbol, list of forbidden symbols and equally long list of pairwise distinct replacement symbols (forbidden, replacement and escape symbols being mutually disjoint), the escaped stream contains no forbidden symbol, and reverting with the same parameters restores the original stream. Bytes that are neither forbidden nor the escape symbol are copied unchanged.",
 ["inputs","configurations"],"all byte streams and all admissible symbol tables","the tool has no tests",
 ["src/bin/escape.rs","src/io.rs"],[("main","src/bin/escape.rs"),("read_char","src/io.rs")],["output bytes of escape"])
p("P18","Alphabet size is the number of distinct bytes",
 "For every byte text the reported alphabet size is the number of distinct byte values that occur in it, which can be any number from 0 to 256.",
 I,"all byte texts","tests cover four texts with at most three letters",
 ["src/bin/count_sigma.rs"],[("count_sigma","src/bin/count_sigma.rs")],["sigma= on stdout"])
p("P19","Lyndon word enumeration is complete and ordered",
 "For every maximal length and every alphabet size from 1 to 256, the generator yields every nonempty Lyndon word of at most that length over the alphabet 0,...,size-1 exactly once, in strictly increasing lexicographic order, and then ends.",
 ["inputs","histories"],"all lengths and alphabet sizes, the whole sequence of calls","no unit test covers the generator",
 ["src/core.rs","src/bin/lyndonwords.rs"],[("LyndonWordGenerator::next","src/core.rs"),("main","src/bin/lyndonwords.rs")],["iterator items","output of lyndonwords"],
 [dict(name="m_stack",meaning="the last generated word",where="src/core.rs")])
p("P20","Conjugate and binary-string iterators enumerate exactly their set",
 "The conjugate iterator of a text of length n yields exactly n items, the i-th being the text rotated by i positions, and then ends. The binary string iterator of length n yields all 2^n strings over '0' and '1' of length n in lexicographic order, each once, and then ends (for n below 64; for larger n the items are the first strings in that order). The enumerate tool prints all strings over the first k letters for each requested length, each exactly once and in lexicographic order per length. The generator_kmer tool prints the 4^8 strings of length 8 over the first four letters, each exactly once, by increasing value when the first letter is the least significant digit.",
 ["inputs","histories"],"all texts, lengths and alphabet sizes, the whole sequence of calls","no unit test covers them",
 ["src/core.rs","src/bin/enumerate.rs","src/bin/generator_kmer.rs"],[("ConjugateIterator::next","src/core.rs"),("BinaryStringGenerator::next","src/core.rs"),("enumerate_for_length","src/bin/enumerate.rs"),("main","src/bin/generator_kmer.rs")],["iterator items","stdout of enumerate and generator_kmer"])
p("P21","Fibonacci, Tribonacci, VTM and Fibonacci-factor words are morphic",
 "For every order k whose result fits in memory, the Fibonacci, Tribonacci and ternary Thue-Morse (vtm) words equal the k-fold iteration of their morphism on the letter a, and the k-th Fibonacci Lyndon factor equals the k-fold iteration of a->aab, b->ab on ab. The Fibonacci and Tribonacci number functions return the lengths of the respective words as long as these fit the integer type.",
 I,"all k","tests compare a handful of small orders",
 ["src/word.rs"],[("fibonacci_word","src/word.rs"),("iterate_general_morphism","src/word.rs"),("iterate_general_morphism_with_startsymbol","src/word.rs"),("fibonacci_number","src/word.rs"),("tribonacci_number","src/word.rs")],["return value","output of word"])
p("P22","Thue-Morse and period-doubling words follow their definition",
 "For every order k, the Thue-Morse word has length 2^k and its character at position i is a exactly if the number of ones in the binary representation of i is even; the period-doubling word has length 2^k and its character at position i is a exactly if the number of trailing zeros of i+1 is even. Both agree with the k-fold iteration of their 2-uniform morphism on a.",
 I,"all k for which 2^k fits the machine word","tests compare orders up to 4 or 10",
 ["src/word.rs"],[("thuemorse_word","src/word.rs"),("iterate_2morphism","src/word.rs"),("period_doubling_word","src/word.rs")],["return value","output of word"])
p("P23","Kolakoski words are prefixes of the self-describing sequence",
 "For every order k at which the function returns, the Kolakoski word consists of the letters a and b, starts with bb, and reading a as 1 and b as 2, the lengths of its consecutive maximal runs are given by its own characters in order. Every word is a prefix of the next one, and no unwritten memory is exposed.",
 I,"all k","the test compares with the first 100 characters of the sequence",
 ["src/word.rs"],[("kolakoski_word","src/word.rs")],["return value","output of word"])
p("P24","Binary de Bruijn words contain every factor exactly once",
 "For every order k, the binary de Bruijn word has length 2^(k+1) over the letters a and b, and every word of length k+1 over a and b occurs in it exactly once when it is read cyclically. The necklace test accepts exactly the prefixes of powers of Lyndon words (pre-necklaces).",
 I,"all k","the test checks non-repetition for k from 2 to 9 without wrapping around",
 ["src/word.rs"],[("binary_debruijn_word","src/word.rs"),("is_necklace","src/word.rs")],["return value","output of word"])
p("P25","Empirical entropies match their definition",
 "For every text the zero-order entropy is the sum over the distinct characters of (n_c/n) log2(n/n_c), and for every text without zero bytes the order-k entropy of the text followed by the end marker is the length-weighted average over all contexts of length k of the zero-order entropy of the characters following the context, up to floating-point rounding. The k-mer counting tool and the suffix-array tool agree on it.",
 I,"all texts and orders","tests cover unary and alternating texts",
 ["src/bin/entropy.rs","src/bin/entropy_kmer.rs"],[("zero_order_entropy","src/bin/entropy.rs"),("kth_order_entropy","src/bin/entropy.rs"),("entropy_via_kmer_counting","src/bin/entropy_kmer.rs")],["entropy= on stdout"])
p("P26","Tools process exactly the requested prefix of their input",
 "Every tool that takes a prefix length (bwt, count_lexparse, count_r, count_sigma, count_z, entropy, entropy_kmer, escape, is_stringattractor, lyndonfactorization, mus, reverse) processes exactly the first that many bytes of its input, or the entire input if it is shorter or if the prefix length is 0, whether the input comes from a file (or anything else with a file name, such as a named pipe) or from standard input. In particular reverse writes these bytes in reverse order; escape, when it reverts, writes exactly that many bytes of the reverted stream.",
 ["inputs","configurations"],"all inputs, prefix lengths and input sources","no unit test reads input",
 ["src/io.rs","src/bin/reverse.rs","src/bin/count_sigma.rs","src/bin/bwt.rs","src/bin/count_r.rs","src/bin/count_z.rs","src/bin/count_lexparse.rs","src/bin/entropy.rs","src/bin/entropy_kmer.rs","src/bin/escape.rs","src/bin/is_stringattractor.rs","src/bin/lyndonfactorization.rs","src/bin/mus.rs"],[("file2byte_vector","src/io.rs"),("stdin2byte_vector","src/io.rs"),("main","src/bin/reverse.rs")],["outputs of the tools"])
p("P27","Paperfolding and power-of-two words follow their closed form",
 "For every order k, the paperfolding word has length 2^(k+1) and its character at position i is 1 exactly if the odd part of i+1 is congruent to 1 modulo 4, and the quaternary word is the same sequence read in blocks of two bits (a=00, b=01, c=10, d=11). The power-of-two sequence has length 2^k and its character at position i is b exactly if i+1 is a power of two, and a otherwise.",
 I,"all k for which the length fits the machine word","tests compare a prefix of one word of the paperfolding sequence; the power-of-two sequence is untested",
 ["src/word.rs"],[("quaternary_paperfolding_word","src/word.rs"),("quaternary_to_binary","src/word.rs"),("power2_sequence","src/word.rs")],["return value","output of word"])
p("P28","Random strings respect the requested length and alphabet bound",
 "For every outcome of the random choices, the random string tool writes exactly the requested number of characters, all of them ASCII letters or digits, and with a nonzero alphabet bound no more distinct characters than that bound.",
 ["inputs","configurations"],"all outcomes of the random generator, all lengths and bounds","no unit test covers it, and a run samples one outcome",
 ["src/bin/randomstring.rs"],[("main","src/bin/randomstring.rs")],["output of randomstring"])
p("P29","The generator of test texts enumerates zero-terminated texts by number",
 "For every range start..end with end at most 2^63 and every alphabet size 2^l with l from 1 to 7, the generator of test texts (RandomStringGenerator) yields one text for each number i = start+1, start+2, ..., as long as 2(i-1) < end, and then nothing more. The text of i has max(0, floor(bits(i)/l)-1) letters followed by a single zero byte, where bits(i), the number of binary digits of i, is what bit_size returns; its j-th letter (counted from 1) is one more than the j-th digit of i to the base 2^l, where digit 0 is the least significant one. Hence all letters are between 1 and 2^l.",
 I,"all ranges and alphabet sizes","the tests use it to make their inputs but never check what it yields",
 ["src/core.rs"],[("RandomStringGenerator::next","src/core.rs"),("bit_size","src/core.rs")],["items of the iterator"])
p("P30","Results go to the requested file or to standard output, and nowhere else",
 "Every tool that takes an output file name (bwt, escape, lyndonwords, mtf, randomstring, reverse, rle, word) leaves its whole result, and nothing else, in exactly that file, whatever the file contained before, and writes the same bytes to standard output if no output file is given; nothing goes to standard output if one is. With an output file, count_z, count_lexparse and lyndonfactorization write the list of factors to exactly that file, replacing its contents, and keep printing their number on standard output. The input comes from the named input file if one is given, and from standard input otherwise (bwt, count_lexparse, count_z, escape, lyndonfactorization, mtf, reverse, rle). Output and input file are different files.",
 ["inputs","configurations"],"all inputs, all combinations of input and output files and their previous contents","no unit test opens a stream",
 ["src/io.rs","src/bin/reverse.rs","src/bin/mtf.rs","src/bin/rle.rs","src/bin/escape.rs","src/bin/bwt.rs","src/bin/word.rs","src/bin/lyndonwords.rs","src/bin/randomstring.rs","src/bin/lyndonfactorization.rs","src/bin/count_z.rs","src/bin/count_lexparse.rs"],[("stream_or_stdout","src/io.rs"),("stream_or_stdin","src/io.rs"),("main","src/bin/escape.rs")],["output file","standard output"])
p("P31","A failed read or write is never reported as success",
 "If opening or reading the input, or creating or writing the output fails at any point (a missing file, a directory, a read error in the middle of the input, a full device, a pipe that nobody reads any more), no tool ends successfully: a tool that ends with exit code 0 has read all of the input it was asked to process, and has handed all of its output to the operating system. Reads and writes that transfer fewer bytes than asked for do not change what a tool does.",
 ["inputs","configurations","fault_sequences"],"all inputs and every point at which a read, a write, a flush or the opening of a stream can fail","no unit test opens a stream or makes one fail",
 ["src/io.rs","src/bin/mtf.rs","src/bin/rle.rs","src/bin/escape.rs","src/bin/reverse.rs","src/bin/bwt.rs","src/bin/word.rs","src/bin/lyndonwords.rs","src/bin/randomstring.rs","src/bin/lyndonfactorization.rs","src/bin/count_z.rs","src/bin/count_lexparse.rs"],[("read_char","src/io.rs"),("stream_or_stdout","src/io.rs"),("stream_or_stdin","src/io.rs"),("file2byte_vector","src/io.rs"),("main","src/bin/word.rs")],["exit code","output file","standard output"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P:
    jsonschema.validate(d,s); assert len(d['title'])<=80
print(len(P))
