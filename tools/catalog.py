"""
Writes /verif/properties.jsonl and /verif/MANIFEST.json from one list, so they stay in step.

    python3 tools/catalog.py
"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'semantic_codec/'
INT, COR, CRS = S + 'interleaver/interleaver2d.py', S + 'corruption/corruption.py', S + 'corruption/corruptors.py'
BITS, CAPS, INST = S + 'architecture/bits.py', S + 'architecture/capstone_instruction.py', S + 'architecture/instruction.py'
READ, MOD, FUN = S + 'architecture/disassembler_readers.py', S + 'architecture/instruction_modifier.py', S + 'architecture/functions.py'
COLL, REC, RULES = S + 'metadata/metadata_collector.py', S + 'metadata/recuperator.py', S + 'metadata/probabilistic_rules/rules.py'
CNT, DIST = S + 'metadata/probabilistic_rules/counting_rules.py', S + 'metadata/probabilistic_rules/distance_rule.py'
SB, SIO, SQ = S + 'solution/solution_builders.py', S + 'solution/solution_io.py', S + 'solution/solution_quality.py'
CFG, DOM, SSA = S + 'static_analysis/cfg.py', S + 'static_analysis/dominators.py', S + 'static_analysis/ssa.py'
PROB, HUFF, SHIFT = S + 'probability/probabilities.py', S + 'compressor/huffman.py', S + 'compressor/shiftcompressor.py'
RP = 'recover_program.py'

PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note, observe=None, state=None):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, observe=observe or [], state=state or []))


prop('C01', 'The interleaving order of any number of packets is a permutation of them',
     'For any number of packets, the interleaving order built for it has every packet number from zero to the last exactly '
     'once. The order in rows has the same packets in the same order as the flat one, and the matrix built for any number of '
     'bits m is a square of side 2^m having each of its 4^m packets once.',
     ['inputs'], 'Every packet count (exhaustive up to 700, 6000 in thorough; drawn up to 20000, around powers of two up to 2^17, 2^20 in thorough) and every matrix order up to 8 (10).',
     'The tests check the order of a handful of counts; a count that needs several matrices of different sizes can lose or repeat a packet, losing data.',
     [INT], [('successive packing and assembling of matrices', INT + ':sucesive_packing, build_2d_interleave_sp')],
     'exhaustive sweep of counts and generated large counts against the permutation invariant', 'Exhaustive for small counts; sampled above.')

prop('C02', 'Successive packing spreads bursts of packets as far as the matrix allows',
     'In the order of 4^m packets, any aligned run of 4^k consecutive packets falls into 4^k different square blocks of side '
     '2^(m-k), so a burst is spread over the whole matrix. The order of any other number of packets is the one of the largest '
     'matrices of powers of 4 that fit, taken one after another, merged row by row.',
     ['inputs'], 'Every m up to 5 (7 in thorough) with every aligned run, every count up to 400 (4200) and drawn ones up to 9000.',
     'The tests compare two matrices with written-out ones; the dispersion is a property of every size.',
     [INT], [('recursive definition of the packing', INT + ':sucesive_packing'), ('merge of the matrices by rows', INT + ':build_2d_interleave_sp')],
     'exhaustive sweep against the dispersion invariant, differential against an independent recursive reference', 'Exhaustive for the small sizes, sampled above.')

prop('C03', 'Interleaving and receiving every packet gives back the data that was sent',
     'Splitting data into packets and joining all of them back gives exactly the words that were sent followed by nothing but '
     'zeros, without reporting any error. Each packet holds, in order, just the chunks of the data that its turn in the '
     'interleaving order gives it, and the data given is not changed.',
     ['inputs', 'configurations'], 'Data of 1 to 40 words (500 in the long cases), chunk sizes dividing 32, any order of up to 80 (150) packets, more or fewer packets than chunks.',
     'The tests send a few fixed words with one or two packet counts; boundaries of words, packets and orders have to line up for every combination.',
     [INT, BITS], [('splitting and joining chunks', INT + ':interleave, deinterleave'), ('packets as queues of bits', BITS + ':BitQueue')],
     'property-based round trip and comparison of the contents of packets with a model', 'Sampled; sizes that do not divide 32 are outside of the domain.')

prop('C04', 'The damage of lost packets is located exactly and confined to what they carried',
     'When any proper subset of the packets is lost (absent or given as nothing), the receiver reports exactly the chunks those '
     'packets carried up to the last chunk received, gets zeros for them, and gets every other chunk as it was sent. A chunk that was '
     'received is never reported, nothing is reported twice, and losing all the packets is rejected.',
     ['fault_sequences', 'inputs', 'configurations'], 'Any proper subset of up to 20 packets (100 in the long cases) lost, data of 1 to 24 words (400), chunk sizes dividing 32, any order.',
     'The tests lose one packet of one program; which chunks a subset of losses takes depends on order, size and length.',
     [INT], [('errors found while joining', INT + ':deinterleave')],
     'fault injection (generated packet losses) against a model of the chunks of each packet', 'Sampled; the slots after the last chunk received are not judged.')

prop('C05', 'The damage predicted for lost packets is the damage they cause',
     'The errors predicted from the order, the size of the chunks, the amount of words and the packets lost are exactly the chunks of the '
     'data that travel in those packets, each reported once (in the form that the prediction uses for a chunk), whatever the losses. '
     'They match the chunks missing after really interleaving data and losing the packets, and the list of packets lost is not changed.',
     ['fault_sequences', 'configurations'], 'Any set of up to 6 lost packets among up to 40 (150 in the long cases), data of 1 to 30 words (600), chunk sizes dividing 32.',
     'The tests predict two or three losses; the prediction must follow the order through every pass over the packets.',
     [COR, INT], [('prediction by walking the order', COR + ':predict_corruption')],
     'differential: prediction against the arithmetic of the order, and against a real loss', 'One known finding (bit 31) is listed and matched exactly; everything else is judged.')

prop('C06', 'Packets are first-in first-out queues of bits of any chunk size',
     'For any sequence of insertions and extractions of chunks of 1 to 32 bits, whatever their sizes, source and destination bits, the bits '
     'come out in the order they came in, and only the destination bits of a value taken are changed. The queue tells it is empty exactly when '
     'no bit is left, and its words are the bits packed from the lowest one.',
     ['histories'], 'Histories of up to 60 operations (1200 in the long cases) with changing chunk sizes, taking more than there is at the end only.',
     'The tests use fixed sizes on two or three words; chunks crossing words depend on the history.',
     [BITS], [('positions of insertion and extraction', BITS + ':BitQueue.enqueue, dequeue, empty')],
     'model-based testing of operation histories against a list of bits', 'Sampled histories.',
     state=[('words and positions', 'bits queued', BITS + ':BitQueue')])

prop('C07', 'Operations on bit fields change or look at exactly the bits requested',
     'Copying a range of bits of a 32 bit word into another one changes those bits of the destination only; building, setting and testing masks concern exactly '
     'the bits of the range, and ranges that are not inside a word are rejected. Changing the condition, opcode, a register or the immediate of an '
     'instruction changes that field only, and reversing the endianness of a word, given as number or text, reverses its bytes.',
     ['inputs'], 'Every range of bits (exhaustive), any pairs of words and positions, any instruction word and new value of each field.',
     'The tests copy a few constants; masks off by one only show at the edges of words.',
     [BITS, MOD, INST], [('masks and copies', BITS + ':Bits'), ('field positions', MOD + ':InstructionModifier'), ('byte order', INST + ':Instruction.reverse_endianess')],
     'exhaustive ranges and generated words against bit by bit references', 'Sampled words; the register replacement that needs the DARM library is not covered.')

prop('C08', 'Enumerating the words that damage could have come from is exact',
     'Enumerating the damage of a set of ranges of bits gives every word that differs from the given one only in those bits, each once, the given one '
     'included. Damaging some amount n of bits of a field at random gives exactly the 2^n combinations of n bits of that field, starting with '
     'the undamaged word, and every bit of the field can be picked.',
     ['inputs'], 'Any word, ranges of up to 10 bits in total anywhere (up to bit 31), picks of up to 7 bits in any field, any random seed.',
     'The tests enumerate two or three ranges; a missing combination loses the original instruction for good.',
     [COR], [('enumerations', COR + ':corrupt_all_bits, corrupt_all_bits_tuples, corrupt_bits')],
     'property-based testing against the enumeration of submasks', 'Sampled words and ranges.')

prop('C09', 'Losing packets leaves exactly the candidates that the received bits allow',
     'After simulating the loss of packets, each address of the program has as candidates exactly the words that agree with the original in every bit that was '
     'received, each once and in increasing order where bits were lost, and just its own words where nothing was lost. The '
     'original is always among them, and addresses take their words in increasing order of address, whatever the order of the program given.',
     ['fault_sequences', 'programs', 'configurations'], 'Programs of 1 to 24 words (2200 in the long cases), orders of up to 32 packets (130), 1 to 3 packets lost, chunks of 1 to 8 bits, up to 6 bits lost per word.',
     'The tests lose one packet of one program and look at a few addresses.',
     [CRS, COR, INT], [('loss of packets turned into candidates', CRS + ':PacketCorruptor.corrupt')],
     'fault injection against an independent enumeration of the candidates', 'Known finding of C05 (bit 31) shows here too and is matched exactly; at least a packet is lost, with or without data.')

prop('C10', 'Simulated random damage is what was asked for',
     'Damaging a percentage of a program at random damages that share of its addresses (rounded up, at least one, never the same twice), each with all the '
     'combinations of at least one and at most the requested amount of bits, the original word first; the rest of the program is not touched and percentages out of 0 to 100 are rejected. '
     'Damaging chosen fields of an instruction only gives valid instructions that differ in those fields, each once, the original first.',
     ['programs', 'inputs'], 'Programs of 1 to 40 words (1200 in the long cases) at any addresses, percentages including the limits and fractions, up to 5 bits, any random seed.',
     'The tests check one percentage on one program, and never the candidates.',
     [COR, CRS], [('choice of addresses and bits', COR + ':corrupt_program, corrupt_instruction, distribute_random_amount'), ('simulator', CRS + ':RandomCorruptor')],
     'property-based testing with seeded randomness against validity predicates', 'Sampled; a difference of one address is tolerated when the percentage is a fraction (floating point).')

prop('C11', 'A damaged program that is stored comes back as it was',
     'A damaged program stored as JSON, directly or by the simulators, is loaded back with the same addresses in the same order, each having the same '
     'candidates in the same order at that address, including undefined words and addresses without candidates. Storing it does not change it.',
     ['programs'], 'Programs of 0 to 15 addresses with 0 to 6 candidates of any value, in any order, and programs damaged by both simulators.',
     'The tests store one program and compare amounts.',
     [COR, CRS], [('storing and loading', COR + ':save_corrupted_program_to_json, load_corrupted_program_from_json'), ('loading simulator', CRS + ':JSONCorruptor')],
     'property-based round trip', 'Sampled.')

prop('C12', 'The facts obtained from an instruction are the ones of its encoding',
     'For any ARM word, the condition, the registers used, read and written (shift amounts and address registers included), the memory access, and whether it is a branch (writing the program counter included), a call, push '
     'or pop, and where it jumps to, are the ones given by the fields of the encoding, however many times and in whatever order they are asked. Storages add memory, the program counter of branches, and a mark for '
     'instructions without registers; words that are not instructions are told undefined and ignored.',
     ['inputs'], 'Words built from fields for 27 classes of instructions (data processing, multiplications short and long, transfers of words, halves, pairs and lists, preloads, branches, returns and computed jumps, status, system) with any condition and registers, and any 32 bit word for the consistency of the facts.',
     'The tests check about ten fixed instructions; every score and analysis is built on these facts for any word that damage can produce.',
     [CAPS, INST], [('facts from the disassembly', CAPS + ':CAPSInstruction'), ('storages', INST + ':Instruction')],
     'differential: the facts computed from the fields used to build each word', 'Sampled; the written register of stores and comparisons follows the convention of the repository tests and is not judged, nor is the memory of block transfers.')

prop('C13', 'Disassembly listings are read completely, and programs convert without losses',
     'Reading a disassembly listing, in either of the two formats, gives every instruction of it, in order, with its address and encoding, and '
     'every function with its name and exactly its instructions, whatever the blank lines, labels and other lines in between. Programs convert between '
     'functions, lists and dictionaries by address keeping every instruction, sorted by address, and functions having instructions, and no others, are known by their first and last address, with gaps or not.',
     ['programs'], 'Generated listings of both formats with any words (up to 25; 300 in the long cases), several functions, gaps and noise; lists and dictionaries of up to 15 words in any order.',
     'The tests read five files and compare a few lines and totals.',
     [READ, RULES, FUN], [('readers', READ + ':ElfioTextDisassembleReader, TextDisassembleReader'), ('conversions', RULES + ':from_instruction_dict_to_list, from_instruction_list_to_dict, from_functions_to_list_and_addr')],
     'property-based round trip: print a listing, read it back', 'Sampled; listings are generated in the shapes of the files of the repository.')

prop('C14', 'The metadata collected from a program is the one its instructions have',
     'For any program, the metadata counts every condition, instruction and storage as many times as the defined instructions use them, skipping '
     'undefined and discarded words, and gives for every storage the least, greatest and mean amount of instructions between each write and the first read after it. It also lists the '
     'different words of the program, from the greatest.',
     ['programs'], 'Programs of 0 to 30 words (600 in the long cases), repeated or not, undefined and discarded ones included.',
     'The tests compare the counts of one program; the recovery discards originals if any count is short.',
     [COLL], [('collection', COLL + ':MetadataCollector')],
     'differential against an independent computation of the counts and distances', 'Sampled; trusts the facts of each instruction (C12).')

prop('C15', 'Field place counts count each value once and always cover the original',
     'For any damaged program, the amount of addresses that may have a condition, an instruction or a storage counts each address once if any of its valid '
     'candidates (defined and not discarded) has it, however many do, and collecting again gives the same. When the originals are among the candidates, no field is possible in fewer addresses than the original program has it.',
     ['programs'], 'Damaged programs of 1 to 10 addresses (200 in the long cases) with up to 16 candidates each, in any order, undefined and discarded candidates and empty addresses included.',
     'The tests use one damaged program and check totals; a low count makes impossible scores.',
     [COLL], [('collection over candidates', COLL + ':CorruptedProgramMetadataCollector')],
     'differential against sets, and a metamorphic bound against the original program', 'Sampled; trusts the facts of each instruction (C12).')

prop('C16', 'Recovering a damaged program never discards the instruction that was sent',
     'Whatever the damage (sets of bits, lost packets, random, or loaded from a file), after the whole recovery every address still has the instruction that was sent among its candidates, '
     'the candidates left are some of the ones given by the damage, and the undamaged words are untouched. Passes of scoring and discarding go on until one discards nothing. The solution files written before and after keep the program that was sent, '
     'and a single scoring never gives zero to it, nor less than one while another candidate is sure.',
     ['programs', 'fault_sequences'], 'The programs of the repository (up to 770 words) losing packets or bits at random; programs of 1 to 14 words in 1 to 4 functions, with gaps, any sets of up to 4 lost bits per word, and of up to 32 words that are confused with one another (up to 64 candidates each), whole pipeline.',
     'The tests run the recovery over two or three files without looking at the originals; soundness depends on metadata, scores and discarding agreeing on every input.',
     [RP, REC, COLL, SB, SIO], [('passes of scoring and discarding', RP + ':run_recovery, remove_bad_candidates_at_addr'), ('scores', REC + ':ProbabilisticRecuperator')],
     'end-to-end fault injection with an invariant over the candidates and the files written', 'Sampled; damaged words are instructions, since data is discarded by design.',
     observe=['candidates after ' + RP + ':run_recovery', 'initial_solution.sol and final_solution.sol'])

prop('C17', 'Scores are probabilities computed from their evidence, whatever the order',
     'Every piece of evidence and every score of a candidate is between zero and one; the evidence for its condition, opcode and storages is how often the metadata has them over the addresses that may have them '
     '(the least over its storages), and the one for a jump depends only on where it lands: in its function, at the start of another, elsewhere or outside. The score is the product of the evidence that applies to the '
     'kind of candidate, impossible evidence gives zero and a sure condition or opcode gives one in the discarding score; scoring again, or with addresses and candidates in another order, gives the same scores. The reports of a recovery tell the discarding score in each pass, and the product once the passes end.',
     ['programs', 'configurations'], 'Damaged programs of up to 14 words in up to four functions (60 in seven in the long cases), with gaps, knowing all the functions, some or none; the default model or any values for it; any subset of evidence for the combination.',
     'The tests compare scores of single instructions in fixed programs.',
     [REC, COLL, S + 'metadata/probabilistic_model.py'], [('evidence', REC + ':ProbabilisticRecuperator'), ('combination', REC + ':probabilistic_rules, probabilistic_rules_remove_step')],
     'differential for the counted evidence, metamorphic reordering and repetition, range invariants', 'Sampled; the value of the evidence of push/pop and neighbours is judged by C31; the one of distance only for range, presence and locality.')

prop('C18', 'The counting rules share what the metadata has left among the candidates',
     'The counting rules score each valid candidate with what the metadata has left of each of its fields, once the addresses already known are taken away, '
     'divided by the candidates that have that field and averaged over its fields. The metadata is not changed and undefined candidates get no score, whatever the order of the addresses.',
     ['programs'], 'Damaged programs of 1 to 8 words (120 in the long cases) with up to 6 lost bits each, the three counting rules.',
     'The tests check that the scores of one program are not all zero.',
     [CNT, RULES], [('shares', CNT + ':CountingRule')],
     'differential against exact fractions', 'Sampled; addresses with one valid candidate among undefined ones are left out.')

prop('C19', 'The constraint problem of a damaged program has exactly the matching programs',
     'The solutions of the constraint problem built for a damaged program and some metadata are exactly the choices of one candidate per address whose counts of conditions, '
     'instructions and storages equal the metadata, discarded and undefined candidates counting nothing. No solution is missing, repeated or wrong, whatever the order of candidates and addresses.',
     ['programs'], 'Damaged programs of 1 to 5 addresses and up to 300 combinations, with metadata of the program sent or of another one.',
     'The test only checks that there are not more solutions than combinations.',
     [SB], [('constraint and forward checking', SB + ':ExactFieldSumConstraint, ProblemBuilder')],
     'differential against brute force over every combination', 'Sampled small programs.')

prop('C20', 'The constrained solutions identify the program that was sent',
     'The bits built as solution of a damaged program are, from fewer to more candidates, the index of the original at each address, in just the bits that the amount of candidates needs: decoding them with the damaged program gives the '
     'text of every original, and their amount is the size told. The enumeration of solutions, taking the address with fewer candidates left each time, prunes from the other ones exactly the candidates (but the last of each) that the metadata not used yet does not allow, and never an original; '
     'its number is the product of the places (from one) of the originals among the candidates left, and its size the logarithm in base 2 of it.',
     ['programs'], 'Damaged programs of 1 to 24 addresses (200 in the long cases) with up to 32 candidates, discarded candidates, addresses without candidates or with undefined originals.',
     'The test builds one solution and checks that it does not fail.',
     [SB], [('order of the addresses and bits', SB + ':ForwardConstraintSolutionBuilder'), ('pruning', SB + ':ForwardConstraintSolutionEnumerator')],
     'round trip by an independent decoder, model of the pruning accepting any order of the ties', 'Sampled.')

prop('C21', 'A solution file keeps the candidates of every address up to the original',
     'Reading a solution file that was written gives, in the order of the program, the candidates of each address up to and including the original, which is the last one, and the original program. '
     'Files of another kind or cut at any point are rejected, and so is writing an address whose candidates do not have the original.',
     ['programs', 'crash_points'], 'Programs of 0 to 12 addresses with up to 9 candidates (300 addresses, or 9000 candidates, in the long cases) of any value, files cut at any byte, any bit of the magic word changed.',
     'The test writes and reads one program.',
     [SIO], [('format', SIO + ':SolutionWriter, SolutionReader')],
     'property-based round trip and rejection of generated corrupt files', 'Sampled.')

prop('C22', 'The quality of a solution measures the programs its candidates leave',
     'The number of solutions of a program is the product of the amounts of candidates of its addresses, exactly, its size in bits is the sum of their logarithms (zero if some address has none), and its bins are how many addresses have each amount, in whatever order they are asked. Evaluating '
     'it, once or again after discarding some or changing their scores, sorts the candidates by score, and the highest depth is the worst relative place of an original, between the places that its score allows; what is printed tells the same, and an address with the depth told for each amount of candidates.',
     ['programs'], 'Programs of up to 40 addresses with up to 70 candidates (1500 addresses in the long cases) (counts beyond 64 bits), and scored programs of up to 8 addresses with scores as small as products of probabilities are.',
     'The test evaluates one program; products are large and depend on all the addresses.',
     [SQ], [('counts and depth', SQ + ':SolutionQuality')],
     'differential with exact arithmetic and bounds on the depth', 'Sampled; how equal scores are ordered is not judged.')

prop('C23', 'The control flow graph has the flow of the instructions, and only it',
     'Every defined instruction is in exactly one block, blocks have consecutive instructions under one condition, end at branches and start at the targets of jumps. Returns and computed jumps never continue with the following instruction; calls do. From every block the graph reaches, '
     'through conditional or unknown nodes only, exactly the instructions that can run next: the target of a branch or the end, the following one when control goes on, and what comes after a conditional run that may be skipped. '
     'Removing the conditional nodes keeps the flow between all other nodes.',
     ['programs'], 'Functions of 1 to 14 (100 in the long cases) instructions, contiguous or not, in low and high memory, with any mix of branches, calls, returns, computed jumps, writes of the program counter, conditional runs and undefined words; functions of the repository programs.',
     'The tests count the nodes and edges of one function.',
     [CFG], [('construction of blocks and edges', CFG + ':ARMControlFlowGraph.build'), ('removal of conditionals', CFG + ':ARMControlFlowGraph.remove_conditionals')],
     'differential against a model of the flow of the instructions', 'Sampled; where computed jumps go, is not judged, and jumps to undefined words may go to the end.')

prop('C24', 'Dominators and dominance frontiers are the ones of their definitions',
     'For any directed graph, the immediate dominator of every node reached from the root is the closest node that is in every path from the root to it, the root and nodes not reached have none, and '
     'the dominator tree has exactly those edges. The dominance frontier of each node is exactly the nodes where its dominance ends, without repetitions, and it is refused before the dominators are known. Both are the same when they are computed again, and those of the new graph if it changed.',
     ['inputs', 'programs'], 'Any directed graphs of up to 24 nodes (80 in the long cases), all graphs of up to 3 (4 in thorough), control flow graphs with and without conditionals, computed once or again after adding edges or removing conditionals.',
     'The tests use two fixed graphs; the algorithm depends on the order of the search.',
     [DOM, SSA, CFG], [('Lengauer-Tarjan', DOM + ':build_dominator_tree, dominator_eval'), ('frontiers', SSA + ':build_dominance_frontier')],
     'differential against dominance by removal of nodes, exhaustive for tiny graphs', 'Sampled graphs; depth limited by the recursion of the search.')

prop('C25', 'In SSA form every value has one name and every read names the one reaching it',
     'After building the SSA form of any control flow graph, every write and every phi function has a different version, and every read of a storage names the only version that reaches it by any path. The parameters of a phi function are '
     'the versions leaving each predecessor reached, there are phi functions only where different values of a storage that some block reads meet, none is overwritten before being read nor at the end, and the value graph has exactly the dependences of phi functions and instructions, whether or not the graph or its instructions had an SSA form before.',
     ['programs'], 'Control flow graphs of functions (up to 60 instructions in the long cases) and any graphs of up to 12 blocks of up to 3 instructions, with loops and blocks not reached; built once or again.',
     'The tests look at the phi functions of two fixed programs.',
     [SSA, DOM], [('placement', SSA + ':place_phi_nodes'), ('renaming', SSA + ':SSAFormBuilder'), ('value graph', SSA + ':SSAFormBuilder.build')],
     'differential against reaching definitions computed by data flow', 'Sampled; trusts the storages of each instruction (C12); no flow back to the root.')

prop('C26', 'Unions and intersections of independent events are exact',
     'For any non-empty list of probabilities, the union of independent events is one minus the product of their complements and the intersection is their product, in whatever order, and a union of no events is rejected. '
     'The uniform probability of a range is one over its length.',
     ['inputs'], 'Lists of 1 to 10 probabilities as exact fractions and as floating point numbers.',
     'The tests use two or three lists.',
     [PROB], [('inclusion and exclusion', PROB + ':indep_events_union, indep_intersection, uniform')],
     'differential with exact fractions', 'Sampled.')

prop('C27', 'Huffman codes are prefix free and optimal for the frequencies of the program',
     'For any frequencies, every symbol gets exactly one binary code, no code is the beginning of another, and the size told for the message is the least that any prefix code can reach, so encoded messages decode back. '
     'The frequencies of registers, opcodes and conditions count every use in the program, and list each instruction having them once.',
     ['inputs', 'programs'], 'Frequencies of 1 to 40 symbols (500 in the long cases) of several shapes, and programs of 1 to 30 words.',
     'There are no tests of the codes, only of the counter over one file.',
     [HUFF], [('codes', HUFF + ':encode, huffman_size'), ('frequencies', HUFF + ':InstructionPartFrequencyCounter')],
     'round trip and differential against the optimal cost computed apart', 'Sampled; the modules are imported with a stand-in for the DARM library, which none of this uses.')

prop('C28', 'The shift compressor takes away the listed bits and nothing else',
     'Compressing data with a list of slots that do not overlap gives exactly the bits of its bytes that are in none of the slots, in order, packed from the first and padded with zeros to a byte. The order in which the slots are listed does not matter, '
     'the data and the list are not changed, and compressing again gives the same.',
     ['inputs'], 'Data of 1 to 24 words (400 in the long cases), any set of slots of 1 to 8 bits that do not overlap, in any order, some of them out of the data.',
     'The tests remove two or three slots of two words.',
     [SHIFT], [('removal from the end', SHIFT + ':ShiftCompressor.compress')],
     'differential against a list of bits', 'Sampled.')

prop('C29', 'The report of a recovery accounts for every damaged word once',
     'The report counts every address with several candidates as an error and as exactly one of losing, tied or recovered, according to whether the best candidate reads as the original and its score is matched by a different one; the ratio is the '
     'recovered over the errors. It lists every candidate from best to worst score with its scores by rule and the originals and the discarded ones marked, how many originals are at each depth, how many candidates tie, and how many times each rule gave more to a losing winner than to the original, for any program, with errors or not.',
     ['programs'], 'Programs of 1 to 10 words (150 in the long cases) with 1 to 6 candidates scored by 1 to 3 rules, with ties, equal texts and missing originals.',
     'The tests never read the report.',
     [RP], [('figures', RP + ':print_report')],
     'differential: the figures recomputed from the candidates', 'Sampled.')

prop('C30', 'Discarding keeps the sure candidates, or else every possible one',
     'Given any candidates of an address with their scores, discarding keeps exactly the ones that score one if there are any, and otherwise all but the ones that score zero, in their order, and tells how many were removed. '
     'A word with a single candidate is never touched, and discarding again removes nothing.',
     ['inputs'], 'Every pattern of up to 6 (8) scores among zero, half and one, and lists of up to 10 candidates with any scores.',
     'The tests only run it inside the recovery of a file.',
     [RP], [('discarding', RP + ':remove_bad_candidates_at_addr')],
     'exhaustive patterns and generated scores against the rule', 'Exhaustive for short lists of three values, sampled otherwise.')

prop('C31', 'The evidence of the surroundings comes from the candidates around each one',
     'The evidence of the control flow of a candidate depends only on the candidates left at the address before and the one after: on how many of them have its condition, and on how many of the previous ones modify the flags, weighted '
     'by the probabilities of the model; it is never zero. The one of a push or pop tells whether its function has, at its end or in the middle, a pop restoring the registers of its push. Discarded candidates have no evidence and count for nothing, '
     'and the evidence of the distance between uses of a register is positive and depends only on the addresses that the metadata gives for the registers read.',
     ['programs'], 'Damaged programs of up to three functions (50 words in the long cases) with pushes, pops, comparisons, conditional runs, gaps and jumps; any damage, some candidates discarded or undefined; the default model or any values for it.',
     'The tests look at two scores of one function; this evidence mixes candidates of several addresses, which differ in every damage.',
     [REC, COLL, CAPS, S + 'metadata/probabilistic_model.py'], [('evidence of neighbours, pushes and distances', REC + ':ProbabilisticRecuperator'), ('weights', S + 'metadata/probabilistic_model.py:DefaultProbabilisticModel')],
     'differential against a model of the evidence, metamorphic removal of the addresses that must not count', 'Sampled; the value of the evidence of the distance has no stated formula: only its range and locality are judged.')

prop('C32', 'The control flow rule scores conditions by the neighbours, and jumps inside',
     'The rule gives each candidate the share of the candidates left before and after it having the same condition, weighted by the model, less the weight of the previous ones that modify the flags when it has no condition, and more when it jumps to '
     'an address of the program. Discarded candidates get nothing and count for nothing; scoring in any order gives the same, again changes nothing and says so, and the candidates are not changed.',
     ['programs', 'configurations'], 'Damaged programs with conditional runs, changes of flags, jumps inside and outside, gaps, and candidates discarded or undefined; the default model or any values for it.',
     'The tests recover three addresses of one file with it.',
     [RULES, S + 'metadata/probabilistic_model.py'], [('rule', RULES + ':ControlFlowBehavior')],
     'differential against a model of the rule', 'Sampled.')

prop('C33', 'What is obtained depends on what is given, not on the past nor on the process',
     'A recovery with its files and reports, a control flow graph, an SSA form, codes, packets, damage (for a seed), metadata, solutions and readings give the same result when done alone in a new process, '
     'after any others of them in the same process, with the same or other programs, and in processes that order sets and place objects differently.',
     ['histories', 'inputs'], 'Histories of 1 to 3 operations of 7 kinds, over related or unrelated generated programs, before the one judged; batches of operations in processes of different hash seeds.',
     'Each test runs once in one process: caches, counters of classes and default arguments that keep state are shared by every use in a process, and orders of sets vary only between processes.',
     [CAPS, REC, COLL, RULES, CFG, SSA, HUFF, READ], [('recovery', RP + ':run_recovery'), ('caches of the disassembly', CAPS + ':CAPSInstruction'), ('numbers of blocks', CFG + ':CFGBlock'), ('names', SSA + ':SSAFormBuilder')],
     'stateful generation of histories, differential between a fresh process and one with a past', 'Sampled; the place in memory shown for undefined instructions in reports is not judged.')

prop('C34', 'The progress shown never goes back, and ends when all the work is done',
     'For any amount of work, length, precision and distance between prints, the bar is shown at the start and then each time at least that distance was advanced, with percentages from zero to one hundred that never go back and a bar of exactly the '
     'length asked for; it ends its line just once, full and at one hundred per cent, not before the last step (but for the distance between prints), and always when all the steps are done. Simulating losses and recovering show their progress like that.',
     ['inputs', 'histories'], 'Totals of 0 to 400 steps, advanced up to twice the total; lengths up to 100, up to 3 decimals, any distance; work on programs of up to 120 words.',
     'No test looks at the progress that every recovery shows.',
     [S + 'report/print_progress.py'], [('bar', S + 'report/print_progress.py:TextProgressBar'), ('work', CRS + ':PacketCorruptor.corrupt; ' + REC + ':Recuperator.recover')],
     'generated sequences of steps against invariants of what is shown', 'Sampled.')

prop('C35', 'The distance rule rewards what can be written as far as the metadata says',
     'A candidate is scored by the storages it reads: each gets the best share, of the candidates left at an address, that one of them writes it (divided among all that it writes), over the addresses at the distances that the metadata gives '
     'for the storages read, zero being the instruction right before; the score is their mean. It is negligible when nothing there can write them, at most one, the same in any order, and nothing is discarded. The recovery by rules scores every address '
     'with several candidates with each of its rules and the model given, and no other.',
     ['programs'], 'Damaged programs of 2 to 14 words (50 in the long cases) with values written and read at any distance by instructions of one or several registers, gaps, undefined and discarded candidates.',
     'The test recovers one address of one file, where every candidate may have no score at all.',
     [DIST, REC], [('rule', DIST + ':RegisterReadDistance.recover'), ('recovery by rules', REC + ':Recuperator')],
     'differential against a model of the rule, and of the whole against the rules alone', 'Sampled; trusts the metadata (C14) and the storages of each instruction (C12); several passes, which discard, are not judged.')

prop('C36', 'A graph written in dot has the nodes and edges of the graph, and reads back',
     'Writing a graph in dot gives each of its nodes and edges once, with their attributes, labels and, if asked for, weights, and reading what was written, here or elsewhere, gives the same graph: directed, undirected or a hypergraph of any size. '
     'Control flow graphs, dominator trees and graphs of values are written with all their nodes and edges; every node of a control flow graph has a different text, with its index and its kind or its first and last instructions, or else the one that the printer given makes.',
     ['inputs', 'programs'], 'Graphs of up to 9 nodes of any name (dashes, spaces and punctuation included), hypergraphs of up to 34 hyperedges, texts in dot where some nodes are only told by their edges, and the graphs of functions of 1 to 14 instructions, with and without a printer.',
     'The tests print what is written and do not look at it.',
     ['libs/dot/dotio.py', CFG], [('writer and reader', 'libs/dot/dotio.py:write, read, write_hypergraph, read_hypergraph'), ('texts of the nodes', CFG + ':CFGBlock.__str__')],
     'property-based round trip, and comparison of what is written, read by another reader, with the graph', 'Sampled; pydot is trusted, and names with quotes, colons, backslashes or line breaks are out.')

prop('C37', 'The interleaving for clusters puts each packet of a cluster apart',
     'For (t^2 + 1) / 2 packets, t odd, the interleaving for clusters fills a matrix of the width and height given, or inferred from the size of the message if one is missing (rejecting that both are), with those packets '
     'numbered from zero, any row going through all of them before repeating one; two cells less than t steps apart never have the same packet, so that losing any cluster of t connected cells loses each packet once at most.',
     ['inputs'], 'Matrices of up to 70 by 70 cells for clusters of up to 31 cells, with any size of packets, and clusters that grow at random from any cell.',
     'No test calls it; a property of all the pairs of cells of a matrix of any size.',
     [INT], [('matrix for clusters', INT + ':build_2d_interleave_matrix_blaum')],
     'property-based testing of an invariant over all pairs of near cells, and random clusters', 'Sampled; only amounts of packets that the results it is based on give for clusters of an odd t.')

prop('C38', 'Storing the packets of a program keeps it whole, or but for the packets lost',
     'For any program of at least a word, the script that stores its packets writes a file with the words of all its functions, in order of address and from the lowest byte, and another one of the same size, that '
     'differs only in bits of the slots that the packets left out (the first fifth of them, of 16 bytes each) take in the interleaving, which are cleared. The compressor it uses does the same for any data and packets.',
     ['inputs'], 'Listings of 1 to 120 words with functions in any place and words out of them, and data of up to 30 words with any order and packets lost.',
     'No test runs the script nor its compressor.',
     ['store_packets.py', S + 'compressor/shiftcompressor.py'], [('script', 'store_packets.py'), ('compressor', S + 'compressor/shiftcompressor.py:SwapCompressor')],
     'property-based testing of the files written against the program and the slots of the packets', 'Sampled; which bits of the slots are cleared is not judged, and slots are counted on bytes as in C28.')

NOT_APPLICABLE = []

NOTES = ('All checks are generated-input searches (Hypothesis, seeded by VERIF_SEED; exhaustive sweeps for small domains) against explicit '
         'oracles. They import the code from /repo (or from $SEMREC_REPO) at every run. No hooks are needed. '
         'Replay a violation with: bash run.sh --replay <file>.')


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            anchors = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']], 'hook_needed': None}
            if p['observe']:
                anchors['observe_at'] = p['observe']
            if p['state']:
                anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': anchors}) + '\n')
    checks = []
    for p in PROPS:
        checks.append({'property': p['id'], 'quick_cmd': 'bash run.sh {} --tier quick'.format(p['id']),
                       'thorough_cmd': 'bash run.sh {} --tier thorough'.format(p['id']),
                       'evidence_file': 'evidence/{}.json'.format(p['id']), 'technique': p['technique'],
                       'level': 'exploration', 'level_note': p['note']})
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': NOT_APPLICABLE, 'notes': NOTES},
                  f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
