prop('C01', 'Bit field helpers are exact and refuse impossible ranges',
     'Copying a bit range from one 32-bit word into another yields exactly the destination word with the selected bits '
     'replaced by the source bits, all other bits unchanged; building a mask, and testing one bit or a range of bits, agree with '
     'the same bit positions. Ranges that are reversed or leave bits 0 to 31 are refused with an error, and valid ranges are never refused.',
     ['inputs'], 'all words, all source ranges and destinations, valid and invalid',
     'the tests try a handful of words and ranges of the 2^64 * 32^3 combinations',
     ['architecture/bits.py'],
     technique='value numbering with bit-segment normal forms, path facts decided by affine entailment',
     note='every path of the helpers is summarised; result term and range facts compared with the specification; loops over bits would be left undecided',
     mechanism=[('Bits.copy_bits / set / is_on / are_on / on / check_range', SC + 'architecture/bits.py')])
prop('C02', 'The bit queue returns exactly the bits stored, in order',
     'A queue of bit chunks gives back, in the order they were stored, exactly the chunks put into it, for every chunk size from 1 to '
     '32 bits and whatever the interleaving of storing and reading. It reports being empty exactly when everything stored has been read.',
     ['inputs', 'histories'], 'all chunk sizes, values and sequences of enqueue and dequeue',
     'tests use a few chunk sizes and short sequences; wrapping of the cursors depends on the whole history',
     ['architecture/bits.py'],
     technique='inductive representation invariant: per-path cursor conservation and bit placement by affine entailment',
     note='each path of enqueue/dequeue/empty is checked against the stream-position invariant for symbolic cursors and chunk size; chunks must lie inside the source word',
     mechanism=[('BitQueue.enqueue / dequeue / empty', SC + 'architecture/bits.py')],
     state=[('write cursor', 'word and bit where the next chunk is stored', SC + 'architecture/bits.py'),
            ('read cursor', 'bit of the first word where the next chunk starts', SC + 'architecture/bits.py')])
prop('C04', 'Reassembling the packets that arrived gives the data back',
     'Interleaving stores every chunk of the data, in sequence, in the packet of the next slot of the interleave order. Reassembly with the '
     'same order walks the slots the same way: each chunk lands at the position it came from; where the packet of a slot was lost the '
     'position is filled with zeros and reported in the error list, and no position that arrived is reported.',
     ['inputs', 'histories'], 'all data, chunk sizes dividing the word, interleave orders and sets of lost packets',
     'tests round-trip two data sets with one chunk size and a few lost packets',
     ['interleaver/interleaver2d.py', 'architecture/bits.py'],
     technique='loop summaries as transition systems: cursor and slot invariants proved inductively by affine entailment; effect-trace rule per path',
     note='the packet queues are taken as exact streams (C02); a trailing lost chunk in a partial last pass cannot be told from the end of the data and is outside the statement',
     mechanism=[('interleave / deinterleave', SC + 'interleaver/interleaver2d.py')])
prop('C03', 'The interleave order is a permutation of the packets',
     'For every number of packets the order produced for interleaving names each packet from 0 to the number of packets minus one exactly '
     'once, in matrix and in flat form: successive packing fills every cell of its square with distinct consecutive numbers, the '
     'squares of different sizes are given consecutive packet ranges, and no row of any square is dropped or repeated.',
     ['inputs'], 'all packet counts',
     'tests build the order for three packet counts; the construction recurses on the base-4 digits of the count',
     ['interleaver/interleaver2d.py'],
     technique='induction over loop summaries: quadrant coverage and residue classes of the doubling step, offset arithmetic of the matrix ranges',
     note='the floor of the base-4 logarithm is taken as some n with 4^n not above the packets left',
     mechanism=[('sucesive_packing / build_2d_interleave_sp', SC + 'interleaver/interleaver2d.py')])
prop('C06', 'Corruption keeps the original and files candidates under their own address',
     'Every candidate a corruptor makes carries the address of the list it is filed in and is made from an instruction of that same '
     'list; lists only grow, so the original instruction stays, and nothing but repeated encodings is left out. Corrupting a share '
     'of a program corrupts that share of its addresses (rounded up, at least one), each at most once, and refuses shares outside 0 to 100. '
     'Packet corruption applies the bits lost in word i, all of them and only those, to the instruction at the i-th address in increasing order.',
     ['inputs', 'histories'], 'all programs, shares, error amounts, and lists of lost bits',
     'tests corrupt a few programs and look at counts; the grouping of lost bits by word depends on the order and shape of the loss list',
     ['corruption/corruption.py', 'corruption/corruptors.py'],
     technique='effect-trace rules on symbolic path summaries: provenance of candidate address and encoding, typestate of the word grouping loop',
     note='the loss list is taken as predicted (C05) and sorted; random choices are unconstrained symbols',
     mechanism=[('corrupt_program / corrupt_instruction', SC + 'corruption/corruption.py'),
                ('PacketCorruptor.corrupt / _corrupt_address', SC + 'corruption/corruptors.py')])
prop('C07', 'Corruption flips only the declared bits and yields every combination of them',
     'Corrupting a bit range or a list of disjoint bit ranges of a word returns every combination of flips of exactly those bits, the '
     'original first, and nothing else. Random corruption draws the asked number of distinct bits inside the given bounds and returns the '
     'original word and every combination of flips of the drawn bits. Corrupting the condition, register or opcode field touches only bits of that field.',
     ['inputs', 'histories'], 'all words, ranges, error amounts and random draws',
     'tests enumerate a few small ranges and check counts',
     ['corruption/corruption.py'],
     technique='loop summaries with bit-flip normal form and doubling-step induction',
     note='ranges are taken disjoint as documented; random draws are unconstrained within the bounds passed',
     mechanism=[('corrupt_all_bits / corrupt_all_bits_tuples / corrupt_bits', SC + 'corruption/corruption.py')])
prop('C05', 'Predicted losses are exactly the bits carried by the lost packets',
     'For every lost packet the predicted errors are the chunks its slot of the interleave order carries: the first at chunk size times the slot, '
     'then one every full pass over the packets, for all chunks that begin inside the data and none beyond it. Each chunk is reported as its exact bits, '
     'in one piece when it lies in a word, split in two pieces where it crosses the end of the word.',
     ['inputs'], 'all data sizes, packet counts, chunk sizes, orders and sets of lost packets',
     'tests compare two loss sets on one order',
     ['corruption/corruption.py'],
     technique='loop summaries: position progression and chunk pieces compared in normal form, guards decided by affine entailment',
     note='one known finding: a chunk that ends exactly at a word boundary is split one bit early (pinned by the test suite)',
     mechanism=[('predict_corruption', SC + 'corruption/corruption.py')])
prop('C08', 'A corrupted program saved as JSON loads back the same',
     'Saving a program and loading the file gives a program with the same addresses, as numbers, and at each address the same candidate '
     'encodings in the same order, every candidate an instruction carrying the address it is filed under. Nothing is dropped, repeated or added.',
     ['inputs'], 'all programs and candidate lists',
     'no test loads a snapshot it saved',
     ['corruption/corruption.py', 'corruption/corruptors.py'],
     technique='effect-trace rules over symbolic path summaries of the writer and the reader, with provenance of keys and elements',
     note='the json module is trusted; it writes integer keys as text',
     mechanism=[('save_corrupted_program_to_json / load_corrupted_program_from_json / InstructionEncoder', SC + 'corruption/corruption.py'),
                ('JSONCorruptor.corrupt / Corruptor._save_corrupted_program', SC + 'corruption/corruptors.py')])
prop('C09', 'A solution file reads back what was written',
     'Writing a program to a binary solution file and reading the file gives, for every address, its candidates up to and including the original '
     'instruction in the same order, and the original instruction itself. A file that does not begin with the magic number is refused when read, '
     'and a program whose address lacks its original instruction is refused when written.',
     ['inputs'], 'all programs and originals, with 32-bit addresses and encodings',
     'the test reads back one corrupted program',
     ['solution/solution_io.py'],
     technique='record grammar extraction from writer and reader traces, field-by-field matching, provenance of read fields',
     note='addresses and encodings are taken to fit in 32 bits; the struct module is trusted',
     mechanism=[('SolutionWriter.write_binary / SolutionReader.read', SC + 'solution/solution_io.py')])
prop('C10', 'Solution figures and answer bits match the candidate lists',
     'For a table of candidate lists the number of solutions is the product of the list lengths, the bins count every address under the '
     'length of its list, and the size is the sum of the binary logarithms of the lengths, zero when there is no solution. The highest depth is '
     'the worst, over the original instructions that are not ignored, of the rank of the right candidate in its list by descending score relative '
     'to the length. The answer stores, for each such address with several candidates, the position of the right one in the fewest bits '
     'that tell the candidates apart, and its size is the number of bits stored.',
     ['inputs'], 'all candidate tables, scores and original programs',
     'tests look at the figures of a few corrupted programs',
     ['solution/solution_quality.py', 'solution/solution_builders.py'],
     technique='fold recognition on loop summaries (histogram, product, sum, maximum) and per-address effect traces',
     note='loops are read as folds over the table or over a histogram proved to count it; the bit queue is taken as an exact stream (C02)',
     mechanism=[('SolutionQuality', SC + 'solution/solution_quality.py'), ('ForwardConstraintSolutionBuilder', SC + 'solution/solution_builders.py')])
prop('C11', 'Metadata counters are exact',
     'The metadata of a program counts, over exactly its instructions that are not ignored, how many have each condition and each opcode, and how '
     'often each storage is used. The metadata of a corrupted program counts for each condition, opcode and storage the number of addresses having '
     'at least one candidate, not ignored, with it: each address once, however many of its candidates share the value.',
     ['inputs'], 'all programs and candidate tables, with repeated words and undefined instructions',
     'tests compare the counters of one or two programs',
     ['metadata/metadata_collector.py'],
     technique='counter recognition on loop summaries: every straight path of a round adds exactly its value once, under exactly the right conditions',
     note='what an instruction says it uses (its storages) is taken as given',
     mechanism=[('MetadataCollector.collect / CorruptedProgramMetadataCollector.collect', SC + 'metadata/metadata_collector.py')])
prop('C12', 'Write to read distances are measured once and exactly',
     'The distance of a storage is the number of instructions, ignored ones left out, between an instruction that writes it and the first later one that '
     'reads it; what an instruction reads is measured before what it writes is noted. Every such pair gives one sample to the smallest, the largest '
     'and the mean distance of the storage alike, so for each storage the three describe the same samples: the smallest is at most the mean, the mean at most the largest.',
     ['inputs', 'histories'], 'all programs, with instructions that read and write the same storage, re-reads and re-writes',
     'a test compares the distances of one program',
     ['metadata/metadata_collector.py'],
     technique='per-path effect comparison of the sampling round (sample, count, extremes, running distance, marks) with affine entailment of the comparisons',
     note='what an instruction says it reads and writes is taken as given; the invariant smallest ≤ largest is used between two samples',
     mechanism=[('MetadataCollector.collect', SC + 'metadata/metadata_collector.py')])
prop('C13', 'Counting scores share what is left of the metadata',
     'For each condition, opcode and register the counting rules take the count in the metadata, subtract the addresses already decided (exactly one valid '
     'candidate) with that value, and divide what is left by the number of valid candidates with it at the other addresses; with no such candidate the '
     'share is zero. A candidate that is not ignored gets the mean of the shares of its values (for registers a branch gets a tiny bonus), filed under the name of '
     'the rule and the pass, different for each rule; ignored candidates are neither counted nor scored, and the metadata is left as it was.',
     ['inputs', 'histories'], 'all programs, metadata and orders of candidates, with ignored words anywhere',
     'no test looks at the scores',
     ['metadata/probabilistic_rules/counting_rules.py', 'metadata/probabilistic_rules/rules.py'],
     technique='counter recognition per rule class with the class hooks resolved, decided/undecided split by affine entailment, fold recognition of the mean',
     note='fields a candidate says it has are taken as given; shares are filed once per rule object',
     mechanism=[('ConditionalCount / InstructionCount / RegisterCount', SC + 'metadata/probabilistic_rules/counting_rules.py')])
RC = SC + 'metadata/recuperator.py'
prop('C14', 'Metadata scores are the share of the addresses that could hold the value',
     'The condition and the opcode score of a candidate are the count of its condition or opcode in the metadata divided by the number of addresses '
     'having a candidate with it; the register score, given to everything but branches, pushes and pops, is the smallest such ratio over all storages it '
     'uses, at most one. A value absent from the metadata or from the address counts makes the score zero; computing a score never fails and always files it.',
     ['inputs'], 'all candidates, metadata and corrupted programs',
     'tests look at the solutions of a few programs, not at scores',
     ['metadata/recuperator.py'],
     technique='path summaries compared with the ratio specification; guards of every table access required on the path; minimum recognised as a fold',
     note='the two tables are taken as counted (C11)',
     mechanism=[('ProbabilisticRecuperator._compute_conditional / _compute_opcode / _compute_registers', RC)])
prop('C15', 'Branch target scores follow where the branch leads',
     'A branch gets exactly one target score: that of a jump inside the current function when its target lies from its first to its last '
     'address, both included; else that of a jump to the start of a function when the target is one; else the lowest when it lies outside the '
     'addresses of the program; twice the lowest for every other target and for one that is not known. Other instructions get none, and code outside '
     'every known function is scored without failing.',
     ['inputs'], 'all targets, function tables and address ranges',
     'no test scores a branch against a table of functions',
     ['metadata/recuperator.py'],
     technique='decision table: every path is expanded over the undecided conditions by affine entailment and compared with the row it belongs to',
     note='targets and addresses are integers; functions are pairs of first and last address',
     mechanism=[('ProbabilisticRecuperator._compute_branch_address', RC)])
prop('C16', 'Scores combine exactly the parts for the kind of instruction',
     'The score of a candidate is the product of its condition, opcode and control flow scores with the target score for a branch, with the register and '
     'push-pop scores for a push or pop, and with the register and distance scores for the rest; a part that was not filed counts as one, and a result '
     'outside 0 to 1 is refused. When candidates are removed, a candidate with any part at zero scores zero, and one whose largest of condition, opcode '
     'and register score is one, with no part at zero, scores one. Every part filed is under a name the combination reads.',
     ['inputs'], 'all combinations of parts, present or absent, and all kinds of instruction',
     'tests use the combination through whole recoveries only',
     ['metadata/recuperator.py'],
     technique='symbolic evaluation of both combinations for every presence pattern of the parts and class of instruction, product compared factor by factor',
     note='condition and opcode parts are taken as filed, which C14 requires',
     mechanism=[('probabilistic_rules / probabilistic_rules_remove_step', RC)])
prop('C17', 'The control flow score follows the valid candidates just before and after',
     'The control flow score of a candidate depends only on the valid candidates 4 bytes before and 4 bytes after, where there are any. For a conditional '
     'candidate it is the largest of the applicable weighted shares: of previous ones with its condition or setting flags (each counted once), of previous ones '
     'with its condition, or of previous ones setting flags, alone and times the share of following ones with its condition. An unconditional one scores '
     'the complement weight times the share setting flags, else the shares with its condition. With no such share it gets the low probability. Every share is '
     'over the valid candidates of that address, nothing is divided by zero, and every candidate gets a score.',
     ['inputs'], 'all programs, gaps between addresses, ignored candidates and conditions',
     'tests run a whole recovery and look at ranks; the table has sixteen cases that depend on the neighbours',
     ['metadata/recuperator.py'],
     technique='counter recovery from loop summaries (inclusion-exclusion over candidate features), decision-table expansion, rational normal forms compared',
     note='the weights of the model are taken as positive and at most one; modifies_flags() is the question whether an instruction sets the flags',
     mechanism=[('ProbabilisticRecuperator._compute_proper_cfg', RC)])
prop('C18', 'The distance score searches exactly where the metadata lets the writer be',
     'For each storage a candidate reads, the distance score looks at the addresses between the smallest and the largest distance the metadata has for '
     'it before the candidate (the one just before when the metadata has none), all of them and no others, skipping those not in the program. For each '
     'storage it takes anew the product over these addresses of one minus the share of valid candidates writing the storage, leaving addresses without valid '
     'candidates out and stopping early only when the product is zero. With one storage read the score is one minus the product, or the low probability '
     'when that is zero. Branches, pushes and pops get no distance score, all others do, and nothing is divided by zero.',
     ['inputs'], 'all programs with gaps, ignored candidates and distance tables',
     'tests run whole recoveries; which addresses are searched depends on the tables and the gaps of the program',
     ['metadata/recuperator.py'],
     technique='affine comparison of the searched range with the metadata window, product accumulator recovered from nested loop summaries',
     note='addresses are multiples of 4 apart; how several storages are combined is left open',
     mechanism=[('ProbabilisticRecuperator._compute_register_distance', RC)])
prop('C19', 'Elimination drops the candidates ruled out and never a certain one',
     'Eliminating at an address removes every candidate whose score is 0 and, when the address has a candidate with score 1, every candidate that scores '
     'less; it removes no other candidate, so a candidate with score 1 always stays and, with none, everything above 0 stays. The order of the remaining '
     'candidates is kept, whatever order they come in, and the number returned is the number removed.',
     ['inputs'], 'all lists of candidates with scores between 0 and 1',
     'no test covers the elimination; it depends on the order of zeros, ones and values between',
     ['recover_program.py'],
     technique='inductive check of the scans: removal conditions entailed by literals on the score and by certified counters, survivors classified after each scan',
     note='the score of a candidate does not change while candidates are removed and lies between 0 and 1 (C16)',
     mechanism=[('remove_bad_candidates_at_addr', 'recover_program.py')])
prop('C20', 'A recovery repeats scoring and elimination until nothing is removed',
     'A recovery collects the metadata from the uncorrupted program, corrupts copies of its instructions, and then makes passes: each scores the corrupted '
     'program with that metadata and the functions of the original, then eliminates at every address of it. Passes end after the first one that removed nothing at any address and not before. '
     'Only then every remaining candidate gets the continuous score, the candidates are constrained, and the result is written together with the original.',
     ['histories', 'inputs'], 'all programs, corruptors and numbers of passes',
     'no test runs the recovery program; the number of passes depends on the whole history of removals',
     ['recover_program.py'],
     technique='event order over the traces of the driver and meaning of the accumulated stability flag read off its loop summary (reset, forgetting and partial walks found)',
     note='collaborators (collector, corruptor, recuperator, reports) are taken as calls; their own behaviour is stated by other properties',
     mechanism=[('run_recovery', 'recover_program.py')])
prop('C21', 'A scoring pass gives every valid candidate every score with its own context',
     'A scoring pass walks all addresses of the program from the smallest to the largest. Every valid candidate of every address, and no ignored one, gets '
     'the condition, opcode, register, push-pop and branch target scores; it also gets the distance and control flow scores unless its address is the first. '
     'Each score is computed with the address of the candidate, with the smallest and largest address of the program, and with the current function: the '
     'last address up to and including this one where a function starts, or the first address before any. Each scored candidate gets the elimination score.',
     ['inputs'], 'all programs, function tables and ignored candidates',
     'tests run whole recoveries with few functions and look at the final ranks',
     ['metadata/recuperator.py'],
     technique='path enumeration of the nested walk with call arguments matched by role and the current function proved by induction over the outer loop',
     note='methods that file one score each are taken as calls; C14 to C18 state what they file',
     mechanism=[('ProbabilisticRecuperator._recover', RC)])
prop('C22', 'What an instruction is and where it branches follow from its bits',
     'An instruction keeps the address it is given and, as encoding, the number given or the number its text reads in the stated base without the spaces. '
     'Reversing the byte order turns a number or its eight digits into the same four bytes in opposite order. A register list has exactly the set bits 0 to 15. '
     'Computed from the bits, the target of a branch is its address plus 8 plus four times the signed low 24 bits, modulo 2^32; taken from the '
     'disassembler, it is the unsigned immediate of a branch or move and nothing for other instructions. Exactly BL, BLX to a label and BLX to a register '
     'link. The instruction branched to is one at exactly that address, or none.',
     ['inputs'], 'all 32-bit encodings and addresses',
     'tests decode a few instructions; signs, high addresses and links depend on single bits of the encoding',
     ['architecture/instruction.py', 'architecture/darm_instruction.py', 'architecture/capstone_instruction.py'],
     technique='symbolic bit-field evaluation of every path compared with the decoding formula, and exact bit-pattern regions (masks and values) of the link test',
     note='which instructions are branches is what the disassembler says; a target remembered once stays',
     mechanism=[('Instruction.jumping_address', 'architecture/instruction.py'), ('DARMInstruction.jumping_address', 'architecture/darm_instruction.py'),
                ('CAPSInstruction.jumping_address', 'architecture/capstone_instruction.py'), ('Instruction.is_branch_with_link', 'architecture/instruction.py'),
                ('Instruction.branch_to', 'architecture/instruction.py'), ('Instruction._get_register_list', 'architecture/instruction.py')])
prop('C23', 'The storages of an instruction are exactly its registers, memory and PC',
     'The registers used by a disassembled instruction are SP first for a push or pop, then every register operand and every base and index of a memory '
     'operand, once each; core registers carry their own numbers 0 to 15, others numbers beyond all storages. A pop writes all and reads SP; a push writes '
     'none and reads all with SP; others write the first and read the rest. The storages used add memory if memory is read or written, or the no-register '
     'storage if there is nothing; those written add memory for a store and PC, once, for a branch; those read add memory for a load. Asking again gives '
     'the same answer.',
     ['inputs'], 'all instructions and operand lists',
     'tests ask a few instructions; the answer depends on operand kinds, repetition and the disassembler numbering',
     ['architecture/instruction.py', 'architecture/capstone_instruction.py', 'architecture/arm_constants.py'],
     technique='classification of every operand path by its literals, symbolic list contents per path, and constant evaluation of the register table against the installed disassembler',
     note='operand types and register constants are what the disassembler defines; store instructions are its ids from STR to STRT',
     mechanism=[('CAPSInstruction.registers_used', 'architecture/capstone_instruction.py'), ('CAPSInstruction.registers_written', 'architecture/capstone_instruction.py'),
                ('CAPSInstruction.registers_read', 'architecture/capstone_instruction.py'), ('Instruction.storages_used', 'architecture/instruction.py'),
                ('Instruction.storages_written', 'architecture/instruction.py'), ('Instruction.storages_read', 'architecture/instruction.py')])
prop('C24', 'Pushes and pops are scored by their counterpart in the function',
     'Exactly pushes and pops get the push-pop score. It is the largest of: one over the number of candidates at the address, or instead the reward for equal '
     'registers; the reward for the end of a function; the reward for its middle. A pop looks for pushes at the first address of the current function, a push '
     'where a function starts for pops at the last one; only valid candidates count. One found gives the end reward; one with equal registers (everything '
     'popped was pushed or is PC, everything pushed is popped or is LR or SP) the reward for equal registers, whatever others are there. Such a push gets the '
     'middle reward only if the function has, behind the push, a valid pop and a valid branch after it. Other pushes get one over the number of candidates.',
     ['inputs'], 'all programs with ignored candidates, function tables and register lists',
     'no test looks at this score; it depends on several candidates at both ends and in the middle of a function',
     ['metadata/recuperator.py'],
     technique='case analysis of the final maximum under its path literals, counters of the searches recovered from loop summaries, register walks classified by their failing conditions',
     note='the rewards of the model are taken as positive; the middle is searched over cumulative counts, so the branch need not follow the pop directly',
     mechanism=[('ProbabilisticRecuperator._compute_push_pop', RC), ('ProbabilisticRecuperator._op_prob_and_check_equal_registers', RC)])
prop('C25', 'Reading a disassembly gives each code line once, in its function',
     'A text disassembly gives one instruction for every line that starts with a blank, in the order of the file, and none for other lines: its address is the '
     'hexadecimal number behind the first colon, its encoding the four bytes up to the next double blank in reverse order, whatever follows. Every header '
     'line starts a function named after it; an instruction belongs to the function of the last header, or to a first function before any header. An ELF '
     'disassembly gives one instruction for every line of its init, plt, text and fini sections, its two first fields being address and encoding in '
     'hexadecimal. Every line of the functions section gives the function at its address; an instruction belongs to the last function started at or '
     'before it, or to none. Reading functions, instructions or both gives the same.',
     ['inputs'], 'all files of such lines',
     'tests read two files and count the results; operands, comments, names and missing line ends differ between files',
     ['architecture/disassembler_readers.py'],
     technique='abstract interpretation of the string operations over line shapes (literal characters and fields with alphabets), every loop path classified per shape and section',
     note='line shapes are those of the two disassemblers; lines with fewer than two fields are left open',
     mechanism=[('TextDisassembleReader.read_instructions', 'architecture/disassembler_readers.py'), ('TextDisassembleReader.read_functions', 'architecture/disassembler_readers.py'),
                ('ElfioTextDisassembleReader.read', 'architecture/disassembler_readers.py')])
prop('C26', 'Programs change their form without losing order or instructions',
     'Turning a program from a dictionary into a list gives the candidate list of every address, in increasing address order, whatever the order of insertion. '
     'Turning a list of instructions into a dictionary gives every address the list that holds just its instruction. Turning functions into instructions gives '
     'every instruction of every function once, sorted by increasing address, and for the start address of each function the pair of its start and final '
     'address. A function starts at the address of its first instruction, is four bytes per instruction long and ends at the address of its last instruction; '
     'without instructions both are 0.',
     ['inputs'], 'all programs of distinct addresses, all lists of functions',
     'tests convert two files whose addresses are already ascending and of equal length',
     ['metadata/probabilistic_rules/rules.py', 'architecture/functions.py'],
     technique='content and order of the built collections recovered from loop summaries and sort keys; address arithmetic compared as polynomials',
     note='the instructions of a function are four bytes apart; functions without instructions may or may not have an entry',
     mechanism=[('from_instruction_dict_to_list', 'metadata/probabilistic_rules/rules.py'), ('from_instruction_list_to_dict', 'metadata/probabilistic_rules/rules.py'),
                ('from_functions_to_list_and_addr', 'metadata/probabilistic_rules/rules.py'), ('ElfFunction', 'architecture/functions.py')])
prop('C27', 'A solution is built by forward constraints, smallest address first',
     'A candidate complies with the counts when it is not ignored and its opcode, its condition and every register it uses have something left in the '
     'counts. Choosing a candidate lowers by one the count of its opcode, of its condition and of every storage it uses; choosing an ignored one lowers '
     'nothing. Filtering drops from every address but the current one exactly the candidates that do not comply. Every address is decided once, always '
     'the one with the fewest candidates left; addresses that are empty or whose original is ignored are passed over. For an address with several '
     'candidates the position of the original is given to the solution. With forward update the chosen candidate lowers the counts before '
     'the others are filtered. The enumerator multiplies the number of solutions by position plus one and reports its base 2 logarithm; '
     'the builder writes every position with as many bits as the number of candidates less one has, and its size is the sum of those. Counts and '
     'positions are those of the original program.',
     ['inputs', 'histories'], 'all programs and counts, all sequences of decisions',
     'tests build one solution; which candidates are dropped depends on all earlier decisions',
     ['solution/solution_builders.py'],
     technique='path classification of the decision, counter steps and list walks recovered from loop summaries, order of effects on every path',
     note='the last candidate of a list may or may not be examined; registers used and storages used are taken as the instruction reports them',
     mechanism=[('AbstractForwardConstraintSolutionBuilder', 'solution/solution_builders.py'), ('ForwardConstraintSolutionEnumerator', 'solution/solution_builders.py')])
prop('C28', 'The sum constraint accepts exactly the assignments that use up the counts',
     'For an assignment of candidates to addresses the values of every assigned candidate that is not ignored are counted, each once. The assignment is refused '
     'when a value has no limit or is counted more often than its limit, and, when no address is missing, when any limit is not met exactly; it is accepted '
     'otherwise, unless an address has no candidate left. Looking forward hides, once each and only in the addresses that are missing, the candidates that are not '
     'ignored and have a value that no longer fits, and all of them. The problem has one variable for every address with candidates, holding all of '
     'them, and one such constraint each for the conditions, the opcodes and the storages used.',
     ['inputs'], 'all limits, candidates, assignments, with and without looking forward',
     'tests solve one small problem; a candidate hidden wrongly only loses some of the solutions of some programs',
     ['solution/solution_builders.py'],
     technique='path literals evaluated on every combination of count and limit of one key (predicate abstraction); counters recovered from loop summaries',
     note='counts and limits are compared linearly, 0 to 4 of each decide; the solver of the constraint library is taken as it is',
     mechanism=[('ExactFieldSumConstraint.__call__', 'solution/solution_builders.py'), ('ProblemBuilder.build', 'solution/solution_builders.py')])
prop('C29', 'The code refers only to names, members and calls that exist',
     'Whatever path is executed, no operation fails because the code refers to something that is not there: every name is defined, every import from the '
     'project finds its target, every member used of the modules and classes of the project exists, attribute names exist somewhere at all, every call of the '
     'functions, methods and constructors of the project gives arguments that fit the parameters, every format string gets the values it takes, '
     'no local variable is read where nothing has given it a value, and an object has the attributes its methods look at once it is constructed (base '
     'classes included).',
     ['inputs', 'histories'], 'all paths through all modules outside the tests',
     'a broken reference fails only when its line is reached; many lines belong to error paths, scripts and rules no test runs',
     ['architecture/instruction.py', 'metadata/recuperator.py', 'solution/solution_builders.py', 'corruption/corruption.py'],
     technique='name, member and call resolution over all syntax trees with class hierarchies; definite assignment dataflow over variables and over what constructors assign',
     note='objects of unknown class are only checked for attribute names that nothing defines; a variable set on some paths is reported only when the conditions are independent; the darm library is not installed',
     mechanism=[('Instruction.__init__', 'architecture/instruction.py'), ('AbstractForwardConstraintSolutionBuilder.build', 'solution/solution_builders.py')])
prop('C30', 'Gaps, hidden candidates and empty counts never make scoring or figures fail',
     'Whatever addresses a program lacks and however many of its candidates are hidden, scoring, elimination, the figures of a solution and the '
     'recovery report never divide by a count that may be zero and never look up a computed neighbouring address that may not be in the program: '
     'an address without valid candidates, a program with gaps, an empty candidate list and a program without errors all give a defined result.',
     ['inputs', 'histories'], 'all programs, with gaps, hidden candidates, empty lists, and no errors at all',
     'tests score contiguous programs where every address keeps a valid candidate, so no divisor is ever zero and every neighbour exists',
     ['metadata/recuperator.py', 'metadata/probabilistic_rules/rules.py', 'metadata/probabilistic_rules/distance_rule.py', 'solution/solution_quality.py', '=recover_program.py'],
     technique='sweep of all divisions, logarithms, positions and address look-ups over symbolic paths; counts followed to the loops that make them',
     note='values stored in metadata tables and parameters used as divisors are the business of their makers (C11, C12) and left undecided',
     mechanism=[('every function with a division or an address look-up', SC + 'metadata/'), ('SolutionQuality.evaluate', SC + 'solution/solution_quality.py'), ('print_report', 'recover_program.py')])
prop('C31', 'The control flow graph has every instruction once and an edge per way of control',
     'For every list of instructions the control flow graph holds each defined instruction in exactly one block, ends a block at every branch and at every '
     'instruction that is jumped to, puts a conditional in front of instructions that are not always executed, and has the edge for every way control can go: '
     'into the next block (never after an unconditional branch, always after a call), around a conditional, to the instruction jumped to whether it is '
     'before or after the branch (through its conditional if it has one), and through an unknown node to the end when the target is not in the program. '
     'Splitting a block moves all its predecessors to the first half; removing the conditionals keeps what they connected.',
     ['inputs', 'programs'], 'all lists of instructions: all mixes of conditions, forward and backward jumps, calls, unknown targets, undefined instructions',
     'tests build two listings and count nodes and edges; which edges exist for another arrangement of jumps and conditions is never looked at',
     ['static_analysis/cfg.py', 'architecture/instruction.py'],
     technique='effects on the graph of every path of each building step, compared to the edges required and allowed under the facts of the path',
     note='each step is analysed with the other steps as opaque calls; flags changed between two instructions of the same condition are not followed',
     mechanism=[('ARMControlFlowGraph.build', SC + 'static_analysis/cfg.py'), ('ARMControlFlowGraph._branch_instruction', SC + 'static_analysis/cfg.py'), ('ARMControlFlowGraph._split_node', SC + 'static_analysis/cfg.py')])

prop('C32', 'The dominator tree gives every reachable block its immediate dominator',
     'For every control flow graph and root the dominator tree gives each block that can be reached from the root its immediate dominator (the closest block that is on every '
     'way from the root to it), lists it among the children of that block and has the edge between them in the tree that is returned; the root has no dominator and blocks that '
     'cannot be reached neither get one nor influence those of others, whatever the shape of the graph (loops, joins, branches into loops).',
     ['inputs', 'programs'], 'all graphs of blocks with a root: loops, irreducible regions, unreachable blocks',
     'the test compares one graph of the textbook; the deferred answers and the evaluation over several ancestors matter only on other shapes',
     ['static_analysis/dominators.py', 'static_analysis/cfg.py'],
     technique='the steps of the Lengauer-Tarjan algorithm as obligations on the effects of every path: search order, evaluation over ancestors, semidominators, buckets, deferred answers, children',
     note='the correctness of the algorithm itself is taken from the literature; an implementation of another algorithm is left undecided',
     mechanism=[('build_dominator_tree', SC + 'static_analysis/dominators.py'), ('dominator_eval', SC + 'static_analysis/dominators.py'), ('dominator_tree_dfs', SC + 'static_analysis/dominators.py')])

prop('C33', 'In SSA form every read takes the name of the definition that reaches it',
     'For every program the SSA form gives each storage an instruction writes a name that no other write or phi function has, and each storage it reads the name of the definition '
     'that reaches it on the way taken: its own block before the instruction, or the phi function at the block where definitions meet, which has the reaching name of every '
     'predecessor among its arguments. Every storage is covered, modelled or not; a phi function is removed only when its block overwrites the name before reading it. '
     'The dependency graph has exactly the edges from arguments to phi functions and from what an instruction reads to what it writes.',
     ['inputs', 'programs'], 'all programs and control flow graphs; all storages',
     'tests count phi functions and names for two listings; which definition reaches a read on another path is never compared',
     ['static_analysis/ssa.py'],
     technique='effect order and nesting: frontier walk, iterated placement, pushes and pops of names paired per nest, key and end, reads before writes, dead phi decided by path, edge per dependency',
     note='what an instruction reads and writes is taken from storages_read and storages_written (C23); dominators from C32',
     mechanism=[('SSAFormBuilder._rename_node', SC + 'static_analysis/ssa.py'), ('place_phi_nodes', SC + 'static_analysis/ssa.py'), ('build_dominance_frontier', SC + 'static_analysis/ssa.py'),
                ('SSAFormBuilder._new_name', SC + 'static_analysis/ssa.py')])

prop('C34', 'Files are closed and the standard output restored however a function ends',
     'Every file a function opens is closed when the function is left, whether it returns or any of its statements fails (a header that is missing, a listing that does not parse, a '
     'value that cannot be stored), and a function that sends the standard output somewhere else puts it back on every way out. Nothing written is lost in an open file and no failed '
     'report swallows the output of the rest of the process.',
     ['inputs', 'fault_sequences'], 'all ways out of all functions that open files or redirect the standard output, exceptions included',
     'tests read and write well formed files; the exits by exception are not taken, and an open file shows in no result',
     ['architecture/disassembler_readers.py', 'corruption/corruption.py', 'solution/solution_io.py', '=recover_program.py'],
     technique='typestate analysis of open files and of the standard output over all control flow including exceptions',
     note='every call, subscript and division may fail; a file kept in an object is left undecided; code of scripts outside functions is not analysed',
     mechanism=[('SolutionReader.read', SC + 'solution/solution_io.py'), ('save_corrupted_program_to_json', SC + 'corruption/corruption.py'), ('DisassembleReader._read_lines', SC + 'architecture/disassembler_readers.py'), ('print_report', 'recover_program.py')])

prop('C35', 'Arguments are left as they were and nothing is kept between calls',
     'Collecting metadata, storing and saving, the figures, the report, interleaving, predicting losses, converting between the forms of a program, and building the control flow graph '
     'leave the programs, packets and lists they are given with the same addresses, candidates and instructions (candidate lists may be put in another order; reassembling takes the bits out of the packets); '
     'scoring changes scores and which candidates are hidden, never the addresses, the candidate lists, the instructions or the counts of the collector. Constructors do not change their arguments, '
     'dominators and phi placement leave nodes and edges alone. No function keeps anything in default arguments, classes or modules that a later call finds (block numbers aside), and no loop takes elements out of what it goes through.',
     ['inputs', 'histories'], 'all functions; all histories of calls on shared programs, collectors and packets',
     'every test builds fresh programs and makes one call; what the call did to its arguments or left behind is not looked at',
     ['metadata/metadata_collector.py', 'metadata/probabilistic_rules/counting_rules.py', 'metadata/recuperator.py', 'solution/solution_io.py', 'solution/solution_quality.py', 'corruption/corruption.py', 'interleaver/interleaver2d.py', 'static_analysis/cfg.py'],
     technique='interprocedural alias and effect analysis: what each function may change of its arguments, of what its object was given, of defaults, classes and modules',
     note='lazily computed private attributes are not changes; objects kept in fields of objects made locally are not followed; corruptors, SSA renaming and the solution builder change their programs by design',
     mechanism=[('MetadataCollector.collect', SC + 'metadata/metadata_collector.py'), ('CountingRule._compute_remaining_candidate_probability', SC + 'metadata/probabilistic_rules/counting_rules.py'),
                ('SolutionWriter.write_binary', SC + 'solution/solution_io.py'), ('predict_corruption', SC + 'corruption/corruption.py')])

prop('C36', 'The report counts every corrupted address once, in the class it belongs to',
     'In the report every address with more than one candidate is one error and is counted as exactly one of: losing (the best scored candidate reads differently from the original), tied (it reads as the original, '
     'but the second best has the same score and reads differently) or recovered; addresses with one candidate are not counted. The counts start from zero and cover every address, the best candidate is the one of highest score, '
     'and the original looked at is the one of the same address. The ratio is recovered / errors (1 without errors), a depth is the number of candidates scored ahead of the original, counted once per corrupted address.',
     ['inputs'], 'all programs, all scores, all numbers of candidates per address (distinct encodings per address, which C16 keeps)',
     'no test runs the report',
     ['recover_program.py'],
     technique='loop summaries over symbolic candidates: the change of every printed figure per path, compared with the class the path conditions (equal texts, encodings, scores) allow',
     note='the comparison of scores rule by rule and the average of the ties are not decided; the texts are those of str(instruction)',
     mechanism=[('_print_report', 'recover_program.py')])

prop('C37', 'Probabilities of independent events are combined exactly',
     'The probability that all of a list of independent events happen is the product of their probabilities, every event taken once. The probability that at least one happens is the sum over every non-empty subset of the events, '
     'each subset once, of the product of the probabilities of the subset, added for subsets of odd size and taken off for those of even size; an empty list is refused with RuntimeError and no other. '
     'The uniform density between a and b is 1 / (b - a).',
     ['inputs'], 'all lists of probabilities of any length',
     'the one test unites three fixed events; the subsets of four and more, the empty list and the other two functions are not tried',
     ['probability/probabilities.py'],
     technique='loop summaries: product steps read off, the transition from each subset (a stack of ascending places) to the next compared with the successor in lexicographic order, sign by parity',
     note='exact arithmetic; rounding of floating point sums is not decided',
     mechanism=[('indep_events_union', SC + 'probability/probabilities.py'), ('indep_intersection', SC + 'probability/probabilities.py')])


prop('C38', 'Setting a field of an instruction leaves every other bit alone',
     'modify_cond, modify_opcode, modify_rn, modify_rd, modify_rs and modify_rm put the four low bits of the new value in bits 31 to 28, 24 to 21, 19 to 16, 15 to 12, 11 to 8 and 3 to 0 of a 32-bit instruction; '
     'modify_immediate puts the twelve low bits in bits 11 to 0 when bits 27 to 25 of the instruction are 010 (a load or store with an immediate offset) and the eight low bits in bits 7 to 0 of any other instruction. '
     'Every other bit of the result is the bit the instruction had, whatever the instruction and the value are, and no instruction is refused.',
     ['inputs'], 'all 32-bit instructions and all non-negative values',
     'no test in the baseline imports the module; 2^32 instructions times the values of a field cannot be tried',
     ['architecture/instruction_modifier.py'],
     technique='symbolic bit vectors: the term each path returns, compared bit by bit with the instruction given, for each value of the bits that decide the width',
     note='modify_register and modify_register_list, which need the darm library that is not in the tree, are not covered',
     mechanism=[('modify_cond', SC + 'architecture/instruction_modifier.py'), ('modify_immediate', SC + 'architecture/instruction_modifier.py')])
prop('C39', 'Frequencies count every part and the Huffman code built on them is prefix free',
     'Counting a program gives, for registers (registers_used), opcodes (opcode_field) and conditionals (conditional_field), a table of how many times each part is found in the instructions of the whole program, every use counted, '
     'and a table of the instructions that have each part, in program order and once each. The Huffman code of a table starts with every symbol, its weight and an empty code; merging takes two entries from the heap, puts different digits before all the codes '
     'of the one and all the codes of the other, and puts back all the symbols of both with the sum of their weights, until one entry is left, whose codes are all given: no code is the beginning of another. '
     'The size of a table is the sum, for every symbol, of its frequency times the length of its code, of the codes given or else of the code of the table.',
     ['inputs'], 'all programs, all frequency tables of two symbols or more',
     'no test of the module runs in the baseline; the trees depend on the whole table of frequencies',
     ['compressor/huffman.py'],
     technique='loop summaries: the writes to each table on every path, and the merge step read as the transition on two popped entries',
     note='that the heap gives the two lightest is taken from heapq; optimality of the code follows from it and is not otherwise decided',
     mechanism=[('InstructionPartFrequencyCounter.freq_info / count', SC + 'compressor/huffman.py'), ('encode / huffman_size', SC + 'compressor/huffman.py')])
prop('C40', 'Shift compression takes out every listed bit range and nothing else',
     'The shift compressor keeps all the ranges it is given, as (word, bit) pairs ordered by word and then by bit, the data and the size of a range. Compressing removes from the string of bits of all the data, for every range kept, '
     'the bits from word * 32 + bit up to that plus the size of a range; the ranges are removed from the last to the first, so that none has moved when it is removed. What is left, in its order, is the compressed buffer.',
     ['inputs'], 'all data, all lists of disjoint ranges in any order and all range sizes',
     'no test of the module exists; which bits are removed depends on the order of all the ranges',
     ['compressor/shiftcompressor.py'],
     technique='loop summary: places of the list walked and their direction, ends of the slice deleted on every path, sort key read as an order on (word, bit)',
     note='SwapCompressor, whose intended effect is not documented, is not covered; bit numbers are those of the bit string',
     mechanism=[('ShiftCompressor.compress', SC + 'compressor/shiftcompressor.py')])
prop('C41', 'The progress bar counts one step per call, keeps its width and closes once',
     'A progress bar starts with the count, total, width and printing distance it is given and nothing drawn. Each call of progress adds one to the count, until the count is within the printing distance of the total: then the count becomes the total, '
     'one full bar with 100 percent and one line feed is written, and nothing is written or changed by any later call. Before that a bar is drawn when none has been drawn or the percentage of the total has grown by the printing distance since the last one drawn, '
     'and not otherwise; the percentage drawn is remembered. Every bar written has exactly as many cells as the width the bar was made with.',
     ['inputs', 'histories'], 'all totals, widths and printing distances, all numbers of calls',
     'no test looks at what is written; when a bar is due depends on the whole history of the calls and on the four settings',
     ['report/print_progress.py'],
     technique='path enumeration: the facts of each path place it in a situation of the specification, its writes and the fields it leaves are compared as terms',
     note='the rounding of the number of filled cells and the text beside the bar are not decided',
     mechanism=[('TextProgressBar.progress', SC + 'report/print_progress.py')])
