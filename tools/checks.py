t('C02',MC,'stateless exploration of all board add/remove histories of the real code against a list model',
  'every history up to the depth in the evidence, every list length and position in range; removal goes through pttbbs.RemoveBoardHeaderFileRecord because DB.RemoveBoardRecord is not implemented; trusts the list model and the reference layout')
t('C03',EX,'exhaustive bounded enumeration of records and attribute edits through the real codec against a reference layout',
  'all values of every byte and 16 bit word, all pairs of fields, all text lengths and characters, all score additions; not every combination of more than two fields')
t('C04',EX,'exhaustive bounded enumeration of board records and attribute bits through the real codec against a reference layout',
  'all values of every byte and 16 bit word, all pairs of fields, each of the 32 attribute bits alone and in pairs; not every combination of more than two fields')
t('C05',EX,'exhaustive bounded enumeration of user records and file lengths through the real codec against a reference layout',
  'all values of every byte and 16 bit word, all pairs of fields, all slot counts in range; not every combination of more than two fields')
t('C06',EX,'exhaustive bounded enumeration of online-user records through the real codec against a reference layout',
  'all values of every byte, all pairs of fields within the bounds in the evidence; not every combination of more than two fields')
t('C23',EX,'exhaustive enumeration of command histories of the tool built from the tree, as separate processes, with all listings and files compared with a model after each run; all Big5 characters; all subsets of arguments',
  'histories up to the depth in the evidence; values are texts of Big5 characters that fit their fields')
t('C24',EX,'exhaustive bounded enumeration of FormosaBBS records and file lengths through the real decoder against a reference layout',
  'all values of every byte, all pairs of fields, every file length in range')
t('C07',EX,'exhaustive bounded enumeration of favorites trees, truncations and byte changes of the real parser and encoder against a reference parser',
  'every tree up to the number of items in the evidence, every truncation and every byte value of small trees; larger files only with regular contents')
t('C08',EX,'exhaustive bounded enumeration of log lines, truncations, byte changes and files through the real parsers against a reference grammar',
  'every day of 2000..2037, every second of a day, every byte value and truncation of the base lines; lines in the grey zone of lenient parsers may go either way')
t('C09',EX,'exhaustive enumeration of all one and two byte inputs, all code points and bounded concatenations through the real conversions against the code table',
  'the table itself is the one of golang.org/x/text; quick checks every 97th neighbour of each character, thorough all pairs')

t('C10',EX,'exhaustive bounded enumeration of salts, passwords and damaged hashes through the real crypt against an independent DES crypt',
  'all 4096 salts, all values of every password byte, all truncations and byte changes of stored hashes; not every combination of password bytes')
t('C11',MC,'stateless exploration of all operation sequences on articles and drafts of the real code against a file model',
  'every sequence up to the depth in the evidence over small sets of contents, articles, boards and drafts; sizes around buffer limits; no concurrency (C13) and no faults (C14, C15)')
t('C16',EX,'exhaustive bounded enumeration of ids, names and their pairs through the real path functions against the directory layout',
  'all ids of the listed shapes and all single characters at every position; ids which contain path separators are outside')
t('C17',EX,'exhaustive enumeration of token sequences, times, characters and colour sequences through the real parser against a hand written scanner',
  'every token sequence up to the length in the evidence; lines in the grey zone (authors glued to digits, impossible dates, text after the time) may go either way')
t('C18',EX,'exhaustive bounded enumeration of homes (board lists, indexes, article lines) and of histories of changes through the real listings against a reference listing',
  'every list of boards, records and lines up to the depths in the evidence over the listed kinds, every line length in range; ids which differ in case only are outside')
t('C25',EX,'exhaustive enumeration of inputs, seeds, splits and operation histories through the real hash against the definition of FNV-1a',
  'all inputs of two bytes (three for two seeds), all splits of inputs up to the length in the evidence; thorough runs all 2^32 seeds; the hash is reached through a package laid over the tree')
t('C20',MC,'stateless exploration of all operation histories on mapped files and segments of the real code against a model, with independent looks by raw system calls and another process',
  'every history up to the depth in the evidence over two objects; all sizes around pages; every key bit; operations are not interleaved at the level of instructions')
t('C21',EX,'exhaustive enumeration of memory settings and user indexes through the real reader against images laid out as the C structure',
  'all settings in the ranges in the evidence; indexes out of range are outside; decoding of an online-user record is C06')
t('C22',EX,'exhaustive enumeration of users, passwords, names, stored values and all sequences of three request kinds against the server built from the tree',
  'every user with every password of the list, every sequence of three of the request kinds in the evidence; requests run one after another except in the last section; network faults are outside')
t('C12',MC,'stateless exploration of all interleavings of the real callers at every file, clock, random and lock operation, for all answers of clock and random numbers of small sets',
  'up to three callers, names that collide up to the number of times in the evidence; operations of the operating system are atomic; clock answers of a small set')
t('C13',MC,'stateless exploration of all interleavings of the real callers (sleep sets, or a preemption bound where the evidence says so) against all orders of the calls',
  'two and three callers as threads of one process and as separate processes, every file and lock operation is a scheduling point; operations of the operating system are atomic; power loss is outside')
t('C14',MC,'exhaustive enumeration of all crash points of all short histories of the real code, including inside every write after every number of bytes, followed by a restart and the rest of the history, against a list model',
  'the process dies and the system does not (what was written stays); one to three crashes per history; classes of numbers of bytes where histories have more than one crash')
t('C15',FE,'exhaustive enumeration of faults: every operation of every call of the real code failing or done partly, all combinations of up to the number of faults in the evidence, against the result without a fault',
  'errors and part lengths of the listed classes; ENOENT and EEXIST are answers, not faults; what a failed change may have done to its target is what a crash may do; the two command line programs are reached only through the library')
t('C19',MC,'stateless exploration of all histories of registering, opening and using databases and of all interleavings (preemption bounded) of concurrent registering, opening and calls of the real code, under the race detector, against a model of the registry',
  'histories and preemptions up to the bounds in the evidence; a third party driver of which all databases share one connector is outside')
t('C26',EX,'exhaustive enumeration of flag words, user lists and asked ids through the real code against the bits of uflags.h',
  'all combinations of the setting bits, all lists up to the length in the evidence; thorough all values of the lower 26 bits; the settings are reached through a file laid over the package, without which only the flag word and the names of the bits are checked')
t('C27',MC,'stateless exploration of all answers of a driver (right, failing, missing, empty) to every call of the real facade, for all sets of optional interfaces and all sequences of calls, against a reference of the facade',
  'answers are fixed per driver method within a call (or per board or article); how often and in which order the driver is asked is left open; values are functions of the arguments')
t('C28',EX,'exhaustive enumeration of all short histories of reading calls and changes on the real code, each result compared with that of the call alone on the same files, all files compared before and after each reading',
  'the forms of histories, calls, changes and homes in the evidence; changes by other programs keep size and times; results are overwritten through exported fields, setters and slices')
t('C29',MC,'stateless exploration of all schedules (preemption bounded) of every pair of calls in fresh processes under the race detector, results compared with those alone',
  'preemptions up to the bound in the evidence; a data race is seen when both accesses take place in a schedule; pools and system calls of the standard library are kept from ordering accesses; triples only in the thorough tier and only of calls without files')
t('C30',MC,'stateless exploration of all schedules (preemption bounded) of every pair of requests to the handler of a fresh server built from the tree, under the race detector, answers compared with those alone',
  'the handler is called without the network; preemptions up to the bound in the evidence; a data race is seen when both accesses take place in a schedule')
