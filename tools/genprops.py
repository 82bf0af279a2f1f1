#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
                     **({'observe_at':observe} if observe else {}), hook_needed=hook)))

p('C01','Article index follows every add/update history',
  "After any sequence of adding, updating and listing article records of a board, the listing holds exactly the records added, in the order they were added, each with the content of its latest update, whatever the length of the index. "
  "An update at a position that is not in the index fails and leaves the index file byte for byte as it was, and no operation changes a byte of any other record or of any other board.",
  ['histories','inputs'],
  "every history of add/update/list up to the stated depth over two boards, every index length up to the stated size, and every update position from 0 past the end, including positions whose byte offset overflows",
  "The tests append one record to a fresh file and update one fixed position; they never mix operations, never update past the end and never compare the untouched records.",
  ['pttbbs/file.go','pttbbs/pttbbs_write_article_connector.go','pttbbs/pttbss_append_new_line.go','bbs.go'],
  [('append one 128 byte record at the end','pttbbs/file.go AppendFileHeaderFileRecord'),('seek to index*128 and write one record','pttbbs/file.go UpdateFileHeaderFileRecord'),('read records until the end','pttbbs/file.go OpenFileHeaderFile')],
  ['bbs.DB.AddArticleRecordFileRecord','bbs.DB.ReadBoardArticleRecordsFile','Connector.UpdateArticleRecordFileRecord','bytes of .DIR'])

p('C02','Board list follows every add/remove history',
  "After any sequence of adding boards, removing boards by position and listing boards, the listing equals a plain list to which the same operations were applied: same boards, same order, all fields intact. "
  "Removing a position that is not in the list (negative or past the end) fails and leaves the board file byte for byte as it was.",
  ['histories','inputs'],
  "every add/remove/list history up to the stated depth, every list length up to the stated size and every position from below 0 to past the end",
  "The tests add one board, or remove one fixed board from one sample file; they try no sequences and no invalid positions.",
  ['pttbbs/board.go','pttbbs/pttbbs_write_board_connector.go','bbs.go'],
  [('append one 256 byte record','pttbbs/board.go AppendBoardHeaderFileRecord'),('shift the records behind the removed one and truncate','pttbbs/board.go RemoveBoardHeaderFileRecord')],
  ['bbs.DB.AddBoardRecord','bbs.DB.ReadBoardRecords','bytes of .BRD'])

p('C03','Article records are stored faithfully, edits stay isolated',
  "Every article record decodes to the values its 128 byte C layout holds (text fields end at the first NUL, the title is Big5), and writing a decoded record back preserves file name, time, score, owner, date, title, file mode and the money/vote-limit/anonymous-id word. "
  "Changing one attribute through the API changes only that attribute, text that fits its field survives unchanged while longer text never spills into a neighbouring field, an unset time is stored as 0, and adding to the score saturates at +100 and -100 instead of wrapping.",
  ['inputs'],
  "base records with every single byte position set to every one of 256 values, all pairs of fields at their extreme values, every text length from 0 past the field size, every (score, increment) pair",
  "The tests decode a few sample records and compare some fields; they never write a record back with its attributes and cannot cover every byte value at every offset.",
  ['pttbbs/file.go','pttbbs/encoding.go'],
  [('record decoder','pttbbs/file.go NewFileHeaderWithByte'),('record encoder','pttbbs/file.go FileHeader.MarshalToByte'),('score','pttbbs/file.go FileHeader.AddRecommend')],
  ['FileHeader accessors','bytes of the encoded record'])

p('C04','Board records and all their attributes are stored faithfully',
  "Every board record decodes to the values its 256 byte C layout holds, and encoding a decoded record reproduces every stored field, including class tree links, limits and times; an unset time is stored as 0. "
  "Each board attribute query answers true exactly when its own attribute bit is set, independent of the other 31 bits, and the moderator list is exactly the names separated by '/'. "
  "Text that fits its field survives unchanged and longer text never spills into a neighbouring field.",
  ['inputs'],
  "base records with every byte position set to all 256 values, all 2^32 attribute words decomposed into every single bit and pair of bits set or cleared, every text length from 0 past the field size",
  "The tests compare a handful of sample boards, in which most attribute bits and fields are never set.",
  ['pttbbs/board.go','pttbbs/encoding.go'],
  [('decoder','pttbbs/board.go UnmarshalBoardHeader'),('encoder','pttbbs/board.go BoardHeader.MarshalBinary'),('attribute queries','pttbbs/board.go Is* methods')],
  ['BoardHeader fields and methods','bytes of the encoded record'])

p('C05','User records are stored faithfully',
  "Every user record decodes to the values its 512 byte C layout holds, each account accessor reports its own field, and encoding a decoded record reproduces every stored field; an unset time is stored as 0. "
  "Reading a password file lists one user per 512 byte slot in slot order, whatever the number of slots.",
  ['inputs'],
  "base records with every byte position set to all 256 values, all pairs of fields at extreme values, every text length per field, files of every length up to the stated number of slots and around 2^15 and 2^16 slots",
  "The tests decode five sample users; fields such as role, game scores and times are zero or fixed there.",
  ['pttbbs/passwd.go','pttbbs/pttbbs.go'],
  [('decoder','pttbbs/passwd.go UnmarshalUserec'),('encoder','pttbbs/passwd.go Userec.MarshalBinary'),('file reader','pttbbs/passwd.go OpenUserecFile')],
  ['Userec fields and accessors','bytes of the encoded record','bbs.DB.ReadUserRecords'])

p('C06','Online user records are decoded and encoded per their C layout',
  "Every 3484 byte online-user record decodes to the values its C layout holds (identity, friend and reject lists, message slots, game scores, chat state, times), and encoding a decoded record reproduces every stored field at the same offset.",
  ['inputs'],
  "base records with every one of the 3484 byte positions set to several (quick) or all 256 (thorough) values, plus distinct values in all fields at once and every record count up to the stated size",
  "The only sample record has zeros in the whole game-score area, so swapped or shifted offsets decode to the same zeros.",
  ['pttbbs/userinfo.go'],
  [('decoder','pttbbs/userinfo.go UnmarshalUserInfo'),('encoder','pttbbs/userinfo.go UserInfoCache.MarshalBinary')],
  ['UserInfoCache fields','bytes of the encoded record'])

p('C07','Favorites keep order, nesting and ids; damaged files are errors',
  "Every favorites file decodes to the same tree of boards, lines and folders in the stored order and nesting, with folder and line ids numbered from 1 in each folder, and encoding that tree reproduces the file. "
  "Each favorite board reports the id of the board at its position in the board list, and an entry whose board does not exist is still listed, without an id. "
  "A truncated or otherwise malformed file yields an error, never a crash and never a wrong tree.",
  ['inputs'],
  "all favorite trees up to the stated number of items and nesting depth, every truncation of them, every single byte replaced, every board position from 0 past the end of the board list",
  "The tests parse two sample files; they have no malformed file, no dangling board and hardly any nesting.",
  ['pttbbs/fav.go','pttbbs/pttbbs.go'],
  [('recursive decoder','pttbbs/fav.go UnmarshalFavFolder'),('encoder','pttbbs/fav.go MarshalBinary methods'),('board id lookup','pttbbs/pttbbs.go appendBoardID')],
  ['bbs.DB.ReadUserFavoriteRecords','FavFile.MarshalBinary'])

p('C08','Login logs parse to exactly the attempts they record',
  "Every line of the recent-login and failed-login logs yields one entry with its time, host and, in the system-wide log, its user and whether it succeeded; entries come in file order and formatting a parsed failed-login entry gives the line back. "
  "A malformed or truncated line is reported as an error; it never crashes the program, ends the process or makes the remaining lines vanish silently.",
  ['inputs'],
  "all line shapes over the stated alphabet of users (2 to 12 characters), times (every month, day, hour, minute and second value), hosts and outcomes, every prefix of a valid line, every file of up to the stated number of lines, very long lines",
  "The tests parse a few well-formed sample lines.",
  ['pttbbs/bad_logins.go','pttbbs/login_recent.go'],
  [('failed-login line parser and formatter','pttbbs/bad_logins.go UnmarshalText, MarshalText'),('recent-login parser','pttbbs/login_recent.go NewLoginRecentRecord')],
  ['LoginAttempt','LoginRecentRecord'])

p('C09','Big5 and C-string conversion is total and lossless where possible',
  "Every character of the Big5 table in use, alone or next to any other, converts to its Unicode character and back to the same bytes (of two codes for one character, to the one in standard Big5), and all ASCII stays as it is. "
  "Text with characters that do not exist in Big5 loses only those characters (each is replaced), never what follows, and no input makes the conversion fail or panic. "
  "A C string is exactly the bytes before its first NUL, or all of them when there is none.",
  ['inputs'],
  "all one and two byte inputs (65792), all Unicode code points, all short concatenations over representatives of every character class, all NUL placements in short buffers",
  "The tests convert a few strings.",
  ['big5.go','cstr.go','pttbbs/encoding.go'],
  [('Big5 conversion','big5.go Utf8ToBig5, Big5ToUtf8'),('C strings','cstr.go CstrToBytes, CstrToString')],
  ['bbs.Utf8ToBig5','bbs.Big5ToUtf8','bbs.CstrToString','bbs.CstrToBytes'])

p('C10','Passwords verify exactly as traditional DES crypt does',
  "Hashing a password with a salt gives the traditional DES crypt result for every salt and password: the first 8 bytes up to a NUL decide, bit 7 is ignored. "
  "Verifying a user's password succeeds exactly when the stored hash is the crypt of that password under the stored hash's salt. "
  "A blank, truncated or damaged stored hash rejects every password with an error and never crashes.",
  ['inputs'],
  "all 4096 salts, all password lengths 0 to 300 and selected ones to 1 MB, every single password bit, all 64x13 positions of a damaged hash, all stored hashes of length 0 to 14",
  "The tests hash a few passwords; a wrong table entry for one salt or one S-box input is not reached by them.",
  ['crypt/bbscrypt.go','crypt/crypt.go','crypt/const.go','pttbbs/passwd.go'],
  [('DES crypt','crypt/crypt.go cFcrypt'),('verification','pttbbs/passwd.go VerifyPassword')],
  ['crypt.Fcrypt','Userec.VerifyPassword'])

p('C11','Article content and drafts follow every read/write history',
  "After any sequence of writing and appending article content and of writing, reading and deleting drafts, reading an article returns exactly the last written content followed by what was appended since, and reading a draft returns exactly the last written draft, or nothing when there is none. "
  "Writes replace the old content completely even when they are shorter, all byte values and sizes are preserved, and no operation affects another article, board, draft or user.",
  ['histories','inputs'],
  "every operation history up to the stated depth over two articles and three drafts with contents of different lengths, and a sweep of content sizes including 0 and values around buffer sizes",
  "The tests write one fixed content to one file.",
  ['pttbbs/pttbbs_write_article_connector.go','pttbbs/pttbss_append_new_line.go','pttbbs/draft.go','pttbbs/pttbbs.go','bbs.go'],
  [('replace content','WriteBoardArticleFile'),('append content','AppendBoardArticleFile'),('drafts','pttbbs/draft.go')],
  ['bbs.DB article and draft operations'])

p('C12','New article file names are unique and reserved',
  "Creating articles, by any number of concurrent callers and whatever the clock and the random numbers are, gives every caller a different file name of the form M.<time>.A.<3 hex digits>, reserves it with a new file, and never opens, truncates or overwrites an existing article. "
  "When the board directory cannot be written the call returns an error instead of never returning; with an incomplete description it is an error and makes no file. The new record, and its listing once it is added, carry the owner, date and title which were asked for.",
  ['schedules','inputs','fault_sequences'],
  "all interleavings of the stated callers up to the preemption bound, with the random source and clock forced to collide in every pattern of the stated length, and every pre-existing name",
  "The tests create a file name once; collisions have probability 1/4096 per second there and concurrency is absent.",
  ['pttbbs/pttbbs_write_article_connector.go','bbs.go'],
  [('exclusive creation and retry','CreateBoardArticleFilename, NewArticleRecordWithMap')],
  ['bbs.DB.CreateArticleRecord','directory listing'], hook='source transformation of a scratch copy routes os, time, math/rand and flock through the explorer')

p('C13','Concurrent changes of indexes and articles never lose or mix',
  "When several callers concurrently add and update article records, add and remove boards, or write and append article content, every acknowledged change is in the final file exactly as if the calls had run one after another in some order. "
  "No call fails because of another, and no schedule loses a record, tears one, duplicates one, misaligns the file, deadlocks, or leaves a lock behind; a listing taken meanwhile, of a file of whole records, shows each record as it was before or after one of the changes.",
  ['schedules'],
  "all interleavings, at every file operation, of every pair of the listed calls and selected triples up to the stated preemption bound",
  "The tests are single threaded.",
  ['filelock/filelock.go','pttbbs/file.go','pttbbs/board.go','pttbbs/pttbbs_write_article_connector.go','pttbbs/pttbss_append_new_line.go'],
  [('advisory file lock','filelock'),('append mode writes','AppendFileHeaderFileRecord, AppendBoardHeaderFileRecord')],
  ['final bytes of .DIR, .BRD and article files','call results'], hook='source transformation of a scratch copy routes file operations and locks through the explorer')

p('C14','A crash during a change never damages other records',
  "If the process dies at any point of adding, updating or removing a record, including in the middle of a write, every record that was acknowledged before and is not the target of the interrupted change is still listed, intact and in order, after restart. "
  "An interrupted addition is afterwards listed completely or not at all, and further additions after the restart are listed correctly.",
  ['crash_points','histories'],
  "every crash point of every operation of the listed histories, with every possible length of a torn write, followed by restart, listing and further additions",
  "The tests never interrupt an operation.",
  ['pttbbs/file.go','pttbbs/board.go'],
  [('torn records are ignored and dropped before the next append','pttbbs/file.go OpenFileHeaderFile, truncateTornRecord'),('removal shifts records forward before truncating','pttbbs/board.go RemoveBoardHeaderFileRecord')],
  ['listing after restart'], hook='source transformation of a scratch copy routes file operations through the explorer')

p('C15','I/O errors and short reads are reported, never invented data',
  "Whatever file operation fails or reads only part of what was asked for, an API call either returns the same result as without the fault or returns an error; it never returns invented, partial or misaligned data as success, never hangs, never ends the process, and never leaves a file open. "
  "A call that changes a file and reports success has made the change.",
  ['fault_sequences','inputs'],
  "every file operation of every API call failing with an error or, for reads and writes, being short by every length class; pairs of such faults up to the stated bound",
  "The tests run on a healthy file system.",
  ['pttbbs/file.go','pttbbs/board.go','pttbbs/passwd.go','pttbbs/userinfo.go','pttbbs/bad_logins.go','pttbbs/login_recent.go','pttbbs/fav.go','pttbbs/draft.go','formosabbs/file.go','bbs.go'],
  [('full record reads','io.ReadFull in the record readers'),('errors are returned','all connectors')],
  ['call results','open file count'], hook='source transformation of a scratch copy routes file operations through the fault injector')

p('C16','File paths follow the BBS layout and never collide',
  "For every user, board, draft, treasure path and file name the path is exactly the one of the PTT directory layout under the configured home, and different users, boards, drafts or files never share a path. "
  "An empty user or board id is an error, and computing a path never changes the caller's arguments.",
  ['inputs','configurations'],
  "all ids up to the stated length over an alphabet of letters, digits and punctuation, all treasure paths up to the stated depth, home paths given as plain path or file:// URL with or without parameters, slices with spare capacity",
  "The tests compare a few fixed paths.",
  ['pttbbs/path.go','pttbbs/pttbbs.go'],
  [('path rules','pttbbs/path.go'),('home from the data source name','pttbbs/pttbbs.go Open')],
  ['path functions','Connector path methods'])

p('C17','Comment lines are recognised exactly',
  "A line is reported as a comment exactly when it has an author, a colon and a trailing date and time, and then the author, the text between the colon and the time (spaces around it removed, colons and times inside it kept) and the time are returned unchanged. "
  "Removing ANSI colour sequences removes exactly the sequences and leaves all other characters, including Chinese text, in place; both are total on every input.",
  ['inputs'],
  "all lines composed from the stated fragments (markers, names, colons, texts, dates, times, addresses, ANSI codes) up to the stated number of fragments, all dates and times, all short strings over a critical alphabet",
  "The tests check five lines.",
  ['user_comment_record.go','ansi.go'],
  [('comment pattern','user_comment_record.go'),('ANSI pattern','ansi.go')],
  ['bbs.NewUserCommentRecord','bbs.FilterStringANSI'])

p('C18','User article and comment listings are complete and exact',
  "Listing a user's articles returns exactly the records owned by that user in all boards except ALLPOST, in board and index order; listing a user's comments returns exactly that user's comments in those boards with their floor number, board and article. "
  "A board without an index, a deleted board's blank slot, an article whose file is gone, a line of any length or other users' data never hide or change an entry.",
  ['inputs','configurations'],
  "all small worlds of up to three boards (including ALLPOST, blank slots, missing index or article files), owners and comment patterns from the stated alphabet",
  "The tests run on one sample home with one board.",
  ['bbs.go'],
  [('article aggregation','bbs.go GetUserArticleRecordFile'),('comment aggregation','bbs.go GetUserCommentRecordFile, GetBoardUserCommentRecord, GetBoardArticleCommentRecords')],
  ['bbs.DB.GetUserArticleRecordFile','bbs.DB.GetUserCommentRecordFile'])

p('C19','Open databases are independent of each other',
  "Every opened database keeps using the home it was opened with, whatever other databases are opened, used or fail to open before or after, and concurrently. "
  "Opening an unregistered driver is an error; a registered driver is found under exactly its name, the latest registration wins, and registering and opening concurrently is safe.",
  ['histories','schedules'],
  "every history of register/open/read/write over three homes and three driver names up to the stated depth, all pairs of concurrent register and open calls, a free-running race-detector run of the same bodies",
  "The tests open one database per process.",
  ['bbs.go','pttbbs/pttbbs.go'],
  [('driver registry','bbs.go Register, Open'),('one connector per database','pttbbs/pttbbs.go NewConnector')],
  ['bbs.Open','bbs.DB operations'])

p('C20','Shared memory and mapped files are coherent between all users',
  "After any sequence of creating, opening, writing, closing and removing mapped files and shared-memory segments, every open handle of the same object sees every byte written through any of them, has the object's size, and objects never affect each other. "
  "Contents survive closing and reopening, opening an object that does not exist is an error, and connection strings select exactly the named key or file.",
  ['histories','configurations'],
  "every operation history up to the stated depth over two files and two keys with up to three handles each, and all connection string forms over the stated alphabet",
  "The tests create, write and reopen one object.",
  ['cache/mmap.go','cache/systemvshm.go','cache/cache.go'],
  [('mapped files','cache/mmap.go'),('System V segments','cache/systemvshm.go'),('connection strings','cache/cache.go NewCache')],
  ['cache.Cache.Bytes','file contents'])

p('C21','Shared-memory values are read at their C layout for every setting',
  "For every configuration of user count, id length, hash size, cooldown option and alignment, version, user ids, money and online-user records read from the shared memory are exactly the values stored at the corresponding C structure offsets, for every valid user index.",
  ['configurations','inputs'],
  "all combinations of the stated settings, every user index, a distinct value in every field of the segment",
  "The only test reads the version number.",
  ['pttbbs/cache.go'],
  [('offset computation','pttbbs/cache.go caculatePos'),('accessors','pttbbs/cache.go Version, UserID, Money, UserInfo')],
  ['pttbbs.Cache accessors'])

p('C22','The HTTP sample grants tokens only for the right password',
  "The token endpoint returns an access token exactly when the named user exists and the password is that user's; the token is signed, names that user and expires in the future, a refused request gets an error, and no other request gets a token. "
  "User information returns exactly the stored data of the named user and no request, in any order, crashes the server or changes the answers to later requests.",
  ['inputs','histories'],
  "all (user, password) pairs over the stated users, near-miss names and passwords, blank slots and damaged hashes; all methods and paths of the stated alphabet; all request sequences up to the stated depth against a running server",
  "The tests call two handlers with one request each.",
  ['serverlet/main.go','serverlet/route_token.go','serverlet/route_users.go'],
  [('password check before the token','serverlet/route_token.go postToken'),('user lookup','serverlet/route_token.go findUserecByID')],
  ['HTTP responses'])

p('C23','What bbstool adds is what bbstool shows',
  "After any sequence of bbstool runs that add boards and articles, the listing commands show exactly the boards, articles, contents and users of the home in order, with every character of titles and contents kept. "
  "A command with missing arguments or an unusable home prints a message and changes nothing; a command which cannot make its change does not report it as made; no command crashes for lack of data.",
  ['histories','inputs'],
  "all command histories up to the stated depth over the stated argument alphabet (ASCII, Chinese, option-like and unusual values) run as separate processes on a scratch home",
  "The command has no tests.",
  ['cmd/bbstool/main.go','cmd/bbstool/articles.go'],
  [('argument parsing','cmd/bbstool parseArgsToMap'),('commands','cmd/bbstool')],
  ['standard output','files of the home'])

p('C24','FormosaBBS article indexes are decoded per their C layout',
  "Every 248 byte FormosaBBS article record decodes to the values its layout holds (file name, post number, owner, time, Big5 title; text ends at the first NUL), and a file lists one record per complete 248 byte slot, in order, whatever their number.",
  ['inputs'],
  "base records with every byte position set to all 256 values, every text length per field, files of every length up to the stated number of slots and every torn tail length",
  "The tests decode one sample file.",
  ['formosabbs/file.go'],
  [('decoder','formosabbs/file.go NewFomosaBBSFileHeaderWithByte'),('file reader','formosabbs/file.go OpenFormosaBBSFileHeaderFile')],
  ['formosabbs FileHeader fields'])

p('C25','Seeded FNV-1a hashes follow the algorithm for any chunking',
  "The 32 bit hash equals FNV-1a started from the given seed for every input, whether it is written at once or in any split into pieces; reset returns to the seed, reading the sum changes nothing, and sums are appended big-endian.",
  ['inputs','histories'],
  "all inputs up to 2 bytes, every byte at every position of longer inputs, all splits of short inputs, all write/sum/reset histories up to the stated depth, a set of seeds including 0 and the extremes",
  "The tests hash three short strings.",
  ['pttbbs/internal/fnv/fnv.go'],
  [('hash state','pttbbs/internal/fnv')],
  ['hash.Hash32'])

p('C26','User settings are read from exactly their own flag bits',
  "For every 32 bit flag word of a user, each setting (DBCS awareness, highlight, banners, mod mark, mail, login, menu and cursor settings) is on exactly when its own bit of uflags.h is set, whatever the other bits, the rest of the record or the driver of the record. "
  "Settings are those of the user with exactly the asked id, wherever it stands in the list; an id which is not in the list is an error.",
  ['inputs'],
  "all combinations of the setting bits with the other bits clear, set and mixed, all triples of bits and their complements (thorough: every value of the lower 26 bits), all user lists up to the stated length and all asked ids of a list",
  "The tests read a few settings of two users.",
  ['pttbbs/usersettings.go','pttbbs/passwd.go'],
  [('flag bits','pttbbs/usersettings.go'),('flag word of a user','pttbbs/passwd.go UserFlag')],
  ['user settings','Userec.UserFlag'])

p('C27','Database calls reach the driver faithfully, errors and gaps included',
  "For every driver, whatever optional interfaces it has and whichever of its methods fail, a database call passes its arguments unchanged and in order, returns exactly what the driver returned, reports every failure of the driver, makes each change exactly once and makes none after a failure. "
  "A call the driver does not support is an error, never a crash, and changes nothing. A board without an article index has no articles; an article which is gone has no comments.",
  ['inputs','faults','histories'],
  "every database method with every set of optional interfaces, every assignment of an answer (right, error, missing file, empty) to every driver method, all argument tuples of the stated values, all sequences of calls up to the stated depth",
  "The tests use one driver whose methods do not fail.",
  ['bbs.go','user_draft.go'],
  [('facade','bbs.go DB'),('optional interfaces','bbs.go WriteBoardConnector, WriteArticleConnector, UserArticleConnector, UserCommentConnector, UserDraftConnector')],
  ['results of DB methods','calls of the driver'])

p('C28','Reading changes nothing stored, and results belong to the reader',
  "Reading, listing, decoding, encoding or making a path leaves the stored data exactly as it is (contents, names, modes, times; nothing is created) and needs no permission to write; arguments come back unchanged. "
  "What a call gives depends only on what is stored now: not on what was read, changed or failed before (also when a file is changed within one tick of the clock), nor on what callers did to earlier results, arguments or buffers. Earlier results never change later. Exempt: drafts keep the slice they are made of, and mapped memory is opened for writing.",
  ['histories','inputs'],
  "all sequences of two readings, a reading, a change and any reading, and a reading, two changes and the same reading (thorough: also three readings or changes) of the stated calls and changes over the stated homes, with results kept, overwritten or moved; all decoders over the stated inputs",
  "The tests read each file once and look at one result.",
  ['bbs.go','pttbbs','formosabbs','cstr.go','cache'],
  [('readers','bbs.go DB, pttbbs/pttbbs.go'),('decoders','pttbbs Unmarshal*, NewFileHeaderWithByte')],
  ['files of the home','results of all reading calls'])

p('C29','Calls may be made from several goroutines at once',
  "Any two calls of the library (conversions, parsers, decoders and encoders, password checks, paths, looking at a shared record, reading a shared database or memory, changing different files) may run at the same time, also as the very first calls of a process: there is no data race, deadlock or crash, and each gives what it gives alone.",
  ['schedules'],
  "every pair of the stated calls (thorough: every triple of those without files), each in a fresh process, with every schedule up to the stated number of preemptions at file, lock and shared-variable operations, under the race detector",
  "The tests call one function at a time.",
  ['bbs.go','big5.go','ansi.go','cstr.go','user_comment_record.go','pttbbs','crypt','cache','formosabbs'],
  [('conversions','big5.go, ansi.go, cstr.go'),('password hash','crypt'),('records','pttbbs'),('readers','pttbbs/pttbbs.go')],
  ['results','data races'])

p('C30','Requests at the same time are answered as they are alone',
  "The server answers requests which arrive at the same time exactly as it answers each of them alone: a token names the user whose password was given, information is that of the asked user, a refused request stays refused; there is no data race, deadlock or crash, also when they are the very first requests.",
  ['schedules'],
  "every pair of the stated requests (thorough: every triple, and every pair after each other request), each group to a fresh server, with every schedule up to the stated number of preemptions at clock, file, lock and shared-variable operations, under the race detector",
  "The tests call a handler with one request at a time.",
  ['serverlet/main.go','serverlet/route_token.go','serverlet/route_users.go','serverlet/route_boards.go'],
  [('handlers','serverlet routeToken, routeUsers, routeBoards'),('users and boards loaded at start','serverlet/main.go')],
  ['HTTP answers','data races'])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w',encoding='utf-8') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
