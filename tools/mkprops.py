#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":mechanism,"where":", ".join(files)}]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Adding an article extends the board's list and preserves all of it",
 "After any history of successful operations on a board, reading its article list returns exactly the entries that were added, in the order they were added, each with the file name, owner, date and title it was added with (as far as the fixed-width fields hold them) and with recommend count, modification time, money and file mode unchanged. "
 "Adding an entry leaves every byte already in the list file as it was and extends the file by exactly one whole entry; an add that reports an error leaves the list as it was. "
 "A board that has no list yet reads as an empty list.",
 ["inputs","histories"],
 "every sequence of add / read operations on any boards, of any length, with any text in the fields (empty, exactly full width, too long, double-byte, control bytes) and any pre-existing well-formed list",
 "The tests append one or two fixed records to a temporary file and compare them; they never build long histories, never use boundary lengths, multi-page lists, other writers' records, or check that older entries stay as they were.",
 ["bbs.go","pttbbs/file.go","pttbbs/pttbbs_write_article_connector.go","pttbbs/pttbbs.go"],
 "DB.AddArticleRecordFileRecord -> AppendFileHeaderFileRecord opens the list for append and writes one 128-byte encoding; DB.ReadBoardArticleRecordsFile -> OpenFileHeaderFile decodes the file entry by entry.",
 [("article list","sequence of fixed-width entries of one board, as stored in boards/<x>/<board>/.DIR")])

p("C02","Updating an article entry changes that entry and nothing else",
 "Updating the entry at a position replaces exactly that entry: a later read returns the new values at that position, every other entry and the number of entries are unchanged, and every attribute of the entry that the caller did not change after reading it (recommend count, modification time, money or vote limits, file mode) keeps its value. "
 "Updating a position at or beyond the number of entries, or on a board that has no list, reports an error and changes nothing.",
 ["inputs","histories"],
 "every list content (including lists written by other programs of the same BBS), every position from 0 up to the largest unsigned integer, every edit of the entry, in every interleaved history with additions",
 "The tests update one position of a short list with a freshly built record; no test updates at the end, beyond the end, at overflowing positions, or re-writes an entry that carries money, vote limits or file-mode flags.",
 ["pttbbs/file.go","pttbbs/pttbss_append_new_line.go","pttbbs/pttbbs_write_article_connector.go"],
 "Connector.UpdateArticleRecordFileRecord -> UpdateFileHeaderFileRecord seeks to position*128 and writes one encoded entry.",
 [("article list","sequence of fixed-width entries of one board")])

p("C03","Concurrent list operations lose, tear or corrupt nothing",
 "When several threads or processes add articles, add boards, update different entries and read the lists at the same time, every addition that reported success appears exactly once and complete, each update takes effect on its own entry only, and entries present before are never lost or altered by others. "
 "Every concurrent read returns only whole entries that were present at some point between its start and its end, in list order, and includes every entry whose addition finished before the read started.",
 ["schedules"],
 "every interleaving, at the granularity of the operating-system calls the library makes, of two or three concurrent clients doing additions, updates of distinct entries, and reads (article lists and board list)",
 "All tests are single threaded; nothing in the suite runs two writers or a reader during a write, so a non-atomic append or a read-whole/write-whole update would pass.",
 ["pttbbs/file.go","pttbbs/board.go","bbs.go"],
 "One O_APPEND write of one whole record per addition, one in-place write of one record per update; no read-modify-write of the file.",
 [("list file","shared sequence of records"),("in-flight operation","per client: the system calls still to come")])

p("C04","A newly created article name is fresh, reserved and never shared",
 "Creating an article on a board returns a file name (M.<seconds>.A.<three hexadecimal digits>) under which no article existed before, reserves it by creating an empty (or freshly headed) article file in that board, and never hands the same name to two callers, however many create at the same moment. "
 "No existing article is ever opened for writing, truncated or altered by a creation, even if every name tried first is taken; a name is never reported without its file having been reserved. "
 "When the article cannot be created at all (the board's directory is missing or not writable) the call reports an error instead of retrying forever.",
 ["schedules","inputs","histories"],
 "every set of already existing article names (including all names of the current second taken), every interleaving of concurrent creations by several threads, every state of the board's directory",
 "The one test creates a single name in an existing, nearly empty directory; it cannot see a lost race, a collision, or the behaviour when the directory is absent.",
 ["pttbbs/pttbbs_write_article_connector.go","bbs.go"],
 "CreateBoardArticleFilename / NewArticleRecordWithMap loop: random name, open with O_CREATE|O_EXCL, retry on collision.",
 [("board directory","set of article names in use")])

p("C05","Writing an article replaces its content; appending only adds to it",
 "After an article has been written with some content, reading it returns exactly that content, whatever it held before and whatever its previous length. "
 "Appending to an existing article leaves the earlier bytes in place and adds exactly the given bytes at the end, also when several clients append at once (each successful append appears exactly once, contiguous, and nothing is overwritten); appending to an article that does not exist reports an error and creates nothing.",
 ["inputs","histories","schedules"],
 "every history of write, append and read over any articles with contents of any size (empty, shorter than before, megabytes, arbitrary bytes), and every system-call interleaving of concurrent appends",
 "The tests write once into a fresh file and append once; they never rewrite with a shorter text, append concurrently, or handle large or binary content.",
 ["pttbbs/pttbbs_write_article_connector.go","pttbbs/pttbss_append_new_line.go","pttbbs/pttbbs.go","bbs.go"],
 "WriteBoardArticleFile truncates and writes; AppendBoardArticleFile opens O_APPEND without O_CREATE and writes once; ReadBoardArticleFile reads the whole file.",
 [("article content","byte string per (board, file name)")])

p("C06","Board list additions and removals act on exactly one board",
 "Adding a board extends the board list by exactly one entry at the end, with the name, title and other attributes it was given, and leaves all earlier entries unchanged byte for byte. "
 "Removing the board at a position deletes exactly that entry, keeps every other entry byte for byte and in order, and shrinks the list by one; removing at a position outside the list reports an error and changes nothing.",
 ["inputs","histories"],
 "every history of additions, removals and reads on board lists of any length, any position (negative, last, one past the end, huge), any attribute values and text",
 "The tests remove from one three-board sample file and append one record to it; they do not cover ends of the list, positions outside it, empty lists or mixed histories.",
 ["pttbbs/board.go","pttbbs/pttbbs_write_board_connector.go","bbs.go"],
 "AppendBoardHeaderFileRecord appends one 256-byte encoding; RemoveBoardHeaderFileRecord copies the tail down and truncates.",
 [("board list","sequence of 256-byte entries in .BRD")])

p("C07","A user's draft reads back as last written until it is deleted",
 "Reading a user's draft slot returns exactly the bytes most recently written to that slot, and empty content if the slot was never written or has been deleted. "
 "Writing replaces the whole previous draft whatever its length, deleting removes only that slot, deleting a draft that does not exist reports an error, and a draft that exists but cannot be read reports an error rather than appearing empty.",
 ["inputs","histories","fault_sequences"],
 "every history of write, read and delete over several users and slots, any content and length, and failures of the underlying file operations",
 "There is no test of drafts at all.",
 ["bbs.go","pttbbs/draft.go","pttbbs/path.go"],
 "GetUserDraftPath maps (user, slot) to home/<x>/<user>/buf.<slot>; Stat/ReadFile, WriteFile and Remove on it.",
 [("drafts","map from (user, slot) to content")])

p("C08","Operations stay inside the home, board, user and handle they name",
 "An operation on one board, user, draft slot, treasure directory or BBS home reads and writes only the file that the BBS directory convention assigns to it, so it never changes or returns what belongs to another one (names that differ only in letter case or share a prefix included). "
 "Handles opened on different homes work independently: each keeps using the home it was opened with, however many others are opened later, and a failed open affects no existing handle. "
 "Arguments passed by the caller (names, path lists and the spare capacity behind them, contents, records) are never modified.",
 ["inputs","histories","configurations"],
 "every set of homes, boards, users, treasure paths (any depth) and handles, every history of operations over them, every way of writing the data source name",
 "Path tests compare a few fixed strings; every test opens one handle with one home, so cross-talk between handles, boards or users is never observable.",
 ["bbs.go","pttbbs/path.go","pttbbs/pttbbs.go"],
 "path.go's path functions and the per-handle connector created by bbs.Open.",
 [("handle","the home a DB was opened with"),("tree","files of several homes")])

p("C09","Comments of an article are extracted completely and exactly",
 "Reading the comments of an article returns one record for every line that is a comment (after terminal colour codes are removed), in order, numbered 1, 2, 3 ... without gaps, with the commenter, the month/day hour:minute stamp and the text between them, the board and the article's file name; other lines produce nothing. "
 "The comment's text is exactly what stands between the commenter's colon and the final time stamp, without surrounding blanks, whatever it contains. "
 "No comment is silently dropped: an article that cannot be processed to the end reports an error.",
 ["inputs"],
 "every article content: any mix of comment and ordinary lines, colour codes anywhere, colons, links, other time stamps or look-alike names in the text, impossible dates, lines of any length, any bytes and line ends",
 "A handful of single lines are parsed in the tests; none contains several colons or times, colour codes inside comments, over-long lines, or checks the numbering over a whole article.",
 ["user_comment_record.go","ansi.go","bbs.go"],
 "GetBoardArticleCommentRecords scans lines, strips ANSI codes, matches the comment pattern, counts floors; parseUserComment cuts owner, time and text.",
 [("article content","lines of the article")])

p("C10","A user's article and comment listings cover every board exactly",
 "Listing a user's articles returns exactly one item for every entry, on every board of the board list except ALLPOST, whose owner equals the user id exactly, in board order and list order, each naming its board, title, owner and file name; a board that has no article list contributes nothing. "
 "Listing a user's comments (on one board or on all boards except ALLPOST) likewise returns exactly the comments by that user on the listed articles, in order; an error in reading any of them is reported, not swallowed.",
 ["inputs","histories"],
 "every population of boards, article lists and comments, every user id (including prefixes, different letter case, deleted owners), and boards without article lists",
 "The tests run the listing against a mock connector with one or two records; matching, ordering, exclusion and missing boards are not explored.",
 ["bbs.go","user_article_record.go","user_comment_record.go"],
 "GetUserArticleRecordFile, GetUserCommentRecordFile, GetBoardUserCommentRecord iterate the board list and filter by exact owner.",
 [("boards","board list, article lists and article contents")])

p("C11","A user's favourites are read as the tree that is stored",
 "Reading a user's favourites returns the stored tree: the same items in the same order at every level (boards, separator lines, folders with their titles and nested contents), each board item naming the board at its recorded number in the board list. "
 "A user without a favourites file has an empty list; a board number that is not in the board list yields an item without a board name, not a failure; and writing a favourites tree back out and reading it again yields the same tree and the same bytes.",
 ["inputs"],
 "every favourites tree (any width, depth and order of item kinds, empty folders, several sibling folders with contents, any titles, times and attributes) against every board list, and every truncated file",
 "Two sample files are parsed in the tests; sibling folders with nested contents in varying order, invalid board numbers and truncated files are not covered.",
 ["pttbbs/fav.go","pttbbs/pttbbs.go","bbs.go"],
 "UnmarshalFavFolder reads all items of a level and then the sub-folders in item order; appendBoardID resolves board numbers; MarshalBinary is the inverse.",
 [("favourites file","header, items and nested folders"),("board list","numbers to names")])

p("C12","Article and board records keep the BBS's binary format exactly",
 "Decoding an article entry or board entry returns for every field the value that the BBS's own record layout (offsets, widths, little-endian numbers, NUL-terminated Big5 text) assigns to those bytes, and ignores bytes after a text's terminating NUL. "
 "The yes/no settings asked of a board or of an article are those whose bit is set in the attribute field of its entry, each for itself, whatever the other bits are. "
 "Encoding a record produces the bytes of that layout, with all padding zero and over-long text cut to its field without touching the neighbouring fields; decoding what was encoded returns the same values in every field.",
 ["inputs"],
 "every byte pattern of an entry, every value of every field (extreme numbers and times, empty, full-width and over-long ASCII and Big5 text)",
 "The tests decode and re-encode a few sample records whose rarely used fields are zero; a wrong offset, width, sign or a dropped field that is zero in the samples passes.",
 ["pttbbs/file.go","pttbbs/board.go","pttbbs/const.go","pttbbs/encoding.go","formosabbs/file.go","cstr.go","big5.go"],
 "PosOf... offset constants and the NewFileHeaderWithByte / MarshalToByte / UnmarshalBoardHeader / MarshalBinary / NewFomosaBBSFileHeaderWithByte codecs.",
 [("record","fields at fixed offsets of a 128/256/248-byte entry")])

p("C13","User records and session records keep the BBS's binary format exactly",
 "Decoding a user account record or an on-line session record returns for every field the value that the BBS's record layout assigns to those bytes, and the account list is read as one record per 512 bytes, in order. "
 "Encoding a record produces the bytes of that layout, no two fields overlap, over-long text never spills into the next field, and decoding what was encoded returns the same values in every field.",
 ["inputs"],
 "every byte pattern of a record and every value of every field (extreme counters, money below zero, times up to the 32-bit limit, full-width text, all friend, reject and message slots)",
 "The tests decode and re-encode a few samples in which most fields are zero or equal, so dropped, shifted or overlapping fields pass.",
 ["pttbbs/passwd.go","pttbbs/userinfo.go","pttbbs/encoding.go","cstr.go","big5.go"],
 "PosOfPasswd... / PosOfUserInfo... offsets with UnmarshalUserec / MarshalBinary / UnmarshalUserInfo / UserInfoCache.MarshalBinary and OpenUserecFile.",
 [("record","fields at fixed offsets of a 512/3484-byte entry")])

p("C14","A password is accepted exactly when it matches the stored hash",
 "Checking a password against a user record succeeds if and only if the traditional Unix DES hash of the password's first eight bytes (ended early by a NUL), under the salt in the first two characters of the stored hash, equals the stored hash. "
 "A record whose stored hash is empty, too short or otherwise not a hash accepts no password: the check reports an error and never crashes.",
 ["inputs"],
 "every password (empty, longer than eight bytes, eight-bit bytes, embedded NUL), every salt, every stored hash field, including damaged and blank ones",
 "The tests use a few fixed vectors; blank accounts, unusual salts, eight-bit and over-long passwords, and near-miss hashes are not tried.",
 ["crypt/crypt.go","crypt/bbscrypt.go","crypt/const.go","crypt/utils.go","pttbbs/passwd.go"],
 "Userec.VerifyPassword -> crypt.Fcrypt (25 iterations of salted DES) and string comparison.",
 [("stored hash","13 characters in the account record")])

p("C15","Login history files are read line by line without loss or invention",
 "Reading a failed-login log (site-wide or per-user) or a recent-login log returns one record per line, in order, with the success flag, user id, time and host that the line holds, and writing such a record as text and reading it again yields the same record. "
 "A line that is not in the format, or a file that cannot be read to the end, is reported as an error to the caller; it never stops the process, and records are never silently dropped or made up.",
 ["inputs","fault_sequences"],
 "every sequence of well-formed lines (both formats, every date, user id up to 12 characters, any host), every malformed, truncated, empty or over-long line, and read failures",
 "The tests read two small sample files and a few lines; malformed lines, long lines and failing reads are not covered.",
 ["pttbbs/bad_logins.go","pttbbs/login_recent.go"],
 "OpenBadLoginFile / LoginAttempt.UnmarshalText / MarshalText and OpenLoginRecentFile / NewLoginRecentRecord over a line scanner.",
 [("log file","sequence of lines")])

p("C16","Shared-memory cache reads return the stored values of the asked user",
 "Opening the cache (memory-mapped file or System V segment) gives access to exactly the bytes of that segment, so that what one handle writes every other handle sees and keeps after it is closed, and a segment is created with the size asked for. "
 "Reading the version, a user's id, money or session record returns the values that the BBS's shared-memory layout, for the configured number of users, id length, hash size, alignment (none if unset) and cool-down setting, stores for that user and no other.",
 ["inputs","configurations","histories"],
 "every layout configuration, every user index in range, every content of the segment, every history of opens, writes and closes by several handles, any file path",
 "The only layout test uses one configuration and needs a dump that is not in the repository; session records and other configurations are never read.",
 ["pttbbs/cache.go","cache/cache.go","cache/mmap.go","cache/mmap_unix.go","cache/systemvshm.go","pttbbs/userinfo.go"],
 "caculatePos offset arithmetic; Cache.Version/UserID/Money/UserInfo; CreateMmap/OpenMmap/CreateKey/OpenKey.",
 [("segment","byte array shared by handles"),("settings","layout parameters")])

p("C17","Arbitrary file content never crashes or hangs a reader",
 "Given any bytes at all in the files it reads (article list, board list, account list, favourites, login logs, article text, drafts), and any kind of thing at their path (missing, a directory, unreadable, empty), every reading operation ends and returns either data or an error; it never panics, never ends the process, and never runs forever. "
 "Names of any form, including the empty name, given to path or reading operations likewise never cause a crash.",
 ["inputs"],
 "every byte string as file content, every kind of file-system object at the path, every name string",
 "The tests only read well-formed sample files.",
 ["pttbbs/file.go","pttbbs/board.go","pttbbs/passwd.go","pttbbs/fav.go","pttbbs/bad_logins.go","pttbbs/login_recent.go","pttbbs/path.go","formosabbs/file.go","bbs.go"],
 "Record-at-a-time read loops, slice arithmetic on decoded counts, and path functions indexing the first character.",
 [("file","arbitrary bytes")])

p("C18","The sample server grants tokens to correct credentials only",
 "The server issues an access token if and only if the user name matches an account exactly and the password is that account's; the token's subject is that user, it is signed with the server's key, and it expires thirty minutes after it was issued. "
 "Every other request for a token gets an error and no token, and a user-information request returns that user's stored data and no other user's.",
 ["inputs","histories"],
 "every population of accounts (including blank slots and damaged hashes), every user name and password, in any order of requests",
 "The tests exercise one information request with a mock user and ignore the token's contents; no test posts credentials.",
 ["serverlet/route_token.go","serverlet/route_users.go","serverlet/main.go"],
 "postToken -> findUserecByID -> VerifyPassword -> newAccessTokenWithUsername.",
 [("accounts","records loaded from .PASSWDS")])

p("C19","A crash at any point keeps everything stored before",
 "If the process stops at any point during an addition to a list, an update of an entry, an append to an article or the creation of an article, then afterwards all entries and article bytes that were there before (other than the one entry being updated) are still there, unchanged and readable, and the interrupted operation has either not happened or happened completely, as far as whole system calls decide it. "
 "Adding more entries after such a crash works and yields exactly the earlier entries followed by the new ones; no name handed out before the crash is handed out again.",
 ["crash_points","histories"],
 "every prefix of the system calls made by an operation, in every state of the files, followed by any further operations",
 "No test interrupts an operation; a version that rewrites a whole list or writes an entry in several pieces would pass all of them.",
 ["pttbbs/file.go","pttbbs/board.go","pttbbs/pttbbs_write_article_connector.go","pttbbs/pttbss_append_new_line.go"],
 "Single append / in-place write per operation; exclusive creation before use of a name.",
 [("file system","state after each system call")])

p("C20","Storage failures are reported, and success means it is stored",
 "If an operating-system call made on behalf of an operation fails - opening, reading, writing, positioning, truncating, removing, or closing a file that was written - the operation reports an error (or, for name creation only, succeeds with another name). The failure of a call that only looks at a file's attributes, or closes a file that was only read, may be overcome; in every case an operation that reports success has had its complete effect. "
 "A failed operation leaves all entries, articles and drafts other than the one it was asked to change exactly as they were.",
 ["fault_sequences"],
 "every operation, every single failing call among the calls it makes (open, read, write, seek, truncate, stat, remove) with input/output error, no space or permission errors",
 "The tests never make a system call fail.",
 ["bbs.go","pttbbs/file.go","pttbbs/board.go","pttbbs/draft.go","pttbbs/pttbbs.go","pttbbs/pttbbs_write_article_connector.go","pttbbs/pttbss_append_new_line.go"],
 "Error returns of os.OpenFile / Read / Write / Seek / Truncate / Remove in every reader and writer.",
 [("file system","files plus one injected failure")])

p("C21","Every operation releases the files it opened",
 "When an operation returns, with success or with an error, it holds no file open any more: a program may perform any number of operations without running out of file descriptors. "
 "The same holds for opening and closing caches, including opens that fail.",
 ["histories","fault_sequences"],
 "every operation, on well-formed, damaged, missing and unreadable files, repeated any number of times",
 "A leaked descriptor is invisible to tests that call each function a few times and never count.",
 ["pttbbs/file.go","pttbbs/board.go","pttbbs/passwd.go","pttbbs/bad_logins.go","pttbbs/login_recent.go","pttbbs/userinfo.go","formosabbs/file.go","cache/mmap.go"],
 "defer file.Close() on every path of every reader and writer.",
 [("descriptor table","open files of the process")])

p("C22","The command-line tool does what its subcommands say",
 "Adding an article with the tool makes it appear at the end of that board's article list with the given owner, date and title, with exactly the given content (from the argument or the file) in Big5, and reports the new file name, under which showing the article prints that content; adding a board makes it appear at the end of the board list. "
 "The listing subcommands print exactly the stored boards, users, articles of a board, and articles or comments of a user, in order, and change nothing.",
 ["inputs","histories"],
 "every home content and every sequence of subcommands with any argument values",
 "The tool has no tests.",
 ["cmd/bbstool/main.go","cmd/bbstool/articles.go","bbs.go"],
 "Subcommand functions mapping --name value arguments onto DB operations.",
 [("home","board list, article lists, contents, accounts")])

p("C23","The sample server serves the stored boards and answers every request",
 "The server's board listing holds exactly one element for every board of the board list it has loaded, in list order, each with the stored values (name, attributes, limits, times, class links, counts) of its own board and of no other. "
 "Every request gets an answer - what it asks for or an error status: 'not found' for an unknown path or item of a user, 'not implemented' for favourites and classes - whatever its method, path, headers and body are, how many are made at once, and whatever was asked before; none stops the server, and board or account files that are missing, are no files, or end in the middle of a record do not keep it from starting.",
 ["inputs","histories","schedules"],
 "every board list and account list, every request (paths, methods, headers, bodies, well-formed or not), in any order and number at once",
 "The tests call two handlers once each with mock data.",
 ["serverlet/main.go","serverlet/route_boards.go","serverlet/route_users.go","serverlet/route_classes.go"],
 "main loads the files and registers the routes; getBoards, getUsers and parseUserPath answer them.",
 [("boards, accounts","records loaded from .BRD and .PASSWDS")])

p("C24","Texts are converted between Big5 and UTF-8 exactly",
 "Text read from the BBS's encoding (Big5) is valid UTF-8 and holds, in order, the character of every code and every byte below 128 as it is, with one U+FFFD for what is no code; neither a line end nor any character after a damaged place is lost. "
 "Text written to Big5 holds for every character its code - the code of Big5 itself if it has one, not that of an extension BBS programs do not know - and one replacement byte 1A for a character without code, so that text of such characters reads back as it was. "
 "A fixed-width C string ends before its first NUL or at its end; removing terminal codes removes these codes and nothing else. None of these changes its argument or depends on what other callers convert at the same time.",
 ["inputs","schedules"],
 "every byte string, every text of any characters and length, any number of concurrent callers",
 "The tests convert two texts each way, and a few short C strings; Big5 has some 13,000 codes, and damaged text, long texts and concurrent callers are not tried.",
 ["big5.go","cstr.go","ansi.go","pttbbs/encoding.go"],
 "Utf8ToBig5, Big5ToUtf8, CstrToBytes, CstrToString, FilterStringANSI, used by every record reader and writer.",
 [("none","functions of their argument")])

p("C25","A data base does what its own driver does, whatever driver that is",
 "A data base opened under a driver's name works with the driver last registered under exactly this name - with a connector of its own if the driver makes them - and with the source it was opened with; an unknown name or a driver that cannot open the source is an error. "
 "Every operation answers with what its driver has at the path the driver names for exactly what was asked, and asks for exactly one change (naming and making, for a new article), with exactly the given content. If a call of the driver fails, the operation stops there, asks for nothing more, and reports the error, even if the driver hands out data with it; only a board whose article list does not exist counts as empty. "
 "An operation the driver does not support is an error. A user's articles and comments come from the driver's own list if it keeps one and that is not empty, and else from the boards.",
 ["inputs","histories","schedules","fault_sequences"],
 "every driver: any set of supported operations, any data, any failing calls, any names, sources and number of data bases, readers at the same time",
 "The tests use one mock connector for two of the operations and the pttbbs driver for others; drivers without some operations, failing drivers, and several drivers and data bases at once are not tried.",
 ["bbs.go","user_article_record.go","user_comment_record.go","user_draft.go"],
 "Register, Open and the methods of DB, which combine the calls of Connector, WriteBoardConnector, WriteArticleConnector, UserArticleConnector, UserCommentConnector and UserDraftConnector.",
 [("drivers","connector registered under each name"),("DB.connector","the connector a data base works with")])

p("C26","A user's settings are exactly the flags stored in his account",
 "Each setting told of a user (advertisement banner and its songs, outside mail, default backup, secure login, new boards in favourites, favourite highlighting, modification marks and their colour, the double-byte options, ASCII cursor, light-bar menu, angel pager) is on exactly if its own bit, as the BBS's uflags.h assigns them, is set in the userflag of the account record with exactly this user's name among those loaded. "
 "No other bit, reserved ones included, no other user's account and no earlier question changes it; a user without account is an error.",
 ["inputs","histories"],
 "every list of accounts, every value of the 32-bit flags, every user name asked for, any order of questions",
 "The only test has an empty table of cases; 2^32 flag values and users that differ in little are not tried.",
 ["pttbbs/usersettings.go","pttbbs/const.go","pttbbs/passwd.go"],
 "getUserFlagAllByID finds the account and the get...ByUserrec functions test the Uf... bits of UserFlag().",
 [("userRecs","accounts loaded from .PASSWDS")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
