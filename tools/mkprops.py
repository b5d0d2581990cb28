import json,os
ROOT=os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
D="spylls/hunspell/dictionary.py"; L="spylls/hunspell/algo/lookup.py"; S="spylls/hunspell/algo/suggest.py"
NG="spylls/hunspell/algo/ngram_suggest.py"; PH="spylls/hunspell/algo/phonet_suggest.py"; PE="spylls/hunspell/algo/permutations.py"
AFF="spylls/hunspell/data/aff.py"; DIC="spylls/hunspell/data/dic.py"; TR="spylls/hunspell/algo/trie.py"; CAP="spylls/hunspell/algo/capitalization.py"
FR="spylls/hunspell/readers/file_reader.py"; RA="spylls/hunspell/readers/aff.py"; RD="spylls/hunspell/readers/dic.py"
OBS=["Dictionary.lookup","Dictionary.suggest","Dictionary.lookuper (good_forms, capitalization and allow_nosuggest switches)","Dictionary.suggester.suggestions"]

p("C01","Threads sharing one dictionary get the answers they would get alone",
"When several threads query one loaded dictionary at the same time, every lookup and every suggestion list is exactly what the same call returns on a freshly loaded copy used by nobody else. No interleaving of the threads may change, lose, duplicate or reorder a result, make a call fail that would succeed alone, or leave threads waiting for each other forever.",
["schedules","inputs"],"every interleaving, at any point inside the library, of lookups and (fully or partly consumed) suggestion streams of several threads on one dictionary; every dictionary and word",
"The test suite is single-threaded: each test makes one call at a time from the main thread, so no interleaving inside a query is ever exercised, and a race shows only for particular switch points.",
[D,L,S,NG,PH,AFF,DIC,TR,CAP],
[("query state is kept in locals and generator frames, not on the shared objects","algo/lookup.py Lookup, algo/suggest.py Suggest.suggestions"),("indexes are complete before the dictionary is published","data/aff.py Aff.__post_init__, data/dic.py Dic.append, algo/suggest.py Suggest.__init__")],
[("affix and word indexes","shared read-only search structures","data/aff.py, data/dic.py"),("phonetic rule table","grows on access to a missing key","data/aff.py PhonetTable")],OBS)

p("C02","Answers do not depend on earlier or interleaved queries",
"On a loaded dictionary the result of a lookup, and the full sequence produced by a suggestion stream, depend only on the dictionary's files and the queried word. It does not matter which queries were made before or how many, which suggestion streams are open, half-consumed, abandoned or garbage-collected, or how the consumption of several open streams is interleaved.",
["histories","inputs"],"every finite sequence of lookups, stream openings, single-item pulls, closings, drops and garbage collections on one dictionary, with any words (repeated, case variants, misspellings of one another)",
"The tests make a couple of fixed queries per freshly loaded dictionary and always drain a stream before the next call; no test compares an answer after a long or interleaved history with the answer from a fresh dictionary.",
[D,L,S,NG,PH,AFF,DIC,CAP],
[("answers are computed from immutable data with per-call state","algo/suggest.py Suggest.suggestions (handled set is local), algo/lookup.py"),("a fresh generator per stream","dictionary.py Dictionary.suggest")],
[("per-stream set of already produced suggestions","must be private to the stream","algo/suggest.py")],OBS)

p("C03","An interrupted query fails visibly and leaves the dictionary intact",
"If an interruption (KeyboardInterrupt, a timeout exception, MemoryError, RecursionError) strikes at any instant inside a lookup or while a suggestion is being computed, then that call either raises or still gives the correct result; items a stream already delivered are a correct prefix. Every later query on the same dictionary gives exactly the answer of a freshly loaded copy.",
["crash_points","histories","inputs"],"every point inside a query at which an exception can arise, every kind of interruption, every later query",
"No test interrupts a query. Whether shared state is left half-updated, or the interruption is swallowed and turned into a wrong answer, depends on the exact instant of the interruption.",
[D,L,S,NG,PH,AFF,TR],
[("no state is modified during a query, so there is nothing to roll back","algo/lookup.py, algo/suggest.py"),("no exception handler turns an interruption into an answer","all of spylls/hunspell")],
None,OBS)

p("C04","A suggestion stream is lazy, and stopping early is cheap and harmless",
"A consumer that takes only the first k suggestions gets exactly the first k of the complete list, whenever and however it stops. Asking for a stream and taking its first spelling-edit suggestions costs an amount of work that does not grow with the number of words in the dictionary, because the scan of the whole word list happens only if the consumer goes on past them.",
["schedules","inputs","histories"],"every number of items taken, every stopping point and way of stopping (close, drop, exception thrown into the stream), every dictionary size",
"Tests always drain the stream into a list, where an eager implementation, or one that computes ahead, is indistinguishable from a lazy one.",
[D,S,NG,PH],
[("generators all the way down","dictionary.py Dictionary.suggest, algo/suggest.py Suggest.suggestions"),("ngram and phonetic passes are started only after edits are consumed","algo/suggest.py")],
None,["Dictionary.suggest","work performed, counted in executed instructions of the library"])

p("C05","A load that hits a read error fails; it never yields a partial dictionary",
"If opening, reading or seeking a dictionary file or archive fails at any point, or the load is interrupted, the load call raises; it never returns a dictionary that lacks entries, rules or settings present in the files. Once the fault is gone, the next load in the same process succeeds and is complete.",
["fault_sequences","crash_points","inputs"],"every failing I/O operation (open, n-th read, seek, end of device), every error kind, every instant of interruption, plain files and archives, repeated attempts",
"Tests load intact local files only; no I/O call ever fails in them. A swallowed error gives a dictionary that looks fine until a missing word is queried.",
[D,FR,RA,RD],
[("I/O errors propagate; nothing is caught while reading","readers/file_reader.py BaseReader.readlines"),("the dictionary object is created only after both files are fully read","dictionary.py from_files, from_zip")],
None,["Dictionary.from_files","Dictionary.from_zip","contents and answers of the returned dictionary"])

p("C06","Loaded content equals file content, however the bytes are delivered",
"The dictionary obtained from a pair of files contains exactly the entries, affix rules and settings written in them, in order, decoded in the declared encoding. This is independent of how the bytes arrive (short reads, interrupted reads, buffer sizes, characters and line ends split between reads), of whether they come from plain files or from a stored or compressed archive, and of byte-order marks, line-end style, blank lines or a missing final line end.",
["fault_sequences","inputs","configurations"],"every partition of the byte streams into reads, every position of the encoding declaration, every supported encoding, line-end style and container, every dictionary",
"Fixture files are tiny and always arrive in a single read from a plain file; the archive loader has no test at all, and boundary conditions depend on where a read happens to end.",
[D,FR,RA,RD],
[("line-wise decoding over a buffered stream","readers/file_reader.py BaseReader"),("rewind and skip of already consumed lines when the encoding is declared","readers/file_reader.py reset_encoding / reset_io"),("table directives consume their own lines","readers/aff.py read_value")],
[("count of consumed lines","where to continue after the encoding switch","readers/file_reader.py")],["Dictionary.from_files","Dictionary.from_zip","Dictionary.dic.words","Dictionary.aff"])

p("C07","A damaged dictionary archive is rejected, not silently misread",
"If the bytes of a dictionary archive are corrupted or cut short (on disk, or in transit at any read) in a way that the archive's own checksums and sizes reveal, loading it either raises or yields exactly the dictionary of the intact archive. It never yields altered, missing or additional words or rules.",
["fault_sequences","inputs"],"every bit flip, overwritten or lost block and truncation of an archive with one dictionary, permanent or affecting only one read; stored and compressed members",
"There is no test of archive loading, and the outcome depends on which byte is hit and on whether the reader consumes the member to its end, where its checksum is verified.",
[D,FR,RA,RD],
[("members are read to their end, so that the archive's checksum is verified before the dictionary is used","readers/file_reader.py BaseReader.readlines, readers/aff.py read_aff, readers/dic.py read_dic"),("archive errors propagate","dictionary.py from_zip")],
None,["Dictionary.from_zip"])

p("C08","Replacing files during a load never mixes two versions of a file",
"If a dictionary file or archive is atomically replaced by another version while it is being loaded, what was loaded from that file comes wholly from one version, the old or the new one; for an archive this covers the dictionary as a whole. The load may also raise, but it never combines parts of two versions of one file.",
["schedules","inputs"],"every instant of the replacement relative to the load's file operations, every number of replacements, every pair of versions, files and archives",
"Tests never change a file while it is being read; the outcome depends on the interleaving of the updater with the reader's opens and reads.",
[D,FR],
[("each file is opened once and re-decoded through the same open stream","readers/file_reader.py BaseReader.reset_encoding"),("both members are read through one open archive","dictionary.py from_zip")],
None,["Dictionary.from_files","Dictionary.from_zip"])

p("C09","Loading releases every file it opened, also when it fails",
"When a load call returns or raises, every file it opened has been closed by then, without help of the garbage collector. This holds for successful loads, for malformed content, for unreadable, missing or damaged files, and for I/O errors at any point.",
["fault_sequences","inputs"],"every load path (files, archive, system search), every I/O fault position and every malformed content",
"Tests never count open files, and leaks on failure paths need a fault at a particular point.",
[D,FR],
[("readers are context managers closed on every path","dictionary.py from_files, from_zip; readers/file_reader.py")],
[("open streams","files held by readers","readers/file_reader.py")],["open file descriptors after the call"])

p("C10","The same dictionary and word give the same answer in every process",
"The result of a lookup and the exact sequence of suggestions for a given pair of files and word are the same in every process. They do not depend on hash randomization, the state of random generators, the clock or how fast it runs, locale and encoding settings, the working directory, memory layout, or whether Python runs optimized (-O, -OO).",
["configurations","inputs","schedules"],"every hash seed, random state, clock behaviour (jumps, stalls, running backwards), locale, working directory, optimization level and process start",
"The tests run in one process configuration with a fixed hash seed and UTF-8 mode, where an answer that depends on set order or on the clock is always the same.",
[D,RA,RD,L,S,NG,PH,DIC,AFF],
[("ordered containers wherever order reaches the output","readers/aff.py, algo/suggest.py"),("explicit encodings","readers/file_reader.py"),("total order of scored candidates","algo/ngram_suggest.py, algo/phonet_suggest.py")],
None,OBS)

p("C11","Dictionaries in one process are independent of each other and always fresh",
"Loading, querying, failing to load or discarding one dictionary never changes what another dictionary in the same process contains or answers, also when this happens concurrently. A load always reflects the files as they are at the time of that load, whatever was loaded before from the same or another path.",
["schedules","histories","inputs"],"every interleaving and order of loads (also failing ones), reloads after the files changed, queries and disposals of several dictionaries, sequential or in threads",
"Each test loads one dictionary; state leaking through module-level or class-level objects, caches keyed by path, name or object identity needs several dictionaries in a particular order.",
[D,RA,RD,AFF,DIC,L,S,CAP],
[("no module-level mutable state; mutable defaults are created per instance","data/aff.py Aff (default_factory), readers/aff.py Context"),("no caching between loads","dictionary.py")],
[("replacement table","is extended while the word list is read, must belong to one dictionary","data/aff.py Aff.REP, readers/dic.py")],["Dictionary.from_files","Dictionary.from_zip"]+OBS)

p("C12","System search takes the first folder that has the dictionary",
"Loading a dictionary by system name uses the first folder, in the library's documented order, that contains it; folders that are missing or unreadable when they are examined are skipped and do not hide later folders. If no folder has it a lookup error is raised; a dictionary found earlier is never replaced by one found later, and the bundled dictionaries are used for a bundled name only if no local file of that name exists.",
["fault_sequences","configurations"],"every placement of dictionaries in the search folders, every missing or failing folder, folders appearing or vanishing between steps of the search",
"The tests never call the system search, and the outcome depends on the state of folders outside the repository and on faults while listing them.",
[D],
[("ordered scan of the folder list with per-folder matching","dictionary.py Dictionary.from_system"),("local file check before falling back to the bundle","dictionary.py Dictionary.from_files")],
None,["Dictionary.from_system","Dictionary.from_files with a bundled name"])

p("C13","Serving queries does not accumulate memory",
"The memory a dictionary retains between calls is bounded: it does not grow with the number of queries served, distinct words queried, or suggestion streams abandoned or interrupted. Finished, closed, dropped and interrupted queries leave nothing behind that lives as long as the dictionary.",
["histories","crash_points"],"every long history of lookups and streams over ever new words, with streams abandoned or interrupted at any point",
"Tests make a handful of queries per dictionary; growth only matters, and only shows, over thousands of distinct queries.",
[D,L,S,NG,PH,AFF,CAP],
[("query state dies with the call or generator","algo/lookup.py, algo/suggest.py")],
None,["live memory blocks between queries"])

p("C20","A loaded dictionary needs nothing of what it was loaded from",
"Once a load has returned, all answers of the dictionary are determined. Deleting, replacing, overwriting or moving its files, failing disks, or a changed working directory have no effect on later lookups and suggestions or on streams that are already open. A stream of suggestions also stays valid if the program drops every other reference to the dictionary.",
["fault_sequences","histories","inputs"],"every change of the files, the file system and the working directory, at every point between queries and between items of a stream; every way of loading",
"Tests leave the fixture files in place and keep the dictionary in a variable; whether something is read, or looked up by path, only at a later query cannot be seen then.",
[D,S,L,DIC,AFF],
[("both files are read completely by the load","dictionary.py from_files, from_zip"),("objects hold strong references to the data they use","dictionary.py Dictionary.__init__, algo/suggest.py Suggest.__init__, algo/lookup.py Lookup.__init__")],
None,OBS)
p("C21","Library calls leave the state of the process as they found it",
"Settings of the process are the same after a load or query as before, also when the call fails, and also while a suggestion stream is suspended between two items or after several threads used the library at once. This covers the recursion limit, garbage collector, locale, random generator, warnings and logging setup, working directory, environment, signal handlers and timers, and functions of standard modules; no thread is left running and nothing is printed.",
["fault_sequences","schedules","histories"],"every sequence of loads (sound, malformed, with I/O errors) and queries with streams left open, every prior state of the settings, every interleaving of threads",
"Tests look at results only. A setting that is changed for the time of a call and restored afterwards is wrong only if the call fails, if a stream is suspended, if two calls overlap, or if the program had chosen an unusual value.",
[D,RA,RD,FR,L,S],
[("no process-wide setting is touched","all of spylls/hunspell")],
None,["settings of the interpreter and process between calls and between items of a stream"])
p("C22","The library can be used from inside one of its own calls",
"A signal handler, finaliser or forked child that starts at any instant inside a lookup, suggestion or load may itself make any calls on the same dictionary or load it again: all of them end and give exactly the answers of a dictionary used by nobody else, and so does the interrupted call when it goes on.",
["crash_points","schedules","inputs"],"every instant inside a call, every inner call (query, partly consumed stream, load), forks inside queries with both processes going on; all dictionaries and words",
"No test makes a call while another one of the same thread is unfinished inside the library; whether that waits for itself or meets half-updated state depends on the instant.",
[D,L,S,NG,PH,AFF,DIC,TR],
[("no lock is held and no shared state is changed during a query","algo/lookup.py, algo/suggest.py")],
None,OBS)
p("C23","Copies of a dictionary answer like the dictionary, also in other processes",
"A dictionary can be copied (copy.copy, copy.deepcopy) and pickled at any time - after any queries, while suggestion streams are open, and by a signal handler inside a call - and every copy, also one unpickled by another process without the files, has the same contents and gives exactly the answers of a freshly loaded dictionary. Copies are independent: neither using nor dropping one of them affects the others or streams that are open.",
["histories","crash_points","configurations","inputs"],"every history of queries and open streams before, between and after copying, every instant inside a call, pickle protocols from 2 on, copies of copies, receiving processes with other hash seeds; all dictionaries and words",
"No test copies or pickles a dictionary; identity-based indexes, per-process registries and state left by unfinished calls go wrong only in copies made at particular moments.",
[D,L,S,AFF,DIC,TR],
[("everything a dictionary consists of is plain data that refers to no process, file or call","spylls/hunspell/dictionary.py, data, algo/lookup.py, algo/suggest.py")],
None,OBS)

PURE="Fixtures compare a fixed list of words per feature; the property ranges over all dictionaries and words."
p("C14","A word is accepted exactly if the dictionary's rules derive it",
"A word is found correct if and only if it can be derived from an entry by the affix rules, conditions and flags of the dictionary as Hunspell documents them.",
["inputs"],"every dictionary and word",PURE,[L,AFF,TR],[("affix form search","algo/lookup.py Lookup.affix_forms")],None,["Dictionary.lookup"])
p("C15","Compound words are accepted exactly as the compounding rules say",
"A word is accepted as a compound if and only if it splits into parts that the compounding flags, compound rules and compound checks of the dictionary permit.",
["inputs"],"every dictionary and word",PURE,[L,AFF],[("compound form search","algo/lookup.py Lookup.compound_forms")],None,["Dictionary.lookup"])
p("C16","Letter case is handled by the rules of the language",
"Capitalized and all-capitals variants of a correct word are accepted unless the entry forbids it, other case variants are not, and suggestions keep the case pattern of the queried word.",
["inputs"],"every dictionary and word",PURE,[CAP,L,S],[("case guessing and variants","algo/capitalization.py")],None,["Dictionary.lookup","Dictionary.suggest"])
p("C17","Forbidden words are never accepted and no-suggest words never suggested",
"A form the dictionary marks as forbidden is never found correct and never suggested, and words marked as not to be suggested never appear among suggestions.",
["inputs"],"every dictionary and word",PURE,[L,S],[("forbidden checks","algo/lookup.py Lookup.good_forms, algo/suggest.py")],None,["Dictionary.lookup","Dictionary.suggest"])
p("C18","Suggestions are correct words, without repetition and within limits",
"Every suggestion is itself accepted by the dictionary, no suggestion is repeated, and the documented limits on the number of suggestions are respected.",
["inputs"],"every dictionary and word",PURE,[S,PE,NG,PH],[("lookup filter and handled set","algo/suggest.py Suggest.suggestions")],None,["Dictionary.suggest"])
p("C19","Input and output conversion, ignored characters and breaking are applied",
"Input conversion, ignored characters and break patterns declared by the dictionary are applied to every queried word and output conversion to every suggestion.",
["inputs"],"every dictionary and word",PURE,[L,S,AFF],[("conversion tables","data/aff.py ConvTable, Ignore, BreakPattern")],None,["Dictionary.lookup","Dictionary.suggest"])
P.sort(key=lambda x:x['id'])
open(os.path.join(ROOT,'properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
