"""level, technique and level note of each check (used by tools/mkmanifest.py)"""
TV = 'explicit TLA+ specification, model checked with TLC; '
NOTES = {
 'C04': ('model_checking', TV + 'exhaustive trace validation of the real merge function over all status combinations',
         'TLC proves that the documented table is a sound three-way merge over all small files; the real function is run on every combination of statuses of 2 paths (3 in thorough) with several names and orders and TLC validates each result. Assumes the merge does not depend on more than three paths together.'),
 'S01': ('fault_enumeration', TV + 'trace validation of the real server with crashes at file system changes of one request',
  'spec/Store.tla (states: history, objects, active commit, lock) is model checked on small instances; schedules generated from it by TLC (simulation and transition cover) are run against the real server over loopback connections and every answer and everything that can be read afterwards is validated by TLC against the specification (StoreTrace). The server process is ended by a preloaded shim at chosen (thorough: all) file system changes of a request (writes may be torn), restarted, observed and used again; also every change from one on can fail (full or read only disk). No loss of unsynced data.'),
 'S02': ('fault_enumeration', TV + 'trace validation of the real server over long histories, with crashes',
  'spec/Store.tla (states: history, objects, active commit, lock) is model checked on small instances; schedules generated from it by TLC (simulation and transition cover) are run against the real server over loopback connections and every answer and everything that can be read afterwards is validated by TLC against the specification (StoreTrace). After every request every version, tree, change list and the bytes of every file are read again and compared with the specification. In some families the server starts again without its transient database (operation Lose of the specification).'),
 'S03': ('model_checking', TV + 'trace validation of schedules covering the transitions of the commit machine',
  'spec/Store.tla (states: history, objects, active commit, lock) is model checked on small instances; schedules generated from it by TLC (simulation and transition cover) are run against the real server over loopback connections and every answer and everything that can be read afterwards is validated by TLC against the specification (StoreTrace). Schedules cover the transitions of small instances (2 paths, 2 contents) and walks over larger ones, with concrete paths in nested directories.'),
 'S04': ('fault_enumeration', TV + 'trace validation of discarded commits, with crashes while committing and while discarding',
  'spec/Store.tla (states: history, objects, active commit, lock) is model checked on small instances; schedules generated from it by TLC (simulation and transition cover) are run against the real server over loopback connections and every answer and everything that can be read afterwards is validated by TLC against the specification (StoreTrace). Objects on disk are compared with the specification after every request; index objects which no version needs are counted.'),
 'S05': ('fault_enumeration', TV + 'trace validation of interrupted and resumed commits of several users and addresses',
  'spec/Store.tla (states: history, objects, active commit, lock) is model checked on small instances; schedules generated from it by TLC (simulation and transition cover) are run against the real server over loopback connections and every answer and everything that can be read afterwards is validated by TLC against the specification (StoreTrace). Interruptions by disconnecting, incomplete uploads, restarts and crashes at file system changes.'),
 'S06': ('exploration', TV + 'trace validation of uploads and downloads of many sizes and chunkings',
  'spec/Store.tla (states: history, objects, active commit, lock) is model checked on small instances; schedules generated from it by TLC (simulation and transition cover) are run against the real server over loopback connections and every answer and everything that can be read afterwards is validated by TLC against the specification (StoreTrace). Contents around the chunk sizes of the code and random ones; the message is split at random positions.'),
 'S07': ('model_checking', TV + 'trace validation of the change reports between all versions of generated histories',
  'spec/Store.tla (states: history, objects, active commit, lock) is model checked on small instances; schedules generated from it by TLC (simulation and transition cover) are run against the real server over loopback connections and every answer and everything that can be read afterwards is validated by TLC against the specification (StoreTrace). After every event the report since every version is compared with the difference of the trees in the specification.'),
 'S08': ('model_checking', TV + 'trace validation of requests with and without the lock, linearizability checking of concurrent runs (StoreLin)',
  'spec/Store.tla (states: history, objects, active commit, lock) is model checked on small instances; schedules generated from it by TLC (simulation and transition cover) are run against the real server over loopback connections and every answer and everything that can be read afterwards is validated by TLC against the specification (StoreTrace). Concurrent runs: threads and two server processes; TLC searches for an order of the calls the specification allows. Schedules of the concurrent part are sampled, except that directed runs hold a request at chosen points.'),
 'S10': ('model_checking', TV + 'trace validation of begins from outdated revisions, linearizability checking of concurrent runs (StoreLin)',
  'spec/Store.tla (states: history, objects, active commit, lock) is model checked on small instances; schedules generated from it by TLC (simulation and transition cover) are run against the real server over loopback connections and every answer and everything that can be read afterwards is validated by TLC against the specification (StoreTrace). as S08'),
 'S11': ('model_checking', TV + 'trace validation of interleaved requests for two repositories (product of two specifications), with crashes and concurrency',
  'spec/Store.tla (states: history, objects, active commit, lock) is model checked on small instances; schedules generated from it by TLC (simulation and transition cover) are run against the real server over loopback connections and every answer and everything that can be read afterwards is validated by TLC against the specification (StoreTrace). Two repositories in one server, separate and shared connections, with and without a transient database elsewhere.'),
 'S09': ('model_checking', TV + 'trace validation of logins and requests of honest and other clients under a frozen clock, with one request held up at chosen lines',
  'spec/Access.tla (challenges, sessions, permissions, time, on top of Store) is model checked on small instances (AccessMC: every login from one unused, unexpired challenge; every effect by a live, permitted session). Walks generated from it with TLC, with foreign, stale, bogus and cross repository tokens, signatures of other users, other addresses, permissions withdrawn and clock jumps to just before and after an expiry, are run against the real server over loopback connections; TLC validates every answer, every refusal (no data) and the repositories afterwards. Concurrent logins: one request is stopped at chosen lines of the server code while another is made. The cryptography itself is assumed.'),
 'C01': ('fault_enumeration', TV + 'trace validation of transactions of the real working copy code with crashes and errors at file system changes',
  'spec/JournalMC.tla (undo journal with write-ahead records, a crash possible at every step, also of the recovery) is model checked for all or nothing on small instances; transactions generated from spec/Journal.tla are executed with the real journaling_filesystem and client_filesystem_interface, killed (or made to fail) at chosen (thorough: all) file system changes, also again while rolling back, and TLC validates files, manifest and journal after client.init. Process death, Control-C, failing calls and lasting failures only: no loss of unsynced data.'),
 'C02': ('fault_enumeration', TV + 'trace validation of updates of the real client over local changes, killed or cut off at file system and network operations',
  'spec/Sync.tla (working copies: files, manifest, revision, rules; versions of the repository) is model checked on small instances for what the property wants (SyncMC: updates path by path, interrupted anywhere). Walks of two or three working copies generated from it by TLC are run with the real client commands in processes of their own against a real server over loopback; every command and what is found afterwards (status, manifest, files, history) is judged by SyncTrace. Kill points are every write-like file system call and every network operation of the client process, sampled up to 12 for an update in quick. Bounds: up to 4 paths (nested, files against directories), 4 contents, some 15 to 20 operations; a few hundred runs in quick, thousands in thorough.'),
 'C03': ('fault_enumeration', TV + 'trace validation of updates of the real client, also with lost files on the server and commits in the middle of an update',
  'spec/Sync.tla (working copies: files, manifest, revision, rules; versions of the repository) is model checked on small instances for what the property wants (SyncMC: updates path by path, interrupted anywhere). Walks of two or three working copies generated from it by TLC are run with the real client commands in processes of their own against a real server over loopback; every command and what is found afterwards (status, manifest, files, history) is judged by SyncTrace. An update is also held at a file download while the other working copy commits. Bounds: up to 4 paths (nested, files against directories), 4 contents, some 15 to 20 operations; a few hundred runs in quick, thousands in thorough.'),
 'C05': ('model_checking', TV + 'trace validation of conflict-rich histories of the real client with right and wrong resolution files',
  'spec/Sync.tla (working copies: files, manifest, revision, rules; versions of the repository) is model checked on small instances for what the property wants (SyncMC: updates path by path, interrupted anywhere). Walks of two or three working copies generated from it by TLC are run with the real client commands in processes of their own against a real server over loopback; every command and what is found afterwards (status, manifest, files, history) is judged by SyncTrace. Wrong resolution files (missing, additional, unknown, blank entries) precede right ones. Bounds: up to 4 paths (nested, files against directories), 4 contents, some 15 to 20 operations; a few hundred runs in quick, thousands in thorough.'),
 'C06': ('fault_enumeration', TV + 'trace validation of commits of the real client, with files modified meanwhile, killed or cut off and followed by anything',
  'spec/Sync.tla (working copies: files, manifest, revision, rules; versions of the repository) is model checked on small instances for what the property wants (SyncMC: updates path by path, interrupted anywhere). Walks of two or three working copies generated from it by TLC are run with the real client commands in processes of their own against a real server over loopback; every command and what is found afterwards (status, manifest, files, history) is judged by SyncTrace. Files are modified while an upload is held; commits are killed or cut off at file system and network operations, followed by edits or commits of the same user. Bounds: up to 4 paths (nested, files against directories), 4 contents, some 15 to 20 operations; a few hundred runs in quick, thousands in thorough.'),
 'C07': ('model_checking', TV + 'trace validation of ignore and pull-ignore rules over histories of the real client',
  'spec/Sync.tla (working copies: files, manifest, revision, rules; versions of the repository) is model checked on small instances for what the property wants (SyncMC: updates path by path, interrupted anywhere). Walks of two or three working copies generated from it by TLC are run with the real client commands in processes of their own against a real server over loopback; every command and what is found afterwards (status, manifest, files, history) is judged by SyncTrace. Rules come and go, by the file or the command, and ignored files are committed by the other working copy. Bounds: up to 4 paths (nested, files against directories), 4 contents, some 15 to 20 operations; a few hundred runs in quick, thousands in thorough.'),
 'C09': ('fault_enumeration', TV + 'trace validation of updates and commits of the real client killed or cut off at file system and network operations, once or twice, and run again',
  'spec/Sync.tla (working copies: files, manifest, revision, rules; versions of the repository) is model checked on small instances for what the property wants (SyncMC: updates path by path, interrupted anywhere). Walks of two or three working copies generated from it by TLC are run with the real client commands in processes of their own against a real server over loopback; every command and what is found afterwards (status, manifest, files, history) is judged by SyncTrace. Kill points are every write-like file system call and every network operation of the client process, sampled up to 12 for an operation in quick. Bounds: up to 4 paths (nested, files against directories), 4 contents, some 15 to 20 operations; a few hundred runs in quick, thousands in thorough.'),
 'C11': ('exploration', TV + 'trace validation of reverts of the real client to all versions',
  'spec/Sync.tla (working copies: files, manifest, revision, rules; versions of the repository) is model checked on small instances for what the property wants (SyncMC: updates path by path, interrupted anywhere). Walks of two or three working copies generated from it by TLC are run with the real client commands in processes of their own against a real server over loopback; every command and what is found afterwards (status, manifest, files, history) is judged by SyncTrace. Reverts by name, wildcard, of everything, from a subdirectory, to the own, the head or a chosen version, confirmed and not, with answers in any case; no faults. Bounds: up to 4 paths (nested, files against directories), 4 contents, some 15 to 20 operations; a few hundred runs in quick, thousands in thorough.'),
 'C12': ('fault_enumeration', TV + 'trace validation of right and wrong checkouts of the real client into histories of other working copies',
  'spec/Sync.tla (working copies: files, manifest, revision, rules; versions of the repository) is model checked on small instances for what the property wants (SyncMC: updates path by path, interrupted anywhere). Walks of two or three working copies generated from it by TLC are run with the real client commands in processes of their own against a real server over loopback; every command and what is found afterwards (status, manifest, files, history) is judged by SyncTrace. Wrong keys, users, URLs, existing directories; checkouts killed, cut off, on a full disk or stopped by Control-C at sampled points and finished; a third working copy is checked out at any point, commits and is seen by the others. Bounds: up to 4 paths (nested, files against directories), 4 contents, some 15 to 20 operations; a few hundred runs in quick, thousands in thorough.'),
 'P01': ('model_checking', TV + 'trace validation of logins of clients of all versions, and of the real client against servers of other versions',
  'spec/Access.tla and spec/Sync.tla have the versions as differences to the oldest supported one. Walks of logins and requests generated from Access by TLC are run against the real server with versions from far below to a hundred above; walks of working copies generated from Sync with the real client against a real server which reports other versions between commands, and every refused command is compared with no change. Version numbers are sampled (one to three below, the oldest, one, seven and 97 above).'),
 'L01': ('model_checking', TV + 'trace validation of the listing commands of the real client over histories of two working copies',
  'spec/Sync.tla has histories, working copies and rules; CopyMC is model checked on small instances; SyncTrace says what each listing has to show. Walks generated from the specification by TLC, with rules or reverts, are run with the real client and server; after commits, updates, rule changes and reverts the listings are asked for with all options (own, head, chosen and unknown version, contradictory and incomplete options, from a subdirectory), also with a session that ends in the middle, with histories beyond the 50 versions which are listed, and with the connection cut at sampled network operations. Names with line breaks are left out, listings are line based.'),
 'M01': ('fault_enumeration', TV + 'trace validation of the real client on working copies whose manifest was put back into the old form, also killed and cut off',
  'spec/Sync.tla says what every command does; SyncTrace reads an old manifest as what it means (its files, with the content of the version they belong to), so that the conversion is an identity and each command is judged as on any other working copy. Walks generated from the specification by TLC, with rules or reverts; before commands the manifest of the working copy is rewritten in the old form (no database) by the driver, followed by edits, deletions, more pull-ignore rules; commands on it are also killed or cut off at file system and network operations and repeated. No genuine manifest of the old client was available: the form is the one the conversion reads. Old manifests left by an update which had been interrupted after replacing files are left out (their times cannot tell the versions apart). Bounds: up to 4 paths, 4 contents, some 15 to 20 operations; a few hundred runs in quick, thousands in thorough.'),
 'C08': ('model_checking', TV + 'trace validation of the real client over enumerated states of files and rules, with a specification of the wildcards',
  'spec/Detect.tla (statuses from files, manifest and rules; shell wildcards over code points) is model checked for what a report has to say; TLC enumerates the states of 2 paths (3 in thorough) with times and rules, and wildcard patterns up to length 3 (4), which are set up with odd names, times 1 microsecond to years apart and rules that hit or just miss; the report of the real client (status, and what update sends) is judged by DetectTrace. Times are compared at the resolution the system reports to Python (about a quarter of a microsecond).'),
 'C10': ('model_checking', TV + 'trace validation of real client processes stopped in the middle of their work',
  'spec/WcLock.tla; WcLockMC checks the lock discipline (3 processes, 2 working copies, death anywhere); walks generated from it are run with real client processes which are stopped (SIGSTOP) at a file system change, directory listing or network operation, then others are started on the same working copy (also from a subdirectory or by a symbolic link), and the stopped one is continued, killed or interrupted. Stop points are sampled from the first 60.'),
 'V01': ('fault_enumeration', TV + 'trace validation of the real bvn_repo verify and gc on damaged and undamaged repositories',
  'spec/Verify.tla says which verdicts are right for a graph of objects with damage and what gc has to keep and to remove; VerifyMC model checks the procedures (walk, rehash, mark and sweep) against it. Repositories made through the real server by TLC walks of Store (aborted, interrupted and crashed commits, long histories) are damaged in every object (sampled in quick) in nine ways, singly and several at once, and every run of the real command is validated by TLC. gc is also run within, and is interrupted and held up in, server histories (StoreTrace, StoreLin). gc on repositories whose damaged objects still parse is out of scope, as is the loss of the head together with all commit objects.'),
 'K01': ('exploration', TV + 'trace validation of lives of real keys (generate with a dialogue, unlock, check out, use) with families of nearly equal passwords',
  'spec/Keys.tla (which answers and passwords protect a key, what opens it) is model checked with a thief on small instances; every dialogue of generate_keypair up to 3 passwords is enumerated by TLC and run against the real client with passwords from families that differ by one byte, length, case, normal form, NUL or only beyond usual limits; each password of a family is tried against each other one, and TLC validates whether the key opens, whether the right key comes out, whether a password is asked for, and that the secret is in no file. The cryptography itself is assumed.'),
 'H01': ('model_checking', TV + 'trace validation of the real HTTP layer (server, client, whole server) over cut and truncated streams',
  'spec/Http.tla (which messages of a stream are answered, and what a handler sees, if q bytes arrive); HttpMC model checks a receiver with buffer, bounded body reader and draining over every stream of 2 short messages, every segmentation and every truncation, also that it ends. Messages enumerated by HttpGen (handlers which read all, parts, nothing, fail; what is no request) are sent to the real HTTPServer and called with the real client_http_request on loopback sockets whose reads end at chosen positions and whose writes are partial; sizes around the constants of the code, bodies which look like requests; the peer goes away at any position, by close, reset or half close. The whole server: a connection which holds a commit lock goes away within a request. Timeouts (300 s) are not waited for. TLS is not covered.'),
 'S12': ('model_checking', TV + 'trace validation of requests with enumerated hostile paths and identifiers, file accesses of the server watched',
  'spec/Paths.tla says over code points which uploaded paths are hostile and what is an identifier; PathsMC model checks over all texts up to length 7 (9) of the five relevant characters that what is not refused cannot leave its directory with either separator, nor an identifier the directory of objects. PathsGen enumerates all sequences of kinds of components and separators up to 3 (4: sampled in quick), which are uploaded to, asked for and deleted from the real server with tricky concrete names; identifiers which lead to valid objects planted around the repository are sent in every place that takes one. An audit hook in the server (run as nobody) notes every file access of its threads outside of the repository; what lies around it is compared afterwards; TLC validates answers, contents and lists.'),
 'B01': ('fault_enumeration', TV + 'trace validation of the real backup and restore against a stand-in for the remote store with faults at its operations',
         'spec/Backup.tla says what a restore may give after completed and interrupted runs; BackupMC model checks the procedure (newest version first, head pointer before all, a mark after the objects, skipping what is there) with an interruption at any remote operation, objects shared between versions and versions added during runs: what is marked is complete, and after a completed run the restore gives every version. Walks from BackupGen (commits, runs with errors, lost answers, deaths and commits in the middle, restores that are cut, with a wrong password or a damaged object, lost salt, changed chunk size, gc, aborted commits) are executed with the real server, repo_manager, pipeline and libsodium against a stand-in for boto3 on disk (pages of 1 to 1000 keys, multipart uploads which appear when completed, least part sizes); the restored repository is served by the real server and every version, all bytes of all objects, the local repository and the absence of plain text in the store are judged by TLC. Fault positions are sampled; S3 is represented by the stand-in.'),
}
