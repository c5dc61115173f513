#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json (run by hand when a property is added)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, why, files, mech, observe):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=observe, hook_needed=None))


CLI = ['mairix command line: indexing run, then search with raw output (-r)']
PROPS = [
 P('C01', 'Word searches find exactly the messages containing the word',
   'After indexing, a search for a word in any selection of the fields To, Cc, From, Subject and body '
   '(t: c: f: s: b:, their groups r: and a:, or no selector for all five) lists exactly the indexed messages whose '
   'selected fields contain that word as a whole word in any letter case, each once. No message is missed and none '
   'is listed wrongly, whatever the mix of maildir, MH, mbox, MMDF and compressed folders it sits in, and a word '
   'found only in some other field or only inside an HTML tag does not match.',
   ['inputs'], 'every mail store and every word and field selector',
   'The shell tests search a dozen fixed messages for a handful of words; a tokeniser, field-mapping or posting-list '
   'error that needs other words, adjacent fields, many messages or other folder kinds is not reached.',
   ['tok.c', 'db.c', 'writer.c', 'reader.c', 'search.c', 'rfc822.c'],
   [('tokenise_string, char_map', 'db.c'), ('add_token_in_file, posting encodings', 'tok.c'),
    ('write_toktable, write_toktable2', 'writer.c'), ('mark_hits_in_table', 'search.c')], CLI),
 P('C02', 'How text is encoded never changes what is found',
   'Searches see the decoded text: for the same words in the same fields, the result does not depend on the transfer '
   'encoding of a body part (7bit, 8bit, quoted-printable, base64, x-uuencode), on RFC 2047 encoded words in headers, '
   'on header folding or the letter case of header names and MIME parameters, on line endings, or on how deep in '
   'multipart or attached-message structure (up to 90 levels) a text part sits. Parts that are not plain text or HTML contribute no '
   'words.',
   ['inputs'], 'every text and every encoding, folding and nesting of it',
   'The existing tests have one or two messages per encoding; soft line breaks, padding, split words, boundary '
   'prefixes and nesting combine without bound.',
   ['rfc822.c', 'nvp.c'],
   [('unencode_data, decode_qp, unencode base64', 'rfc822.c'), ('decode_header_value, copy_header_value', 'rfc822.c'),
    ('do_multipart, do_body', 'rfc822.c'), ('parse_content_type / make_nvp', 'nvp.c')], CLI),
 P('C03', 'Attachment-name and Message-ID searches are exact',
   'n: lists exactly the messages with an attachment whose file name (quoted, unquoted, RFC 2231 split or '
   'charset-tagged without a language tag, from Content-Disposition filename or Content-Type name) equals the given name ignoring letter '
   'case, and n:sub= those where it contains the text. m: lists exactly the messages whose whole Message-ID (or that '
   'of a message attached to them) equals the one given, never one that merely refers to it.',
   ['inputs'], 'every message with attachments, every file name form and every Message-ID',
   'Tests use few file names and ids; parameter syntax, continuation order and id/reference confusion need generated '
   'messages.',
   ['rfc822.c', 'nvp.c', 'nvp.nfa', 'tok.c', 'db.c', 'search.c'],
   [('nvp state machine and RFC 2231 combination', 'nvp.c'), ('handle_file / attachment tokenising', 'db.c'),
    ('tok2 flag for Message-ID versus thread ids', 'tok.c'), ('match_string_in_table2', 'search.c')], CLI),
 P('C04', 'Boolean queries compose exactly',
   'Every query denotes the set the manual defines: separate arguments intersect; within one argument a slash unites, a '
   'comma intersects and binds tighter, and a tilde complements a word; several field letters before the colon unite '
   'the fields. The listed messages are exactly that set over the indexed messages, for any mixture of word, size, '
   'date, flag and path terms.',
   ['inputs'], 'every query expression and mail store',
   'Tests try a few two-term queries; precedence, negation inside conjunctions, empty operands and many-term mixes '
   'need generated expressions against an evaluator.',
   ['search.c'],
   [('do_search: argument loop, and/or/not split', 'search.c'), ('hit0..hit3 combination', 'search.c')], CLI),
 P('C05', 'Substring and approximate matches find exactly the right words',
   'word= lists exactly the messages having in the selected fields a word that contains the text; word=N (N up to 4) '
   'exactly those having a word some part of which is within N insertions, deletions or replacements of the text; '
   '^word= only words that begin with the text. Matching ignores letter case and works for texts of 1 to 31 '
   'characters.',
   ['inputs'], 'every pattern, error count, field and vocabulary',
   'A bit-parallel matcher has many shift/mask states; tests run fewer than ten patterns.',
   ['search.c'], [('substring_match_0/1/2/3/general, build_match_vector', 'search.c'),
                  ('match_substring_in_table', 'search.c')], CLI),
 P('C06', 'Date searches select exactly the days they describe',
   'For every documented date expression (day, month, year, 6- and 8-digit dates, day/month/year mixes, N d/w/m/y '
   'before now, open and closed ranges in either order) d: selects exactly the messages whose Date day lies in the '
   'interval the expression denotes at the current time, counting from after the first day (which is excluded, as '
   'the test suite pins) to the last day inclusive. The result depends on the day written in the Date header, not on '
   'its time of day or zone.',
   ['inputs', 'configurations'], 'every message date, date expression and current time',
   'Tests fix a few dates in one year; month ends, leap years, year windows and relative forms depend on the current '
   'time and need a controlled clock.',
   ['dates.c', 'datescan.nfa', 'rfc822.c', 'search.c'],
   [('scan_date_string, parse_date_expr', 'dates.c'), ('parse_rfc822_date', 'rfc822.c'), ('find_date_matches_in_table', 'search.c')],
   CLI + ['clock supplied by a preloaded time()']),
 P('C07', 'Size and flag searches select exactly by size and flags',
   'z: selects exactly the messages whose size in bytes is strictly inside the given bounds (k and m suffixes, open '
   'ends, either order). F: selects exactly by the seen, replied and flagged state that the message carried when it '
   'was indexed, from the maildir file name or the mbox Status and X-Status headers, with a minus sign before a '
   'letter requiring the flag to be unset.',
   ['inputs'], 'every message size and flag combination, every z: and F: term',
   'Boundaries at every size and all flag combinations in every storage format are not in the tests.',
   ['search.c', 'rfc822.c', 'mbox.c', 'db.c', 'writer.c'],
   [('parse_size_range, find_size_matches_in_table', 'search.c'), ('find_flag_matches_in_table', 'search.c'),
    ('check_dirname / maildir name flags', 'db.c'), ('parse_mbox_status', 'rfc822.c')], CLI),
 P('C08', 'Path searches match on the stored location',
   'p:text lists exactly the messages whose file path, or whose containing mbox or IMAP folder, contains the text '
   'literally and case-sensitively, and composes with other terms and fields like any other match.',
   ['inputs'], 'every folder layout and path fragment',
   'Tests use one fragment; partial names, shared prefixes and mixtures with mbox need generation.',
   ['search.c'], [('find_match_in_paths', 'search.c')], CLI),
 P('C09', 'Thread search returns whole conversations and nothing else',
   'With -t a search lists exactly the messages connected to some directly matching message by any chain of shared '
   'identifiers in Message-ID, In-Reply-To and References, whatever the order in which the messages were indexed and '
   'whether a linking message is itself present in the store. It never joins unrelated messages (a deleted message may link '
   'threads until it is purged, but never brings one in by matching).',
   ['inputs', 'histories'], 'every reply graph, indexing order and split of indexing into runs',
   'One thread is tested; transitive merges, missing roots and incremental indexing need generated graphs.',
   ['tok.c', 'db.c', 'search.c', 'rfc822.c'],
   [('find_threading', 'db.c'), ('parse_references / message ids', 'rfc822.c'), ('do_search thread expansion', 'search.c')], CLI),
 P('C10', 'Incremental indexing equals indexing from scratch',
   'After any sequence of deliveries, deletions, renames, flag changes, in-place file changes (with changed size or '
   'time) and mbox appends, truncations and rewrites, each followed by an indexing run, every search gives the same '
   'messages as a database built from scratch from the current mail, and dead messages are never listed. This holds '
   'whichever of the runs also purged. (A change of a file changes its time or size; messages are appended to an mbox '
   'whole; a deleted message may go on linking the threads it linked until the next purge.)',
   ['histories'], 'every history of store changes and indexing runs',
   'Tests index once; stale entries, number re-use, partially changed mboxes and token remapping need histories.',
   ['db.c', 'mbox.c', 'reader.c', 'tok.c', 'dirscan.c'],
   [('update_database, check_message_list_for_changes', 'db.c'), ('build_mbox_lists, find_number_intact', 'mbox.c'),
    ('new_database_from_file', 'db.c')], CLI),
 P('C11', 'Purging drops dead messages and changes nothing else',
   'An indexing run with --purge removes exactly the messages that no longer exist; every search, including thread, '
   'path, date, size and flag searches, gives the same messages before and after the purge, and further incremental '
   'runs on the purged database behave as if it were fresh.',
   ['histories'], 'every set of deletions, in every position, before a purge',
   'Tests purge one fixed deletion; remapping of message numbers in every table needs all positions and histories.',
   ['db.c', 'mbox.c', 'tok.c'], [('cull_dead_messages, remap tables', 'db.c'), ('recode_encoding', 'db.c'),
                                 ('cull_dead_mboxen', 'mbox.c')], CLI),
 P('C12', 'Results do not depend on size, order or hash seed',
   'The set of messages a search lists is a function of the mail alone: it is the same for every hash seed the database may '
   'have been created with, for every order and batching in which folders were listed and indexed, for message numbers '
   'and gaps of any magnitude, and with or without integrity checking (-Q), fast indexing (-F) or verbose output.',
   ['configurations', 'inputs'], 'every hash key, folder order, batching and database size up to tens of thousands of messages',
   'Tests have a dozen messages and one key; the variable-length posting encoding has cases at 128 and 16384 messages.',
   ['tok.c', 'hash.c', 'reader.c', 'writer.c', 'search.c', 'db.c'],
   [('index encoding 1/2/4 bytes', 'tok.c, reader.c'), ('hashfn', 'hash.c'), ('check_database_integrity', 'db.c')], CLI),
 P('C13', 'Mailbox files split into exactly their messages',
   'Every mbox or MMDF file, compressed or not, is split into exactly the messages it holds: the reported byte range '
   'of each message starts after its separator line and ends before the next one. Body lines that look like '
   'separators without being valid ones, missing trailing blank lines, empty files and separator-like lines inside '
   'MIME parts never split, merge, lose or duplicate a message.',
   ['inputs'], 'every mailbox file content, format and compression',
   'Tests have a handful of mbox files; the separator automaton and its look-ahead have many states.',
   ['mbox.c', 'fromcheck.nfa', 'rfc822.c', 'xzfile.c'],
   [('build_new_message_list, looks_like_from_separator', 'mbox.c'), ('fromcheck automaton', 'fromcheck.nfa'),
    ('create_ro_mapping', 'rfc822.c')], CLI),
 P('C14', 'The result folder holds exactly the matches, byte for byte',
   'After a search, the mfolder contains exactly the matched messages and nothing left from earlier searches (with '
   '--augment: in addition to what was there), in valid maildir, MH or mbox form, with the content of each source '
   'message unchanged apart from the added X-source-folder header and mbox termination, and with maildir flags as '
   'indexed and unread messages in new/. (Augmenting is claimed for searches with no purge in between.) The exit status is 0 if something matched and 1 if nothing did, the printed count is right, and raw, '
   'excerpt, symlink and hard-link outputs all denote the same messages.',
   ['inputs', 'histories'], 'every store, query, result format, prior mfolder content and sequence of searches',
   'Tests check directory listings for a few searches; contents, stale files, augmenting and mbox copies need generation.',
   ['search.c', 'mairix.c'],
   [('do_output, clear_maildir_subfolder, clear_mh_folder, clear_mbox_folder', 'search.c'),
    ('try_copy_to_path, append_data_to_mbox, handle_vfolder creation', 'search.c')],
   ['mfolder directory contents', 'exit status', 'stdout count']),
 P('C15', 'The user\'s mail is never modified',
   'No invocation of mairix (indexing, purging, searching into any result format, augmenting, failing or killed) '
   'creates, changes, renames or deletes anything inside the mail folders it indexes; it writes only the database, '
   'its lock, and the result folder, and searching and dumping do not change the database. A search whose result folder is '
   'one of the indexed folders is refused before anything is touched. (The configured result folder does not lie inside an indexed folder.)',
   ['inputs', 'histories', 'configurations'], 'every configuration, store and sequence of invocations',
   'Tests never compare the mail folders before and after, nor reuse link-filled result folders.',
   ['search.c', 'mairix.c', 'glob.c', 'dirscan.c'],
   [('check_if_mfolder_is_indexed', 'mairix.c / glob.c'), ('unlink before write', 'search.c')],
   ['snapshot (path, type, mode, size, mtime, bytes) of the mail tree before and after']),
 P('C16', 'Stale mailbox offsets never yield wrong mail',
   'If an mbox file changed after it was indexed, a search that copies messages out of it emits each matched message '
   'either byte for byte as it was indexed or not at all (with a warning), never a fragment of something else, and '
   'never crashes.',
   ['histories', 'inputs'], 'every change of an mbox between indexing and searching',
   'No test changes an mbox between the two steps.',
   ['search.c', 'mbox.c', 'md5.c'], [('get_mbox_offset / mbox_msg_is_intact checksum', 'search.c')],
   ['mfolder contents against the bytes at indexing time']),
 P('C17', 'Exactly the configured folders are indexed',
   'The folders indexed are exactly those denoted by the maildir, mh and mbox lists relative to base: literal names, '
   'wildcards (*, ?, [...]) in the last component, recursive "..." and escaped colons, minus everything matched by omit '
   '(where * stops at a slash and ** does not) or lying in an omitted directory that a wildcard or "..." entry would have to pass through. '
   'MH folders are recognised by their marker files, and an mbox that is a symbolic link counts only with follow_mbox_symlinks. '
   'Within a folder every message file is indexed and nothing else is.',
   ['configurations', 'inputs'], 'every directory tree, folder pattern list and omit list',
   'Tests use literal folder names mostly; pattern matching and recursion need generated trees.',
   ['glob.c', 'dirscan.c', 'mairix.c', 'mbox.c'],
   [('glob matcher', 'glob.c'), ('scan_directory, filter_maildir/mh', 'dirscan.c'), ('build_message_list', 'dirscan.c'),
    ('glob_and_expand_paths', 'mbox.c')], CLI),
 P('C18', 'No mail, mailbox or query crashes mairix or hides other mail',
   'Whatever bytes the indexed files and mailboxes contain and whatever is searched for, indexing, searching, dumping and purging terminate with a documented '
   'exit status, without memory errors, undefined behaviour, assertion failures or hangs, and a malformed message '
   'never prevents the other messages from being indexed and found.',
   ['inputs'], 'every byte string as message, mailbox, compressed mailbox or search expression',
   'Tests contain well-formed mail.',
   ['rfc822.c', 'nvp.c', 'mbox.c', 'tok.c', 'db.c', 'reader.c', 'search.c'],
   [('data_to_rfc822, header and body parsers', 'rfc822.c'), ('nvp scanner', 'nvp.c'), ('mbox parser', 'mbox.c')],
   ['exit status and sanitizer reports of an ASan/UBSan build']),
 P('C19', 'The database lock gives mutual exclusion and is always released',
   'While one mairix holds the database lock, any other mairix on the same database refuses to run and changes '
   'nothing; when a run ends, normally, with an error or by a hang-up, interrupt or quit signal, no lock file is left behind and the '
   'next run proceeds. Of any number of runs started together each either works on the database alone or '
   'exits with the lock message, and the database stays valid.',
   ['schedules', 'fault_sequences'], 'every interleaving of concurrent runs and every termination point',
   'Tests never run two at a time or kill one.',
   ['dotlock.c', 'mairix.c'], [('lock_database, unlock_database, unlock_and_exit', 'dotlock.c'),
                               ('signal handlers', 'mairix.c')],
   ['exit status, lock files, database contents']),
 P('C20', 'IMAP mail is indexed, found and delivered like local mail',
   'Messages in the listed IMAP folders are found by words, fields, attachment names, Message-IDs, dates, folder names and threads '
   'exactly like the same messages in a local folder, and after an indexing run exactly the messages then on the server and not marked deleted '
   'are searchable, whatever was added, expunged, flagged or renumbered since the last run and whatever went wrong with the server then. A search '
   'delivers the matched messages byte for byte into a local result folder, and leaves in an IMAP result folder exactly the matched '
   'messages (added to what was there with --augment), creating it if need be. Source folders on the server are never changed (an '
   'indexed IMAP folder is refused as result folder), and a lost connection, refused login or refused command never crashes mairix or leaves a lock.',
   ['inputs', 'histories', 'fault_sequences'], 'every IMAP folder content and history, server behaviour within the protocol, and every query',
   'The existing tests have no IMAP server.',
   ['imap.c', 'imapinterface.c', 'db.c', 'search.c', 'mairix.c'],
   [('scan_folder, imap_fetch_message_raw', 'imapinterface.c'), ('imap_ll_waitline, format_cmd, imap_select', 'imap.c'),
    ('imap_clear_folder, imap_copy_message, imap_append_new_message', 'imapinterface.c')],
   ['a scripted IMAP server on imap_pipe, recording all commands']),
 P('C21', 'Configuration is read as documented',
   'Settings take effect as documented whatever their order, letter case, indentation and comments in the rc file: $HOME, ~, '
   '$VAR and ${VAR} expand, the MAIRIX_* environment variables override the file, -o/-f name the mfolder and rc file, and '
   'absolute, relative and escaped names denote the right files. A missing rc file, base, database, folder list or needed mfolder, an unknown '
   'option or an option without its argument is reported with a non-zero exit status and nothing is indexed or written.',
   ['configurations'], 'every rc file built from the documented settings, and every overriding environment',
   'Tests use one fixed rc file.',
   ['mairix.c', 'expandstr.c', 'rcfile parser'], [('parse_rc_file, copy_value', 'mairix.c'), ('expand_string', 'expandstr.c')],
   CLI),
 P('C22', 'Sorting orders results by date without changing the set',
   'With sort=date+ the listed messages are the same set as without it, in non-decreasing order of message '
   'date, for every output format that has an order.',
   ['inputs'], 'every set of message dates and every query',
   'Sorting is not covered by tests.',
   ['search.c'], [('comparator and qsort in do_output', 'search.c')], CLI),
 P('C23', 'A database that is not whole is refused, never believed',
   'A database file that was cut short, grown, emptied or replaced by something else, or that has another format version or byte order, is refused '
   'by every search, dump and indexing run with a message and a non-zero exit status, and is left as it is. If an indexing or purging run is '
   'killed or interrupted at any point, every later run (with --unlock where a lock was left) either refuses the database likewise or gives '
   'exactly the results of the complete old or the complete new index, and never crashes; after the file is deleted, indexing again gives the complete index.',
   ['crash_points', 'inputs'], 'every truncation or replacement of the database, and every point at which an indexing run can be killed',
   'Tests never damage a database and never interrupt a run; the half-written states exist only for moments.',
   ['writer.c', 'reader.c', 'db.c', 'mairix.c'],
   [('open_db: magic number, version, byte order, length and table bounds', 'reader.c'), ('write_database, create_rw_mapping', 'writer.c'),
    ('handlesig', 'dotlock.c')],
   ['exit status, stderr and listed messages after damage, or after a kill injected by a preloaded shim']),
 P('C24', 'The dump shows the whole index, and the index is exactly what the mail says',
   'mairix --dump changes nothing and lists every message in the database with its place, size, flags and thread, every mailbox with its '
   'number of messages, and every word of the To, Cc, From, Subject, body, attachment-name and message-identifier tables with the numbers of '
   'exactly the messages that have it there, in increasing order, each word once per table. After any history of mail changes and indexing runs '
   'the living messages listed are exactly those in the configured folders with the words, flags, sizes and threads they then have, and '
   'after a purge there is no dead message and no word without a message.',
   ['inputs', 'histories'], 'every mail store and every history of changes and indexing runs',
   'Tests compare the dumps of a few fixed mailboxes; no histories, dead messages or purges.',
   ['dumper.c', 'db.c', 'tok.c', 'writer.c', 'reader.c', 'mbox.c'],
   [('dump_database, dump_token_chain', 'dumper.c'), ('tokenise_message, recode_toktable', 'db.c'), ('write_database', 'writer.c'),
    ('int_list_reader_read', 'reader.c')], CLI),
 P('C25', 'A failing system call or allocation does no lasting harm',
   'If memory runs out or the opening, mapping, creating, writing or removing of a file fails during a run on local mail (no space, too many '
   'open files, an I/O error), mairix never dies of a signal, leaves no lock, and changes nothing in the mail; an indexing or purging run that '
   'reports failure leaves a database that is the complete old or new one or is refused, and a search or dump leaves the database alone. A run that '
   'reports success (exit status 0, or 1 for no match) and says nothing has done its whole work. When the run is repeated '
   'after the trouble is over, every search is exact again and the result folder is right: no message stays lost or wrongly indexed because it could not '
   'be read once. (Folders and files that cannot even be looked at count as absent in that run.)',
   ['inputs', 'fault_sequences'], 'every failing call, alone or with all later ones of its kind, in every indexing, purging, searching and dumping run',
   'Failing calls do not occur in tests.',
   ['mairix.c', 'rfc822.c', 'search.c', 'writer.c', 'reader.c', 'db.c', 'mbox.c', 'dotlock.c'],
   [('create_ro_mapping, make_rfc822', 'rfc822.c'), ('out_of_mem', 'mairix.c'), ('create_rw_mapping, write_database', 'writer.c'),
    ('try_copy_to_path, create_symlink, do_search', 'search.c'), ('scan_new_messages', 'db.c'), ('build_mbox_lists', 'mbox.c')],
   ['exit status, stderr, lock, mail, database and result folder after faults injected by a preloaded shim']),
]

LEVELS = json.load(open(os.path.join(V, 'tools', 'levels.json')))
if __name__ == '__main__':
    done = [p for p in PROPS if os.path.exists(os.path.join(V, 'props', p['id'] + '.py'))]
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    checks = []
    for p in done:
        l = LEVELS.get(p['id'], {})
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'],
                           thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'],
                           evidence_file='evidence/%s.json' % p['id'],
                           technique=l.get('technique', 'property-based testing against a reference model'),
                           level=l.get('level', 'exploration'),
                           level_note=l.get('note', 'random search from VERIF_SEED; no proof')))
    na = [dict(property=p['id'], reason='the check is not built yet') for p in PROPS if p not in done]
    m = dict(version=1, setup_cmd='python3 lib/build.py', checks=checks, not_applicable=na,
             notes='No hooks: every check drives the real binary built from the working tree.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
