#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))
SIM = 'exec, log, mail and file events of the real daemon on a simulated clock'
NOT = 'The tests only check four line parsers, the list container and mail address formatting; '

prop('P01', 'Lines with minute fields run in exactly the minutes the fields denote',
 'A job given by minute, hour, day of month, month and day of week (with dayand/dayor, names, ranges, steps, exclusions, runfreq, jitter, tzdiff and timezone) is started once in every local minute that matches its fields while the daemon is up, and at no other time. '
 'This holds over years, month lengths, restarts and reloads of other users\' files. At a daylight saving change, a repeated local time runs once, a skipped one leads to one start soon after the change, and every other matching minute runs as usual.',
 ['inputs', 'configurations', 'histories'], 'all time fields and options, all time zones, all start dates, all restart points',
 NOT + 'no test ever computes a next execution time.',
 ['database.c', 'fileconf.c', 'fcron.c'],
 [('search of the next matching date', 'database.c:set_next_exe'), ('day of month/week rule', 'database.c:goto_non_matching, is_leap_year, get_nb_mdays'),
  ('field parsing', 'fileconf.c:read_field'), ('queue sorted by next execution', 'database.c:insert_nextexe')],
 [('cl_nextexe', 'next time a line is due', 'global.h')], [SIM])

prop('P02', 'A %-line runs once, and only once, in each of its periods',
 'A line of kind hourly, daily, weekly, monthly (also mid- and nightly) or of a list of fields is started at most once in each of its periods, and exactly once in each period whose allowed time the daemon was up for. '
 'Every start lies inside an allowed time of its own period, unless the load kept it waiting beyond the period. The memory of the run survives restarts, so that a job already run in a period is not run again in it.',
 ['inputs', 'histories'], 'all period lines and options, all start dates and time zones, all restart points, loads and run times',
 NOT + 'period arithmetic and its persistence are never run.',
 ['database.c', 'fileconf.c', 'conf.c'],
 [('start of the next period', 'database.c:set_next_exe_notrun, set_next_exe, goto_beginning_next_period_periodical'), ('queueing under lavg', 'database.c:add_lavg_job, check_lavg'),
  ('line keywords', 'fileconf.c:read_period, read_shortcut')],
 [('cl_nextexe', 'start of the next allowed interval', 'global.h')], [SIM])

prop('P03', 'An @-line runs each time the machine has been up for its delay, across restarts',
 'A job given by a frequency is first started after its first() delay (or its frequency) of daemon uptime, and then every frequency; time during which the daemon is down or the machine is suspended does not count, except for volatile lines, which start afresh. '
 'The remaining delay is remembered across restarts to within the interval of the periodic save. Options reboot reset, runatreboot, runonce and volatile act exactly as documented.',
 ['inputs', 'histories', 'crash_points'], 'all delays and options, all restart, kill and suspend points',
 NOT + 'elapsed time, restarts and reboot detection are never run.',
 ['fcron.c', 'conf.c', 'database.c', 'fileconf.c'],
 [('remaining delay saved and restored', 'conf.c:save_one_file, read_file, add_line_to_file'), ('next execution of a frequency', 'database.c:set_next_exe'),
  ('reboot detection', 'fcron.c:main, conf.c:add_line_to_file')],
 [('cl_remain, cl_timefreq, cl_nextexe', 'delay left, delay, absolute due time', 'global.h')], [SIM])

prop('P04', 'What was due while the daemon was down is run or reported as asked',
 'A line with bootrun whose due minute passed while the daemon was down is run exactly once after the start, and a line without it is not run for the past. '
 'A line with noticenotrun leads to exactly one mail to its owner naming the job, since when it has not run and when it will run next, and other lines to none.',
 ['histories', 'inputs'], 'all down intervals, lines and options',
 NOT + 'a restart is never run.', ['conf.c', 'database.c', 'job.c'],
 [('detection at start', 'conf.c:add_line_to_file'), ('mail of missed runs', 'database.c:mail_notrun, mail_notrun_time_t'), ('boot run', 'database.c:add_serial_job')],
 [('cl_nextexe', 'due time found in the spool', 'global.h')], [SIM])

prop('P05', 'Concurrency: no overlap of a job with itself, bounded and fair serial queue',
 'A job never runs twice at once, nor waits twice in a queue, unless exesev (for queued jobs: serialonce or lavgonce set to false) allows it; skipped runs are not made up. At most the configured number of serial jobs runs at once, they start in the order in which they became due, and whenever a slot is free and a serial job waits, it starts. '
 'No schedule, queue length, failed fork, reload or removal of a running or waiting job loses a slot, another queued job, or the order.',
 ['schedules', 'histories', 'fault_sequences'], 'all mixes of serial and other jobs, run times, queue sizes, fork failures, reloads',
 NOT + 'the scheduler is never run.', ['database.c', 'fcron.c', 'job.c', 'conf.c'],
 [('circular queue', 'database.c:add_serial_job, run_serial_job'), ('end of jobs', 'database.c:wait_chld, wait_all'), ('removal', 'conf.c:delete_file, remove_from_pipes')],
 [('serial_array, serial_running, serial_num', 'circular queue and its counters', 'fcron.c'), ('cl_numexe', 'copies of a line queued or running', 'global.h')], [SIM])

prop('P06', 'Load average lines wait for the load, and not beyond their limit',
 'A line with load limits is started only when the load averages it names are below its limits (any one of them with lavgor, all with lavgand), checked at a bounded interval; until then it waits. '
 'When its until() delay has passed it is started whatever the load; a %-line still waiting at the end of its interval is dropped, or with strict(false) goes on waiting; waiting lines do not hold up others, and a removed file\'s waiting lines never start.',
 ['schedules', 'inputs', 'fault_sequences'], 'all load histories, limits and options, across reloads and restarts',
 NOT + 'the load queue is never run.', ['database.c', 'fcron.c', 'getloadavg.c', 'lavg_list.c'],
 [('load queue', 'database.c:check_lavg, add_lavg_job'), ('list', 'lavg_list.c')],
 [('lavg_list', 'jobs which wait for a lower load', 'fcron.c')], [SIM])

prop('P07', 'Reloads: changes take effect promptly, everything else goes on undisturbed',
 'After the daemon is told of a change, each new, replaced or removed fcrontab takes effect at once and completely: new lines run, removed ones never start again, unchanged lines keep their schedule and their running jobs are reaped and mailed. '
 'A reload request is never lost, whenever it comes, and reloading everything or a stop loses no line and no remaining delay.',
 ['schedules', 'histories'], 'all times of signals relative to other work, all combinations of changed files',
 NOT + 'signals and reloads are never run.', ['fcron.c', 'conf.c'],
 [('signal flags', 'fcron.c:check_signal, sighup_handler'), ('synchronisation with the spool', 'conf.c:reload_all, synchronize_dir, synchronize_file'), ('end', 'fcron.c:xexit')],
 [('sig_conf, sig_chld', 'pending requests', 'fcron.c'), ('file_base', 'files the daemon runs', 'fcron.c')], [SIM])

prop('P08', 'Saving state is atomic: a crash or full disk never loses or corrupts a fcrontab',
 'At whatever instant the daemon or fcrontab is killed, and whichever system call fails (disk full, I/O error, interrupted or short write), each user\'s compiled fcrontab in the spool is either the complete previous version or the complete new one, and the next start of the daemon schedules all of it. '
 'State written by a run that ended well is read back unchanged by the next: same lines, options, due times and remaining delays.',
 ['crash_points', 'fault_sequences'], 'every system call of the save and install paths, as a kill point and as a failing call',
 NOT + 'no file is ever saved and no fault injected.', ['save.c', 'conf.c', 'fcrontab.c', 'filesubs.c'],
 [('write to a temporary, sync, rename', 'save.c:save_file_safe, write_buf_to_disk'), ('install', 'fcrontab.c:make_file, install_stdin; fileconf.c:save_file')],
 [('spool files', 'user, user.orig, new.user, rm.user, tmp files', 'spool directory')], ['spool contents after each crash or fault', SIM])

prop('P09', 'A damaged or hostile spool file cannot crash, corrupt or subvert the daemon',
 'Whatever bytes a compiled fcrontab in the spool contains, the daemon keeps running without memory errors, hangs or unbounded allocation, rejects or safely limits what is malformed, and goes on running the other users\' jobs on time. '
 'No such file makes it run a job under another account than the file\'s owner, unless the owner is root.',
 ['inputs'], 'all byte strings as spool files; all file types, owners and names in the spool',
 NOT + 'no compiled file is ever read.', ['conf.c'],
 [('bounded reads', 'conf.c:read_file, read_strn, read_type'), ('owner and type checks', 'conf.c:read_file, synchronize_dir')],
 [('cf_t', 'in-memory file', 'global.h')], [SIM])

prop('P10', 'What a valid fcrontab says is what is scheduled, whatever its layout',
 'Each documented form of line, option, shortcut, comment, continuation, quoting, environment assignment and global option compiles without complaint and means what the manual says, with options set globally, per line, and reset in any order. '
 'The schedule, command, options and environment taken up by the daemon are those the text denotes, and equivalent spellings compile to the same schedule.',
 ['inputs', 'programs'], 'all fcrontabs of the documented grammar',
 NOT + 'a few handpicked lines for four parsers.', ['fileconf.c', 'option.h', 'conf.c', 'save.c'],
 [('parser', 'fileconf.c:read_file, read_opt, read_freq, read_arys, read_period, read_shortcut, read_env'), ('compiled form', 'save.c, fileconf.c:save_file; conf.c:read_file')],
 [('default_line', 'options in force', 'fileconf.c')], ['compiled file decoded, and the daemon\'s behaviour on it'])

prop('P11', 'Malformed fcrontabs are reported by line and never do harm',
 'Whatever bytes a fcrontab contains, fcrontab ends in bounded time without memory errors or undefined behaviour. A line with an invalid element is reported with its file and line number and is not scheduled (an option which is unknown or not permitted is reported and may be left out of a line which is kept), nor is any value out of range accepted or silently changed, and the valid lines around it are installed as if it were absent.',
 ['inputs'], 'all byte strings as fcrontabs',
 NOT + 'eight malformed lines in all.', ['fileconf.c', 'subs.c'],
 [('validation', 'fileconf.c:read_field, get_num, get_time, get_nice, get_string'), ('line reading', 'fileconf.c:get_line')],
 [('need_correction', 'an error was reported', 'fileconf.c')], ['sanitizer reports, messages, compiled file'])

prop('P12', 'fcrontab installs, lists, edits and removes exactly what was asked',
 'After an install, edit or reinstall the listed text is byte for byte the text given and the scheduled jobs are those of that text; after a removal there are neither; an empty, failed or aborted edit changes nothing. '
 'No operation changes another user\'s fcrontab, and when an operation reports an error the earlier fcrontab is still listed and scheduled, or the new one is wholly in force.',
 ['histories', 'inputs'], 'all sequences of operations by several users with the daemon running',
 NOT + 'the program is never run.', ['fcrontab.c', 'filesubs.c', 'temp_file.c', 'fileconf.c'],
 [('operations', 'fcrontab.c:list_file, remove_fcrontab, copy_src, make_file, install_stdin, edit_file, reinstall')],
 [('user.orig, new.user, rm.user', 'source, pending install, pending removal', 'spool directory')], ['exit codes, output, spool and daemon behaviour'])

prop('P13', 'No user gains another\'s rights or touches another\'s files through fcron',
 'A user other than root can list, change or remove only the own fcrontab, run jobs only under the own account, and read or write through fcrontab only files that the account itself could. '
 'Only root may use runas or act for other users or for the system fcrontab, and neither links, odd names, environment nor configuration arguments change that.',
 ['inputs', 'histories', 'configurations'], 'all command lines, environments, file names and link arrangements of an unprivileged user',
 NOT + 'privileges are never exercised.', ['fcrontab.c', 'subs.c', 'filesubs.c', 'fileconf.c', 'conf.c', 'job.c'],
 [('identity switching', 'subs.c:seteuid_safe, setegid_safe, become_user; filesubs.c:open_as_user'), ('runas rule', 'fileconf.c:read_opt, save_file; conf.c:read_file')],
 [('uid, asuid', 'invoking and target user', 'fcrontab.c')], ['files, identities and messages of real set-id style runs'])

prop('P14', 'Each job runs its command with the right account, environment and isolation',
 'A job is run by the shell in force with exactly its command, with the real, effective and saved user and group ids and the supplementary groups of its account and no others, in its home directory, with the documented environment overridden by the fcrontab\'s assignments, its nice value, a clean signal state and session, and no descriptor of the daemon open. '
 'The daemon\'s own environment, and that of other lines and users, never leaks into it, and when the account cannot be assumed the command is not run.',
 ['inputs', 'configurations', 'fault_sequences'], 'all environments, accounts, shells, options and failing system calls',
 NOT + 'no job is ever run.', ['job.c', 'env_list.c', 'subs.c'],
 [('account', 'job.c:change_user_setup_env'), ('run', 'job.c:run_job, run_job_grand_child_setup_stderr_stdout'), ('environment list', 'env_list.c')],
 [('env_list_t', 'environment of a job', 'env_list.h')], [SIM])

prop('P15', 'Job output is mailed whole, to the right recipient, exactly when it should be',
 'When a job ends, exactly one mail is sent if the options ask for it (output present, or a non-zero exit with erroronlymail, or forcemail, and mail not disabled), otherwise none; it carries all of the output, byte for byte, the exit status where documented, and goes to mailto or to the owner, run with the owner\'s rights. '
 'No command, environment or option text can add or forge a header or an argument of the mailer.',
 ['inputs', 'configurations', 'fault_sequences'], 'all output sizes, exit statuses, options, names and environments',
 NOT + 'only two address helpers on a few names.', ['job.c', 'mail.c'],
 [('output file and mail', 'job.c:create_mail, end_job, end_mailjob, launch_mailer, read_write_pipe'), ('address formatting', 'mail.c:format_displayname, make_mailbox_addr')],
 [('cl_mailpos, cl_mailfd', 'end of the headers in the output file', 'global.h')], [SIM])

prop('P16', 'fcrondyn shows and does exactly what its user may see and asked for',
 'Every listing shows exactly the jobs of the requested user and kind that the caller may see, with their true ids, owners, due times and states; running, signalling, renicing or rescheduling a job acts on the job named and no other, and the answer tells what happened. '
 'A user other than root can neither see nor touch the jobs of others, and no command starts, skips or reschedules jobs beyond what it is documented to.',
 ['histories', 'schedules'], 'all command sequences by several users against all daemon states',
 NOT + 'one helper that prints a line.', ['fcrondyn_svr.c', 'fcrondyn.c'],
 [('commands', 'fcrondyn_svr.c:exe_cmd, cmd_ls, cmd_on_exeq, cmd_run, cmd_send_signal, cmd_renice'), ('access', 'fcrondyn_svr.c:Test_add_field, print_line')],
 [('fcrondyn_cl_t', 'a client', 'fcrondyn_svr_priv.h')], ['answers on the socket and ' + SIM])

prop('P17', 'No client of the control socket can crash, block, bypass or starve the daemon',
 'Whatever bytes, fragments, delays and disconnections clients produce, the daemon runs its jobs on time without memory errors, answers well-formed clients, and stays within its connection limits. '
 'Before a correct password or proof of identity no command is executed; after too many failures no password is accepted for a while, and connections idle or unauthenticated beyond their limits are closed when the daemon next wakes up.',
 ['inputs', 'schedules', 'histories'], 'all byte streams and timings of many clients',
 NOT + 'no connection is ever made.', ['fcrondyn_svr.c', 'select.c', 'fcron.c'],
 [('server loop', 'fcrondyn_svr.c:check_socket, auth_client_password, auth_client_so_peercred, remove_connection'), ('descriptor sets', 'select.c')],
 [('fcrondyn_cl_base, fcrondyn_cl_num', 'connected clients', 'fcrondyn_svr.c')], ['answers on the socket and ' + SIM])

prop('P18', 'Access files decide who may use fcrontab and fcrondyn, exactly',
 'A user may use the tools if and only if the documented rule over the allow and deny files says so: entries match whole names, "all" stands for everyone, a name beats "all", and deny beats allow. '
 'No order, spacing, comment, missing newline or line length in the files changes the outcome, and an unreadable file never grants access.',
 ['inputs', 'configurations'], 'all contents and presence combinations of the two files, all names',
 NOT + 'the rule is never evaluated.', ['allow.c'],
 [('rule', 'allow.c:is_allowed, in_file')], [], ['outcome of real fcrontab runs'])

prop('P19', 'The configuration file is obeyed exactly and only when it is trustworthy',
 'Each documented name sets its own value and nothing else, unknown names and malformed lines are reported without changing any value, absent names keep their defaults, whatever the order, spacing, comments and length of lines. '
 'A configuration file that is not owned by root or that others can write is not obeyed, and an unprivileged user can make the set-id tools use neither one of his own nor the default values instead of the installed one.',
 ['inputs', 'configurations'], 'all configuration texts, owners and modes',
 NOT + 'no configuration is ever read.', ['fcronconf.c', 'subs.c'],
 [('reader', 'fcronconf.c:read_conf'), ('string helpers', 'read_string.c, subs.c:remove_blanks, get_word')], [], ['paths the tools then use, messages'])

prop('P20', 'Suspending the machine shifts delays and loses no due run',
 'After a suspend of the machine, or of the daemon, time-based lines whose due time passed are treated as after a downtime, delays of frequency lines do not count the suspended time, and all other lines keep their times, whether or not a resume notice is given. '
 'Repeated and overlapping suspends, clock changes and late wake-ups cause neither bursts of duplicate runs nor endless waits.',
 ['schedules', 'histories'], 'all suspend times and lengths, with and without notice, clock jumps',
 NOT + 'no suspend is ever simulated.', ['suspend.c', 'fcron.c', 'database.c'],
 [('detection', 'suspend.c:check_suspend, init_suspend'), ('shift of times', 'suspend.c; fcron.c:main_loop')],
 [('slept_from, monotonic timer', 'start and end of a suspend', 'suspend.c')], [SIM])

prop('P21', 'At most one daemon per spool, and its pid file always tells the truth',
 'Of any number of daemons started on one configuration, at any interleaving, at most one runs jobs; the others end with an error without disturbing it. '
 'While it runs, the pid file holds its pid; an orderly end removes the file, and a stale file left by a crash never keeps a new daemon from starting.',
 ['schedules', 'crash_points', 'histories'], 'all interleavings of starts and ends, all stale or damaged pid files',
 NOT + 'the daemon is never started.', ['fcron.c', 'fcronsighup.c', 'fcrontab.c'],
 [('lock', 'fcron.c:get_lock'), ('reader', 'fcronsighup.c:read_pid')], [('pid file', 'lock and pid of the daemon', 'pidfile')], ['real concurrent daemons, pid file'])

prop('P22', 'Long runs do not leak descriptors, children or memory',
 'However many jobs, mails, reloads, connections and failures a daemon has been through, once things are quiet again its open descriptors, child processes, memory in use and temporary files are what they were at the start with the same fcrontabs. '
 'Every child is reaped.',
 ['histories', 'fault_sequences'], 'all histories of work and failures',
 NOT + 'no run lasts beyond one call.', ['fcron.c', 'conf.c', 'job.c', 'database.c', 'fcrondyn_svr.c'],
 [('release of lines, files and clients', 'conf.c:delete_file, free_line; fcrondyn_svr.c:remove_connection'), ('reaping', 'database.c:wait_chld')], [], ['descriptor table, allocator statistics and child table at quiet points'])

prop('P23', 'Internal queues keep every element, in order, under any sequence of operations',
 'The containers for waiting and running jobs, load-queued lines and environment settings return exactly the elements put in and not removed, in the order specified (if one is), for every sequence of insertions, removals (also of the current element during a traversal) and traversals, across every growth of the container. '
 'Insertion beyond the configured maximum is refused without harm.',
 ['histories'], 'all operation sequences and sizes',
 'The tests hold one container up to 100 elements with a fixed sequence; removal during traversal is barely covered.', ['u_list.c', 'exe_list.c', 'lavg_list.c', 'env_list.c', 'database.c'],
 [('unordered list', 'u_list.c'), ('serial queue', 'database.c:add_serial_job, run_serial_job')], [], ['direct calls of the containers against a list model'])

prop('P24', 'After fcrontab returns, the running daemon picks the change up in time',
 'Every successful install or removal makes the daemon reload within the documented delay, whoever did it; root\'s changes at once, those of others after the short configured delay; only the daemon named in the pid file is ever signalled. '
 'A missing, malformed or hostile pid file leads to an error message and never to a signal to any other process group or process.',
 ['inputs', 'schedules'], 'all pid file contents, times within the minute, callers',
 NOT + 'the notifier is never run.', ['fcronsighup.c', 'fcrontab.c'],
 [('signal', 'fcronsighup.c:main, sig_daemon, read_pid, is_system_reload_allowed')], [], ['recorded kill calls and daemon behaviour'])

NA = {}
CHECKS = {}
def claim(id, technique, level, note):
    CHECKS[id] = (technique, level, note)
exec(open(os.path.join(V, 'tools', 'claims.py')).read())

with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
m = dict(version=1, setup_cmd='python3 sim/build.py asan ubsan',
         hooks=dict(guard='FCRON_VERIF', enable='no hooks in /repo: the checks link the unchanged sources against sim/shim.c with the linker\'s --wrap', source_commits=[]),
         checks=[], not_applicable=[])
for p in P:
    i = p['id']
    if i in CHECKS:
        t, l, n = CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                                technique=t, level=l, level_note=n))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'runtime monitoring applies, but its check is not built yet')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties,', len(m['checks']), 'claimed')
