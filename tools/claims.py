claim('P01', 'runtime monitoring: real daemon on a simulated clock (UBSan, ASan), trace checked against a minute-by-minute calendar', 'exploration',
      'Holds on the fcrontabs, dates, zones and restart points sampled; trusts glibc localtime and the libc shim; sanitizers see only what runs.')
claim('P05', 'runtime monitoring: real daemon on a simulated clock (ASan, UBSan), trace followed by a model of the queues', 'exploration',
      'Holds on the job mixes, faults and histories sampled (thousands of queued jobs per run); ties within a second may be in any order.')
claim('P06', 'runtime monitoring: real daemon on a simulated clock and load (ASan, UBSan), trace followed by a model of the waiting lines', 'exploration',
      'Holds on the load histories, lines and restart points sampled; the load is what the shim returns from getloadavg.')
claim('P02', 'runtime monitoring: real daemon on a simulated clock (UBSan, ASan), starts checked against a reference of the periods', 'exploration',
      'Holds on the lines, dates, zones and restart points sampled; periods around a change of the UTC offset are only checked for crashes.')
claim('P03', 'runtime monitoring: real daemon on a simulated clock (UBSan, ASan), starts checked against uptime counters', 'exploration',
      'Holds on the lines and session sequences sampled; after a kill the counters are checked to within the save interval.')
claim('P04', 'runtime monitoring: real daemon on a simulated clock (UBSan, ASan), runs and notice mails checked against a calendar of what was missed', 'exploration',
      'Holds on the lines, zones, down times and boots sampled; zones with offset changes are left to P01.')
claim('P14', 'runtime monitoring: real daemon (ASan, UBSan), identity, environment, descriptors and signals of every process it starts recorded at exec and compared', 'exploration',
      'Holds on the users, options, environments and faults sampled; identity calls are recorded by the shim, the kernel is trusted.')
claim('P15', 'runtime monitoring: real daemon (ASan, UBSan), every mail handed to the mailer recorded and compared with a model of the mail rules', 'exploration',
      'Holds on the options, outputs and results sampled; the mailer itself is simulated.')
claim('P07', 'runtime monitoring: real daemon on a simulated clock (ASan, UBSan), reload requests at any system call, trace checked against the lines in force', 'exploration',
      'Holds on the install and signal histories sampled; while a full reload waits for jobs, only that due lines run once it ended is checked.')
claim('P09', 'runtime monitoring: real daemon (ASan, UBSan) given damaged and hostile compiled fcrontabs, jobs and identities of every user recorded', 'exploration',
      'Holds on the mutated and generated spool files sampled; unbounded allocation is watched through limits on memory and time.')
claim('P08', 'runtime monitoring with fault injection: real daemon and fcrontab (ASan, UBSan) killed or given errors at system calls, spool parsed and a fresh daemon run after each', 'exploration',
      'Holds on the faults and histories sampled; a crash is the end of the process: what the kernel accepted is kept.')
claim('P10', 'runtime monitoring: real fcrontab (ASan, UBSan) compiling generated fcrontabs in many spellings, result compared field by field with an independent reading, and runs of the real daemon compared with it', 'exploration',
      'Holds on the fcrontabs sampled; the meaning of a line is read from the manual page, including its documented oddities.')
claim('P11', 'runtime monitoring: real fcrontab and daemon (ASan, UBSan) given invalid lines between valid ones, mutated and random bytes; reports, compiled values and harm observed', 'exploration',
      'Holds on the classes of invalid lines and the bytes sampled.')
claim('P12', 'runtime monitoring with fault injection: real fcrontab (ASan, UBSan) in random histories of operations and scripted editors; listings, files of others and runs of the real daemon checked after each', 'exploration',
      'Holds on the histories, editors and single faults sampled; kills belong to P08.')
claim('P13', 'runtime monitoring: real fcrontab (ASan, UBSan) with the ids its set-id bits give, under attacks; files, outputs, ids and descriptors of what it starts, and runs of the real daemon observed', 'exploration',
      'Holds on the attacks sampled; the kernel enforces permissions, changes of ids are the real ones, accounts are simulated.')
claim('P18', 'runtime monitoring with fault injection: real fcrontab and fcrondyn (ASan, UBSan) before generated access files, who is let in compared with the documented rule', 'exploration',
      'Holds on the files, users and faults sampled.')
claim('P19', 'runtime monitoring: real fcrontab, fcrondyn and fcron (ASan, UBSan) under generated configuration files; files opened, programs started, mails and reports compared with an independent reading', 'exploration',
      'Holds on the files, owners and modes sampled; suspendfile has no effect on Linux, so only that it disturbs nothing is seen.')
claim('P24', 'runtime monitoring with fault injection: real fcrontab and fcronsighup (ASan, UBSan; real set-id bits) interleaved at system calls and attacked by their users, every kill() recorded; real daemons told by them', 'exploration',
      'Holds on the operations, pid files, faults and schedules sampled; kill() is recorded, and delivered only to the daemon of the scratch tree.')
claim('P21', 'runtime monitoring with fault injection: real daemons (ASan, UBSan) on one configuration, stopped and resumed at chosen system calls, killed anywhere or given errors; what each runs and writes put in one order', 'exploration',
      'Holds on the schedules, crash points, stale files and faults sampled; flock() locking only (the build here has it).')
claim('P20', 'runtime monitoring: the real daemon (ASan, UBSan) on a machine whose clocks are suspended and set; runs and mails compared with a calendar of the time the machine was up', 'exploration',
      'Holds on the histories of suspends, signals and clock changes sampled; simulated clocks (CLOCK_BOOTTIME, CLOCK_MONOTONIC, timerfd), so the suspend file of other systems is not used.')

claim('P16', 'runtime monitoring: real daemon and fcrondyn (ASan, UBSan) given random commands, answers and actions compared with a model of what waits, runs and is due', 'exploration',
      'Holds on the fcrontabs, commands and moments sampled; identities of clients are what the shim says of the socket.')
claim('P17', 'runtime monitoring: real daemon (ASan, UBSan) with many hostile clients on its socket; starts, answers, connections and passwords compared with a model', 'exploration',
      'Holds on the bytes, timings and numbers of clients sampled; an endless flood from one client is not simulated.')
claim('P23', 'runtime monitoring: real containers (ASan, UBSan) under random operations compared with plain arrays; queues of the real daemon followed by models', 'exploration',
      'Holds on the sequences sampled (millions of operations per run).')
claim('P22', 'runtime monitoring with fault injection: real daemon (ASan, UBSan) put through repeated cycles of work and trouble; descriptors, children and memory counted at quiet times', 'exploration',
      'Holds on the cycles sampled; memory is what the allocator of the sanitizer has given out.')
