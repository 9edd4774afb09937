#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from one table, so they stay in step.
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MIG, RUN, HAN, WASI, MAIN, PAR, MEM, REGS, STATE = ['src/execution/migration.rs', 'src/execution/runtime.rs', 'src/execution/handlers.rs', 'src/wasi/passthrough.rs', 'src/main.rs', 'src/parser.rs', 'src/execution/mem.rs', 'src/execution/regs.rs', 'src/execution/state.rs']
LOOP, TCO, MOD = 'src/execution/dispatch_loop.rs', 'src/execution/dispatch_tco.rs', 'src/execution/module.rs'
OBS = 'every call the guest makes to the WASI host (arguments, data, result), the bytes it writes, the files it leaves, its result and exit status'
HOOK = 'cfg chiwawa_sim: one call per checkpoint poll, and the monitor thread as a resumable closure'
P = []
def prop(id, title, statement, over, text, why, files, mech, level, note, state=None, hook=HOOK, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, note=note, state=state or [], hook=hook, technique=technique))

SAMPLED = 'Seeded search, not exhaustive: it shows the property on every execution explored and finds violations by running the real interpreter. '
TRUST = 'Trusts V8 as the WebAssembly engine the interpreter is compiled for, the simulated WASI host, and the scheduling hook.'

prop('C01', 'Checkpoint and restore are invisible to the guest',
 'A guest program that is checkpointed at any moment, any number of times, and continued from the checkpoint file makes exactly the same sequence of host calls with the same data, produces the same output, files, memory, tables, globals and result, and ends the same way as if it had never been interrupted. Nothing it did before the checkpoint is repeated and nothing is skipped.',
 ['schedules', 'programs', 'histories'], 'every guest program, every instruction at which a checkpoint can be taken, every chain of checkpoints and restores, every host behaviour',
 'The tests take no checkpoint at all; the moments (each instruction of each frame) and the chains are unbounded.',
 [MIG, RUN, STATE, REGS, MOD], [('state written and read back', MIG), ('frames rebuilt for the restored run', RUN), ('request raised at an instruction boundary', HAN)],
 'exploration', SAMPLED + 'Compares whole executions of chains of 1 to 5 checkpoints against the uninterrupted run of the same build. ' + TRUST,
 [dict(name='call frames, registers, memory, globals, tables, dropped segments, references', meaning='everything the guest can observe later', where=MIG)])
prop('C02', 'Builds are interchangeable, before and after a checkpoint',
 'Every build of the interpreter (tail-call or loop dispatch, threaded or polling checkpoint requests, with or without statistics and tracing) runs a program the same way, and a checkpoint taken by any of them is continued exactly by any other.',
 ['configurations', 'schedules', 'programs'], 'every ordered sequence of builds, every program, every moment of checkpoint',
 'The tests run each build on its own, uninterrupted; pairs of builds and checkpoints carried between them are never tried.',
 [LOOP, TCO, HAN, MIG, RUN], [('two dispatchers over one set of handlers', HAN), ('checkpoint encoding independent of the build', MIG)],
 'exploration', SAMPLED + 'Six builds; solo runs and chains whose processes use different builds, against one base build. ' + TRUST)
prop('C03', 'A checkpoint request is honoured within a bounded amount of work',
 'While checkpointing is enabled, a request leads to a checkpoint after a bounded number of further guest instructions, wherever the guest is: in straight code, tight loops, short or deep calls, restored frames, with or without host functions. A request that is already there when a process starts or resumes is honoured too, and repeated requests cannot stop the program from getting ahead.',
 ['schedules', 'programs', 'histories'], 'every program, every moment of the request, every sequence of processes',
 'No test requests a checkpoint; the bound must hold for every shape of control flow and every nesting of restored frames.',
 [MIG, HAN, RUN, LOOP, TCO], [('poll at every instruction', HAN), ('polling interval', MIG), ('restored frames keep polling', RUN)],
 'exploration', SAMPLED + 'Liveness as a bound on guest statements (counted by an instrumented copy of the guest on V8, so independent of the interpreter\'s own polling) and on polls. ' + TRUST)
prop('C04', 'One request makes at most one checkpoint, and none comes unasked',
 'A process only stops for a checkpoint if a request was made that no earlier checkpoint has answered, even when the process stops between noticing the request and saving, or the requester repeats, withdraws or times it badly. With checkpointing disabled there is never one.',
 ['schedules', 'fault_sequences', 'histories'], 'every timing of requests, withdrawals, monitor turns and thread preemptions at each of the monitor\'s system calls, every failure of looking for the request',
 'Needs the interleaving of the monitor thread with the main thread and several processes in one directory; the tests have neither.',
 [MIG, RUN, MAIN], [('request consumed before it is raised', MIG)],
 'exploration', SAMPLED + 'The monitor thread can be descheduled for good before or after each of its system calls. ' + TRUST)
prop('C05', 'A reported checkpoint exists, a failed one is reported and harmless',
 'If the process reports success for a checkpoint, the file it leaves continues the program exactly. If saving fails for any reason (full disk, I/O error, refused or short write, failed sync or rename), the process ends with a failure status and an earlier checkpoint under the same name is still there and still continues exactly.',
 ['fault_sequences', 'crash_points'], 'every failing storage operation of the save, single, repeated and permanent, and every amount of free space',
 'The tests never make storage fail.',
 [MIG, MAIN, RUN], [('save to a temporary name, sync, rename', MIG), ('exit status', MAIN)],
 'fault_enumeration', 'Each storage operation of the save is failed with each of 16 errors, short writes and every class of free space, singly and in combination, sampled by seed. The file left is judged by continuing from it. ' + TRUST)
prop('C06', 'A crash while saving leaves the old checkpoint or the new one, whole',
 'If the process is killed or the machine loses power at any point of saving a checkpoint, the checkpoint file is afterwards either the complete earlier one (or absent if there was none) or the complete new one, and continues the program exactly. Once success was reported it is the new one, also after a power cut.',
 ['crash_points', 'fault_sequences'], 'every crash point of the save, with every legal loss, reordering and tearing of writes that were not yet synced',
 'Needs crashes and a disk that loses unsynced data; the tests have neither.',
 [MIG], [('temporary file, sync, atomic rename', MIG)],
 'fault_enumeration', 'Crash before, in the middle of and after each storage operation; power cuts with prefix-ordered metadata and sector-granular data loss, several per crash. Assumes a journalling file system where rename is atomic and a file\'s synced data survives. ' + TRUST)
prop('C07', 'A damaged or foreign checkpoint is refused before the guest runs',
 'A checkpoint file that was truncated, altered in any byte, replaced, misread or taken from another program is refused with a failure status before the guest executes anything. A correct file that is read slowly, in pieces or with interruptions is restored exactly.',
 ['inputs', 'fault_sequences'], 'every truncation and corruption, every other program, every read fault',
 'No test restores anything.',
 [MIG, MAIN], [('header with program fingerprint and checksum', MIG)],
 'fault_enumeration', 'Fifteen kinds of damage at sampled positions on real checkpoint files. A corruption that keeps a 64-bit checksum is outside the property. ' + TRUST)
prop('C08', 'A checkpoint request survives transient trouble',
 'While looking for a request fails or the part that looks for it is stalled, the guest simply goes on; once that stops, the pending request is honoured within a bounded amount of work and the program continues from the checkpoint exactly.',
 ['fault_sequences', 'schedules'], 'every sequence of failed probes and stalls of the monitor thread, every moment of the request',
 'Needs failing probes and a stalled thread; the tests have neither.',
 [MIG, RUN], [('probe repeated until seen', MIG)],
 'exploration', SAMPLED + 'Liveness as a bound on polls after the last failed probe. ' + TRUST)
prop('C09', 'File and directory calls reach the host and come back unchanged',
 'Every file and directory operation of the guest reaches the host exactly once with exactly the guest\'s arguments and data, and the guest sees exactly the host\'s status and results, including errors, partial reads and writes. Nothing else in the guest\'s memory changes.',
 ['fault_sequences', 'inputs', 'histories'], 'every sequence of file operations and every host answer, including every error code and every short transfer',
 'The tests run a few fixed sequences on a disk that never fails and never transfers less than asked.',
 [WASI, HAN], [('pass-through of each call', WASI)],
 'exploration', SAMPLED + 'Oracle: the same guest bytes run directly on V8 on the same simulated host; every call and the final memory must match. ' + TRUST)
prop('C10', 'Clock, randomness, polling and yielding are passed through unchanged',
 'Clock readings, clock resolutions, random bytes, poll events and yields are obtained from the host once per guest request, with the guest\'s arguments, and delivered unaltered, whatever the host answers: clock jumps, skew, errors, any subset and order of events.',
 ['fault_sequences', 'inputs', 'histories'], 'every request and every host answer',
 'The tests cannot control clocks, randomness or event order, so they check shapes, not values.',
 [WASI], [('pass-through of each call', WASI)],
 'exploration', SAMPLED + 'Oracle: the same guest bytes on V8 on the same simulated host. ' + TRUST)
prop('C11', 'Socket traffic is passed through unchanged',
 'Bytes the guest sends reach the peer exactly once, in order and unaltered, and bytes it receives are those the peer sent, under any segmentation, partial transfer, error, accept order and shutdown; flags and counts are the host\'s.',
 ['fault_sequences', 'inputs', 'histories'], 'every sequence of socket calls and every host answer',
 'No test uses a socket.',
 [WASI], [('scatter and gather between guest buffers and the host', WASI)],
 'exploration', SAMPLED + 'Oracle: the same guest bytes on V8 on the same simulated host. ' + TRUST)
prop('C12', 'Arguments, environment, entry point and parameters arrive exactly',
 'The guest sees exactly the arguments given for it, preceded by the program name, and exactly the host\'s environment; the chosen entry point is run with exactly the given parameters and its result is reported. This also holds in a process that resumed from a checkpoint.',
 ['inputs', 'schedules', 'configurations'], 'every argument list, environment, entry point and parameter list, every moment of a checkpoint',
 'The tests fix one short argument list and never resume.',
 [MAIN, WASI, MOD], [('argument splitting and parameter parsing', MAIN), ('argument and environment calls', WASI)],
 'exploration', SAMPLED + 'Arguments containing double quotes or leading or trailing blanks cannot be expressed on the command line and are not generated; parameters are integers. Oracle: V8 with the same strings. ' + TRUST)
prop('C13', 'Checkpoint support, statistics and tracing do not disturb the guest',
 'Enabling checkpoint support, statistics or tracing, in any combination and even when trace output or looking for requests fails, changes nothing in what the guest does, sees or returns.',
 ['configurations', 'fault_sequences', 'programs'], 'every combination of options, every failure of their output, every program',
 'The tests run with all of them off.',
 [RUN, MIG, 'src/execution/trace.rs', 'src/execution/stats.rs'], [('features checked at run time', RUN)],
 'exploration', SAMPLED + 'Compares complete executions with and without the options on the same build. ' + TRUST)
prop('C14', 'Memory growth is exact or refused, also when memory is short',
 'Growing the guest\'s memory either adds exactly the pages asked for, all zero, keeping every byte there was, or reports failure and changes nothing, never beyond the declared maximum; failing to get memory from the host is reported to the guest instead of stopping it. The size, contents and limit carry over a checkpoint.',
 ['fault_sequences', 'histories', 'configurations'], 'every sequence of growth and access, every amount of memory the host has to give, every checkpoint between them',
 'The tests run with ample memory and only read the size.',
 [MEM, HAN, MIG], [('fallible allocation', MEM)],
 'exploration', SAMPLED + 'The host\'s memory is limited by lowering the maximum of the interpreter module\'s own memory. Up to 200 MB of guest memory. Oracle: growth rules, and V8 told which growths failed for all contents. ' + TRUST)
prop('C15', 'Traps and exits are fail-stop and truthfully reported',
 'When the guest traps or exits, every effect before that point has reached the host and none comes after it. A trap or an internal failure ends with a failure status, the guest\'s own exit status is passed on unchanged, and normal completion reports success, also after restores and with a request pending.',
 ['programs', 'schedules', 'fault_sequences'], 'every trap (except accesses outside the guest\'s memory, which the interpreter leaves unchecked by design) and exit at every point of every program, every host behaviour before it',
 'The tests check the trapping instruction in a one-function module, not its effects, status or interplay with checkpoints.',
 [HAN, RUN, MAIN, WASI], [('trap propagation', RUN), ('exit status', MAIN)],
 'exploration', SAMPLED + 'Nine kinds of trap and twenty-three exit statuses placed at sampled points; oracle V8. ' + TRUST)
prop('C16', 'Resources follow the guest\'s state, not its running time',
 'The memory and descriptors the interpreter uses and the size of a checkpoint depend on what the guest currently holds, not on how long it has run, how many host calls it made or how often it was checkpointed and restored. Guest recursion is limited by memory, not by the stack of the engine underneath, and deep recursion can be checkpointed.',
 ['histories', 'programs', 'schedules'], 'every program run for any length of time and any number of checkpoint and restore hops',
 'The tests run for milliseconds and never resume.',
 [RUN, STATE, REGS, MIG, LOOP, TCO, HAN], [('frames on the heap', RUN), ('registers released on return', REGS), ('no host recursion per instruction', TCO)],
 'exploration', SAMPLED + 'Compares runs of the same program 8 to 40 times longer (millions of instructions), chains of up to 30 hops, recursion to depth 30000. Growth below 256 KB of memory per run or 30 percent of file size goes unnoticed. ' + TRUST)
prop('C17', 'A checkpoint can be restored any number of times',
 'Restoring neither consumes nor changes the checkpoint file, and every restore of it continues from exactly the same point, also when earlier attempts crashed, met disk errors, or tried to checkpoint again and failed, and on whichever build.',
 ['crash_points', 'histories', 'fault_sequences'], 'every sequence of restores of one file, each cut short anywhere or not',
 'No test restores anything.',
 [MIG, MAIN, RUN], [('file only read on restore', MIG)],
 'exploration', SAMPLED + 'The host\'s state is rolled back with each restore, as a recovery would. ' + TRUST)
prop('C18', 'After a move the guest talks to its new host only',
 'After a restore on another host every clock reading, resolution, random byte, event and environment string is what the new host gives at that moment; nothing is replayed or kept from the old host except what the guest itself had already received.',
 ['schedules', 'histories', 'configurations'], 'every sequence of hosts with different clocks, randomness and environments, every moment of the move',
 'Needs two hosts that differ; the tests have one process on one host.',
 [MIG, WASI, MOD], [('host access recreated on restore', MOD)],
 'exploration', SAMPLED + 'Oracle: the guest on V8 on the same sequence of hosts, switched at the same host call. ' + TRUST)
prop('C19', 'A torn or unreadable program file is refused before anything runs',
 'If the program file is missing, cannot be read, is cut off anywhere or is not a module, the process ends with a failure status before any of it runs, also when resuming a checkpoint, and the checkpoint stays usable. A correct file that is read in small pieces or with interruptions is loaded exactly.',
 ['inputs', 'fault_sequences'], 'every truncation of every program, every read and open fault',
 'The tests only load complete files from a disk that never fails.',
 [PAR, MAIN], [('load errors end the process', MAIN)],
 'fault_enumeration', 'Eleven kinds of damage and fault at sampled positions. Validity of the remainder is decided by V8; files that are complete but semantically invalid are not covered, since the interpreter does not validate. ' + TRUST)
prop('C20', 'The interpreter touches no file but its own',
 'Whatever a process does or suffers (checkpoints, failed saves, crashes, restores, refused files), the only files the interpreter itself creates, changes, opens for writing or removes are the checkpoint file, the request it answers and the trace output it was told to write. The program, the file it restores from when that is another one, and everything else lying there stay as they are; with checkpointing disabled the checkpoint and the request stay too. Unfinished copies remain only where a process was killed or could not remove them, and do not pile up.',
 ['histories', 'fault_sequences', 'crash_points'], 'every sequence of runs, saves, failures, crashes and restores over a directory that holds other files, also ones named alike',
 'The tests use an empty directory and look at the file they expect only.',
 [MIG, MAIN, RUN], [('unfinished copy removed on failure', MIG), ('request removed once answered', MIG)],
 'exploration', SAMPLED + 'One to six processes over one simulated disk with up to ten other files; oracle: the whole disk before and after. ' + TRUST)
prop('C21', 'Equal host answers give an equal run',
 'What a guest does, sees and returns is decided by its program, its arguments and environment and the host\'s answers to its calls, and by nothing else: not by the interpreter\'s own random seed or clock, by environment variables the guest does not read, by other files or a full disk, by the timing of the part that looks for requests, or by how often it was done before. Repeating a run, or continuing again from the same checkpoint, under the same answers gives the same run and takes the same amount of work.',
 ['configurations', 'schedules', 'histories'], 'every surrounding of the process that the guest does not ask about',
 'A test runs in one surrounding, once.',
 [RUN, MIG, MAIN, MOD], [('no own use of clocks or randomness in execution', RUN)],
 'exploration', SAMPLED + 'Two to five runs and resumptions of each case with different seeds, clocks (also running backwards), environment, files, disk space and monitor timing; work is counted in polls. The layout of the interpreter\'s own memory varies only as these make it vary. ' + TRUST)
prop('C22', 'Traces and statistics tell exactly what was executed',
 'With tracing built in and asked for, the trace has one line for each executed instruction of the chosen kinds, in execution order, with the register, local and global values at that instruction as far as chosen, whatever the build and wherever the output goes. The traces of the parts of a run interrupted by checkpoints, put together, are the trace of the uninterrupted run. Short or interrupted writes do not change the trace, and a failing write loses no other line. The statistics of a run that is not ended by the guest\'s own exit call count every executed instruction once, and those of the parts add up.',
 ['programs', 'configurations', 'schedules', 'faults'], 'every program, choice of events and resources, checkpoint position and fault of the trace output',
 'The tests never look at a trace, and a trace cut by a checkpoint is the same or not at every single position.',
 ['src/execution/trace.rs', 'src/execution/stats.rs', 'src/execution/dispatch_loop.rs', 'src/execution/dispatch_tco.rs', RUN], [('tracer', 'src/execution/trace.rs'), ('statistics', 'src/execution/stats.rs')],
 'exploration', SAMPLED + 'Instructions, locals and globals are compared with those the reference engine reports step by step for an instrumented copy of the program (except constants, local accesses and block structure, which the interpreter folds); registers only between builds, parts and outputs. The memory resource is not examined. ' + TRUST)

NA = [
 dict(id='N01', title='Instructions compute what the WebAssembly specification says', statement='Every numeric, memory, table and control instruction yields the value, trap or effect the WebAssembly specification gives for its operands.', over=['inputs', 'programs'], text='every instruction and operand', why='The tests sample a few operands per instruction.', files=[HAN, PAR, 'src/execution/operand.rs'], mech=[('handlers', HAN)], reason='A pure function of program and operands: no schedule, clock, I/O or fault takes part, so fault simulation decides nothing; differential or symbolic testing of the instructions would. (Programs generated for the other properties are compared with V8 on the way.)'),
 dict(id='N02', title='The guest cannot reach memory outside its own', statement='No guest access, direct or through a host call, reads or writes anything outside the guest\'s linear memory.', over=['inputs', 'programs'], text='every address and length', why='Tests use addresses inside the memory.', files=[MEM, WASI], mech=[('documented: no bounds checking, relies on the engine underneath', MEM)], reason='The code documents that it does not check bounds, so the property does not hold by design, and it is a pure input property in which no schedule or fault takes part.'),
 dict(id='N03', title='Checkpoint support costs little when no checkpoint is requested', statement='With checkpoint support enabled and no request, programs run at nearly the speed they have without it.', over=['programs'], text='every program', why='Tests do not measure time.', files=[MIG, HAN], mech=[('cheap poll', MIG)], reason='Wall-clock performance: simulated time says nothing about it.'),
]
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P + NA:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=[OBS], hook_needed=p.get('hook'))
        if p.get('state'): a['state'] = p['state']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a), ensure_ascii=False) + '\n')
T = {'exploration': 'deterministic simulation: seeded search over schedules, histories and host faults, replayable', 'fault_enumeration': 'deterministic simulation: seeded fault injection at every storage or loading step, replayable'}
man = dict(version=1, setup_cmd='node sim/build.mjs',
 hooks=dict(guard='cfg chiwawa_sim', enable="RUSTFLAGS-equivalent --config build.rustflags=['--cfg','chiwawa_sim',…] (see sim/build.mjs); off in every normal build", source_commits=['c0232c6', 'bfbf3c0']),
 checks=[dict(property=p['id'], quick_cmd=f"node --expose-gc sim/check.mjs {p['id']} --tier quick", thorough_cmd=f"node --expose-gc sim/check.mjs {p['id']} --tier thorough", technique=T[p['level']], level=p['level'], level_note=p['note']) for p in P],
 not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA],
 notes='Generated by tools/props.py together with properties.jsonl. A violation is replayed with: node --expose-gc sim/check.mjs <id> --replay <file>.')
json.dump(man, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False); open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
