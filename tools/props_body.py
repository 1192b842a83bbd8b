isa("I01", "MCS-51 instructions behave as the programmer's guide defines", "the MCS-51 family (C52 and C51R members)", "s51",
    ["src/sims/s51.src/arith.cc", "src/sims/s51.src/logic.cc", "src/sims/s51.src/mov.cc", "src/sims/s51.src/jmp.cc", "src/sims/s51.src/bit.cc", "src/sims/s51.src/inc.cc", "src/sims/s51.src/uc51.cc"],
    [("instruction functions", "src/sims/s51.src/arith.cc:cl_51core::instruction_24"), ("bit space and register banks decoding", "src/sims/s51.src/uc51.cc:decode_bits"), ("parity tracking", "src/sims/s51.src/uc51.cc:cl_uc51_cpu::write")],
    "PSW.P always is the parity of ACC, the clock count added is 12 clocks per documented machine cycle, and register banks, bit space and direct addresses alias the documented cells.")
isa("I02", "8080 and 8085 instructions behave as the manuals define", "the 8080 and 8085", "i8085",
    ["src/sims/i8085.src/i8080.cc", "src/sims/i8085.src/i8085.cc", "src/sims/i8085.src/ialu.cc", "src/sims/i8085.src/ibranch.cc", "src/sims/i8085.src/imove.cc", "src/sims/i8085.src/glob.cc"],
    [("instruction dispatch and clock table", "src/sims/i8085.src/i8080.cc:exec_inst"), ("arithmetic and flags", "src/sims/i8085.src/ialu.cc")],
    "The clock count it adds is the documented state count.")

isa("I03", "Z80 instructions behave as the manual defines", "the Z80 (documented instructions; the undocumented flag bits 3 and 5 and the refresh register are left out)", "z80",
    ["src/sims/z80.src/z80.cc", "src/sims/z80.src/inst.cc", "src/sims/z80.src/inst_cb.cc", "src/sims/z80.src/inst_ed.cc", "src/sims/z80.src/inst_xd.cc", "src/sims/z80.src/inst_xxcb.cc", "src/sims/z80.src/z80mac.h", "src/sims/z80.src/glob.cc"],
    [("flag macros", "src/sims/z80.src/z80mac.h:adc_A_bytereg"), ("dispatch", "src/sims/z80.src/z80.cc:exec_inst"), ("block instructions", "src/sims/z80.src/inst_ed.cc:inst_ed_"), ("clock tables", "src/sims/z80.src/glob.cc:z80_ttab_00")],
    "The clock count it adds is the documented number of T states, and all address arithmetic wraps in 16 bits.")


def core(id, title, statement, over, qtext, why, files, mech, observe, technique, note, check=None):
    prop(id, title, statement, over, qtext, why, files, mech, observe, check or ("core.py " + id), technique, note)


isa("I05", "6800, 6801 and 68HC11 instructions behave as the manuals define", "the 6800, 6801 and 68HC11 (left out: V after DAA, N and V after CPX of the 6800, the S and X bits, STOP and TEST of the 68HC11)", "m68hc11",
    ["src/core/motorola.src/ialu68.cc", "src/core/motorola.src/imove68.cc", "src/core/motorola.src/ibranch68.cc", "src/core/motorola.src/inst68.cc", "src/core/motorola.src/m6800.cc", "src/core/motorola.src/m6801.cc", "src/core/motorola.src/m68hc11.cc"],
    [("arithmetic and flags", "src/core/motorola.src/ialu68.cc"), ("dispatch and clock", "src/core/motorola.src/m6800.cc:exec_inst"), ("prefixed pages", "src/core/motorola.src/m68hc11.cc")],
    "The interrupt instructions stack and restore exactly the documented registers, and address arithmetic wraps in 16 bits.")

isa("I06", "6809 instructions and interrupts behave as the manual defines", "the 6809 (left out: H where the manual leaves it undefined, illegal postbytes and register codes, SYNC and CWAI; clock counts are not compared)", "m6809",
    ["src/sims/m6809.src/m6809.cc", "src/sims/m6809.src/irq.cc", "src/sims/m6809.src/glob.cc", "src/core/sim.src/itsrc.cc"],
    [("instructions and flags", "src/sims/m6809.src/m6809.cc:exec_inst"), ("indexed addressing", "src/sims/m6809.src/m6809.cc:index2ea"), ("interrupt acceptance", "src/sims/m6809.src/m6809.cc:accept_it"), ("NMI arming", "src/sims/m6809.src/irq.cc:conf_op")],
    "A requested IRQ, FIRQ or NMI is accepted after the instruction exactly when I, F or the arming by LDS allow it, stacks the documented registers, sets the documented masks and jumps through its vector, and RTI ends its service.")

isa("I07", "68HC08, HCS08 and 9S08 instructions behave as the manuals define", "the 68HC08, HCS08 and 9S08 (left out: V after DAA, results of DIV overflow, STOP and WAIT; clock counts are not compared)", "m68hc08",
    ["src/sims/m68hc08.src/inst.cc", "src/sims/m68hc08.src/m68hc08.cc"],
    [("instructions", "src/sims/m68hc08.src/inst.cc"), ("dispatch", "src/sims/m68hc08.src/m68hc08.cc:exec_inst"), ("paging and linear access unit", "src/sims/m68hc08.src/m68hc08.cc:cl_mmu")],
    "On 9S08 the paged window shows the page selected by PPAGE, CALL and RTC switch and restore it, and the linear address registers access the extended memory as documented.")

isa("I09", "STM8 instructions behave as the manual defines", "the STM8 (left out: results of a division by zero, jumps and calls across a section boundary, JRIL, JRIH, HALT, WFI, WFE; clock counts are not compared)", "stm8",
    ["src/sims/stm8.src/stm8.cc", "src/sims/stm8.src/inst.cc", "src/sims/stm8.src/stm8mac.h"],
    [("dispatch and the irregular instructions", "src/sims/stm8.src/stm8.cc:exec_inst"), ("addressing modes", "src/sims/stm8.src/inst.cc:fetchea"), ("arithmetic and flags", "src/sims/stm8.src/inst.cc:flag_cvh")],
    "24 bit addresses, sections and the stack frames of calls, far calls, traps and returns are those of the manual.")

isa("I08", "AVR instructions behave as the instruction set manual defines", "the AVR (left out: MOVW, MULS, MULSU, FMUL*, LPM Rd, EIJMP, EICALL, ELPM, SPM and SLEEP, which this simulator does not implement; LD and ST whose pointer register is also the operand; clock counts are not compared)", "avr",
    ["src/sims/avr.src/arith_inst.cc", "src/sims/avr.src/logic_inst.cc", "src/sims/avr.src/move_inst.cc", "src/sims/avr.src/bit_inst.cc", "src/sims/avr.src/jump_inst.cc", "src/sims/avr.src/avr.cc"],
    [("arithmetic and flags", "src/sims/avr.src/arith_inst.cc"), ("loads, stores, stack", "src/sims/avr.src/move_inst.cc"), ("jumps, calls and skips", "src/sims/avr.src/jump_inst.cc")],
    "Skips step over the whole next instruction, one or two words long, and 16 bit pointer and stack arithmetic carries between the bytes.")

isa("I13", "MCS-48 instructions, counter and interrupts behave as the manual defines", "the MCS-48 family (8048/8050, UPI-41/42, 8021 and 8022; left out: the UPI data bus buffer, EN DMA, EN FLAGS, ENT0 CLK, MOVP3 in the upper bank, the 8022 converter and the rate of the timer prescaler)", "i8048",
    ["src/sims/i8048.src/arith.cc", "src/sims/i8048.src/branch.cc", "src/sims/i8048.src/move.cc", "src/sims/i8048.src/i8020.cc", "src/sims/i8048.src/i8020cl.h", "src/sims/i8048.src/i8048.cc", "src/sims/i8048.src/timer.cc", "src/sims/i8048.src/port.cc"],
    [("arithmetic", "src/sims/i8048.src/arith.cc"), ("jumps and calls", "src/sims/i8048.src/branch.cc"), ("stack and register banks", "src/sims/i8048.src/i8020.cc"), ("counter and interrupt request", "src/sims/i8048.src/timer.cc"), ("ports and expander", "src/sims/i8048.src/port.cc")],
    "Ports 1, 2 and 4 to 7, the bus latch, external RAM, the memory bank flag, F1, timer value, flag and mode, and the interrupt enables are compared too; a second run moves the T0, T1 and INT pins between instructions and checks counting, overflow and which interrupt is taken when.")

core("C01", "Every access goes to the cell the memory map designates",
     "After any sequence of creating and removing memory chips, address spaces, address decoders, bankers, banks and bit banders, "
     "an access to any address of any address space reads or writes exactly the chip cell (or chip bit) which the most recent mapping "
     "of that address designates - the bank selected by the bank switching register for banked areas - and nothing else; unmapped and "
     "out-of-range addresses never reach any chip; values are stored truncated to the width of the memory; the set, fill, dump, expression and "
     "memory cell commands all see the same map; and a request that does not fit the chip is refused with no effect.",
     ["inputs", "histories"],
     "every sequence of mapping commands and accesses, all widths from 1 to 32 bits, all overlaps of old and new mappings, any bank "
     "register address and mask, any values, any start addresses and sizes",
     "Tests use the fixed memory maps of the processors; overlapping remaps, bank redefinition while active, splits of banked areas and "
     "chip removal depend on the history of mappings.",
     ["src/core/sim.src/mem.cc", "src/core/cmd.src/cmd_mem.cc", "src/core/sim.src/uc.cc"],
     [("decoders and area undecoding", "src/core/sim.src/mem.cc:undecode_area"), ("banker", "src/core/sim.src/mem.cc:cl_banker"),
      ("bander", "src/core/sim.src/mem.cc:cl_bander"), ("memory commands", "src/core/cmd.src/cmd_mem.cc"), ("chip removal", "src/core/sim.src/uc.cc:remove_chip")],
     ["cells of address spaces and chips after each command", "answers of the commands"],
     "runtime model-based monitor (explicit cell map next to the real memory objects) over random command histories, plus AddressSanitizer/UBSan",
     "Random histories of up to 160 operations on worlds of 2-6 chips and 1-3 spaces; a full comparison of every cell after every operation.")

core("C02", "Breakpoints stop exactly at the first qualifying event",
     "For every program and every set of breakpoints, run and continue stop exactly at the first instruction at which some enabled "
     "breakpoint qualifies and at no other: a fetch breakpoint before the instruction at its address is executed, a read or write event "
     "breakpoint just after the instruction which made the access; hit counts are decremented once per hit and reloaded, a condition suppresses the "
     "stop exactly when it is false, a temporary breakpoint disappears after its first stop and no other breakpoint does, attached commands "
     "are executed once per stop, and deleting or clearing a breakpoint removes that one only. A run with breakpoints produces at each stop the same machine "
     "state as the same number of instructions executed without them.",
     ["inputs", "histories"],
     "all programs, all processor types, all sets of breakpoints (fetch, read, write; permanent, temporary; any count; conditional or "
     "not), all histories of stops, continues and deletions",
     "Tests use a single fetch breakpoint; hit counts, several breakpoints meeting at one instruction, events made by any memory access, "
     "and state equivalence at the stop depend on the program and the history.",
     ["src/core/sim.src/brk.cc", "src/core/sim.src/uc.cc", "src/core/sim.src/sim.cc", "src/core/cmd.src/bp.cc", "src/core/sim.src/mem.cc"],
     [("fetch breakpoint test", "src/core/sim.src/sim.cc:step"), ("hit counting and conditions", "src/core/sim.src/brk.cc:do_hit"),
      ("event operators on cells", "src/core/sim.src/mem.cc:cl_event_break_operator"), ("temporary breakpoints", "src/core/sim.src/uc.cc:remove_all_breaks")],
     ["instruction number of each stop", "remaining hit counts", "scripts run", "full machine state at each stop"],
     "runtime monitor: reference trace of the undisturbed run (fork) predicts every stop, the broken run is compared stop by stop",
     "All 55 processor types, random programs; access events are recorded by an operator hooked on each memory cell in the reference run.")
core("C03", "Looking at the machine does not change it",
     "For every machine state and every inspection command (dump of code, registers, stack, state, memory, breakpoints, hardware, "
     "variables, history, statistics; disassembly; info and get commands; symbol lookups), executing it leaves the complete machine state - "
     "registers, all memories, processor and peripheral state, counters - unchanged, and the rest of the program runs as if the command had not been given. "
     "Only a dump or expression that explicitly names a cell which a device serves on reading (a data or status register, a configuration cell) reads it as the program would.",
     ["inputs", "histories"],
     "all programs, all processor types, all inspection commands, at any instruction",
     "No test inspects between instructions and compares; which command touches which state depends on processor, code and data.",
     ["src/core/cmd.src/cmd_info.cc", "src/core/cmd.src/dump.cc", "src/core/cmd.src/cmd_get.cc", "src/core/cmd.src/cmd_exec.cc", "src/core/sim.src/uc.cc", "src/sims"],
     [("register printing", "src/core/sim.src/uc.cc:print_regs"), ("disassembly", "src/core/sim.src/uc.cc:disass"), ("info commands", "src/core/cmd.src/cmd_info.cc"),
      ("memory dump", "src/core/sim.src/mem.cc:dump")],
     ["digest of the complete machine state before and after each command and at the end of the run"],
     "runtime monitor: state digest around every command, and run with and without commands (fork) compared",
     "All 55 processor types. Internal latches of peripherals are compared through their own `info hardware` text.")
core("C04", "Execution is the same however it is driven",
     "For every program and start state, executing N instructions gives the same complete machine state whether done by one step N command, N single steps, "
     "run up to a stop, runs in several parts, or again from the same state, in the same or in another process from the start on; nothing but the program, the state and the inputs decides the result.",
     ["inputs", "schedules"],
     "all programs, all processor types, all ways to divide the execution",
     "Tests execute each program once in one way.",
     ["src/core/sim.src/sim.cc", "src/core/sim.src/uc.cc", "src/core/cmd.src/cmd_exec.cc", "src/sims"],
     [("main loop", "src/core/sim.src/sim.cc:step"), ("step command", "src/core/cmd.src/cmd_exec.cc:cl_step_cmd"), ("instruction step", "src/core/sim.src/uc.cc:do_inst"), ("event breaks", "src/core/sim.src/uc.cc:do_emu")],
     ["digest of the complete machine state after each way of driving"],
     "runtime monitor: six executions of the same program from a forked snapshot are compared state by state; whole histories are compared between processes whose heaps are filled differently",
     "All 55 processor types; state includes registers, memories, hardware, ticks, timers, error list and the statistics of accesses.")
core("C05", "Simulated time is accounted completely",
     "Every clock an instruction, an interrupt call or a waiting cycle takes is a whole number of machine cycles and is counted exactly once by every running timer whose kind matches "
     "(all, in interrupt, idle, power down), forwards or backwards, by the real time (clocks divided by the oscillator frequency at that moment) and by every device on the chip "
     "(except in power down); stopped timers stand still; reset clears the built in timers only; and the timer, tick and state commands create, "
     "delete, set, start, stop and show exactly the timer they name.",
     ["inputs", "histories"],
     "all programs, sets of timers, oscillator frequencies, interrupt and low power histories, on all processor types",
     "Tests read the clock at the end of a few programs; user timers, kinds, directions, waiting and interrupt entry are not touched.",
     ["src/core/sim.src/uc.cc", "src/core/cmd.src/cmd_timer.cc", "src/core/cmd.src/cmd_uc.cc", "src/core/utils.src/utils.cc"],
     [("clock", "src/core/sim.src/uc.cc:tick"), ("device clock", "src/core/sim.src/uc.cc:tick_hw"), ("timer commands", "src/core/cmd.src/cmd_timer.cc"), ("state command", "src/core/cmd.src/cmd_uc.cc:cl_state_cmd")],
     ["clocks and real time of all timers", "ticks received by a probe device", "texts of timer and state commands"],
     "runtime model-based monitor: a probe device and a model of all timers follow random programs and commands on every processor type",
     "Number of cycles of each instruction is judged by I01 to I09 where the model has it. On clock changes, resets executed by the program and level changes within an instruction bounds are checked and the model resynchronizes.")
core("C11", "No console line breaks the simulator",
     "No line given to the command interpreter, on any processor type, directly or through a console that reads a file, however malformed (wrong, missing, surplus or out of range "
     "parameters, names of other kinds of objects, damaged expressions and quotes, any bytes, very long lines), and no sequence of such lines with simulation in between, reads or writes memory "
     "that is not the simulator's own, crashes it, makes it exit, or keeps it busy for ever; and it answers commands afterwards.",
     ["inputs", "histories"],
     "all console lines and all sequences of them, on all processor types",
     "Tests give a few valid commands; no test gives an invalid one.",
     ["src/core/cmd.src", "src/core/sim.src/arg.cc", "src/core/sim.src/mem.cc", "src/core/sim.src/vcd.cc", "src/core/utils.src/app.cc"],
     [("interpreter", "src/core/cmd.src/newcmd.cc:proc_input"), ("parameters", "src/core/cmd.src/command.cc:syntax_match"), ("parameter values", "src/core/sim.src/arg.cc"), ("commands", "src/core/cmd.src"), ("hardware commands", "src/core/sim.src/simif.cc:set_cmd")],
     ["sanitizer reports, signals and exit of a copy of the simulator that executes a batch of lines"],
     "AddressSanitizer with generated command lines: the processor type's own command table, its memory, hardware and variable names and the usage texts give the grammar; each batch runs in a copy of the process with CPU time limits",
     "quit, kill and commands to the operating system are excluded: sockets and shells are replaced by stand-ins that fail, file names have no directory part. Sizes of created memories and counts of ticks are kept small, since work asked for is not a hang.")
core("C13", "Value change dumps record and replay the watched bits exactly",
     "A recording (set hardware vcd[n] output, add, del, timescale, start, pause, restart, stop) is a valid VCD file that declares exactly the chosen cells, bits and bit ranges, each with its "
     "width, its name and its own identifier; at every moment the file, read up to there, gives the present value of each of them, shows them unknown while paused, never goes back in time, and "
     "its time stamps multiplied by the declared time scale are the simulated time since the start (less the part of pauses that pausetime cuts off). A replay (input, starttime, start, pause, "
     "restart, break, stop) sets exactly the named bits to the values of the file, at the simulated time of the event moved by starttime and by the pauses, not before and not later than the "
     "next device clock, touches no other bit, and with break on stops execution at an event. This holds on every processor type, and for several dumps at once.",
     ["inputs", "histories"],
     "all selections of variables, all histories of writes, instructions, pauses and restarts, and all valid VCD files with single character identifiers",
     "The tests record two short STM8 programs and replay one file; they contain neither deletion, pauses, set time scales, bit ranges, start times nor more than a few variables.",
     ["src/core/sim.src/vcd.cc", "src/core/sim.src/vcdcl.h", "src/core/sim.src/mem.cc", "src/core/sim.src/uc.cc"],
     [("write of a watched cell", "src/core/sim.src/vcd.cc:write"), ("record", "src/core/sim.src/vcd.cc:report"), ("commands, header, pause", "src/core/sim.src/vcd.cc:set_cmd"), ("replay", "src/core/sim.src/vcd.cc:tick"), ("input header", "src/core/sim.src/vcd.cc:parse_header")],
     ["the growing file after every action", "the watched cells", "simulated time at each device clock"],
     "online comparison: the file is parsed as it grows, and its present values and times are compared with the cells and the simulated time after each instruction, write, tick and command; replayed files are generated, and the cells are compared with their events after each device clock",
     "Changes that peripherals store behind the bus (set() instead of write()) are not recorded by design and not judged: watched cells are memory. Values of unknown (x) vector bits are not judged, neither is which of two equal times comes first. A reset by the program ends a history.")
core("C07", "Loading a file stores exactly the data the file describes",
     "For every valid Intel HEX (data, end, segment and linear base records), Motorola S record (S0 to S9), Intel OMF-51, ASC and P2H file, however its "
     "data is cut into records, ordered and written (letter case, line ends, last line without end of line), the load and file commands and "
     "download store exactly the described words at their address plus the given offset in the given memory, later data overwriting earlier, "
     "words outside of the given range or of the memory being left out, and change no other cell of any memory; words of memories wider than 8 bits are made of "
     "consecutive bytes, low byte first. Records with a wrong checksum store nothing. The check command reports exactly the words that differ, and changes nothing. "
     "No file, however damaged, crashes or hangs the simulator.",
     ["inputs"],
     "all images, all ways of writing them in all formats, all target memories of 8 to 32 bits, offsets and ranges; any byte string as a file",
     "Tests load a handful of compiler generated files into the code memory at offset 0; other formats, widths, base records, ranges, banked targets and damaged files are not touched.",
     ["src/core/sim.src/uc.cc", "src/core/utils.src/fio.cc", "src/core/utils.src/fuio.cc", "src/core/cmd.src/cmd_uc.cc"],
     [("record readers", "src/core/sim.src/uc.cc:read_hex_file"), ("target selection", "src/core/sim.src/uc.cc:cl_inspec"), ("storing", "src/core/sim.src/uc.cc:set_rom"), ("file input", "src/core/utils.src/fio.cc:get_c")],
     ["all cells of all memories after each load", "text printed by check and dl"],
     "runtime model-based monitor: random images encoded independently by the harness, loaded by the real commands, all memories compared; AddressSanitizer on damaged files",
     "19 memories (8, 12, 16, 24, 32 bits; above 64k; starting above 0; banked; chips). The word count printed by load goes to standard output and is not judged.")
core("C08", "Dumps show the content of the memory and can be loaded back",
     "For every memory, content and address range, dump in hexadecimal, Intel HEX, binary and string form shows exactly the cells of the range, each once, in order, at "
     "their address; the Intel HEX form is a valid file that restores the range when it is loaded.",
     ["inputs"],
     "all memories and widths, contents, ranges (including the ends of the memory and 64k borders) and line lengths",
     "Tests do not read dumps back; borders of memories, wide words and addresses above 64k depend on the input.",
     ["src/core/sim.src/mem.cc", "src/core/cmd.src/cmd_uc.cc"],
     [("dump formats", "src/core/sim.src/mem.cc:dump_i"), ("columns", "src/core/sim.src/mem.cc:cl_memory::dump"), ("dump command", "src/core/cmd.src/cmd_uc.cc:cl_dump_cmd")],
     ["text of each dump", "cells before and after", "cells after loading back"],
     "runtime monitor: independent parser of the dump texts compared with the cells, and load-back round trip",
     "Shares the memories of C07; reverse dumps and bit/variable annotated dumps are not judged.")
core("C09", "Disassembly agrees with the code and with execution",
     "For every code sequence on every processor: the instruction length is between 1 and 8 units; the disassembly is a non-empty printable text which depends only on "
     "the bytes of that instruction and is the same each time; measuring, disassembling and classifying an instruction changes nothing; "
     "consecutive disassembly by the dc command lists addresses that advance by exactly these lengths; and for instructions that do not jump, "
     "execution consumes exactly as many units as the disassembly says.",
     ["inputs"],
     "every opcode and operand encoding of every processor type, at any address",
     "Thousands of table entries; no test disassembles.",
     ["src/core/sim.src/uc.cc", "src/core/cmd.src/dump.cc", "src/sims"],
     [("table lookup", "src/core/sim.src/uc.cc:inst_length"), ("disassembly tables", "src/sims/z80.src/glob.cc"), ("listing", "src/core/cmd.src/dump.cc:cl_dc_cmd"), ("text", "src/sims/s51.src/uc51.cc:disassc")],
     ["length, text, machine state, program counter after execution"],
     "runtime monitor over random encodings on every processor type, checked for internal consistency and against the real execution",
     "All 55 processor types; unknown opcodes are only required to have a sane length.")

FAMS = {"C10A": ("Intel", "MCS-51, MCS-48 and 8080/8085 families", ["src/sims/s51.src", "src/sims/i8048.src", "src/sims/i8085.src"]),
        "C10B": ("Zilog-like", "Z80, Rabbit, TLCS-90/870 and F8 families", ["src/sims/z80.src", "src/sims/rxk.src", "src/sims/tlcs.src", "src/sims/f8.src"]),
        "C10C": ("Motorola and MOS", "6800, 6809, 68HC08, 68HC11, 68HC12 and 6502 families", ["src/core/motorola.src", "src/sims/m6809.src", "src/sims/m68hc08.src", "src/sims/m68hc12.src", "src/sims/mos6502.src"]),
        "C10D": ("other", "AVR, STM8, ST7, Padauk, PicoBlaze, P1516/P2223 and OISC families", ["src/sims/avr.src", "src/sims/stm8.src", "src/sims/st7.src", "src/sims/pdk.src", "src/sims/pblaze.src", "src/sims/p1516.src", "src/sims/oisc.src"])}
for k, (nm, fams, files) in FAMS.items():
    core(k, "No program can break the simulators of the %s families" % nm,
         "For every content of the code and data memories and every processor and peripheral state of the %s: executing instructions, letting peripherals run, "
         "disassembling and printing registers never accesses memory outside of the simulator's objects, never performs an operation undefined in C++, "
         "never crashes or hangs, and leaves the program counter a valid code address." % fams,
         ["inputs"],
         "every byte sequence as program, any data, any values written to peripheral registers",
         "Random garbage in registers and illegal opcodes reach table lookups, shifts and array indices no test uses.",
         ["src/core/sim.src/uc.cc", "src/core/sim.src/mem.cc"] + files,
         [("instruction dispatch", "src/core/sim.src/uc.cc:exec_inst_tab"), ("memory access", "src/core/sim.src/mem.cc:cl_address_space"), ("processors", files[0])],
         ["sanitizer reports", "program counter after each instruction"],
         "AddressSanitizer and UndefinedBehaviorSanitizer under random programs that reach all peripherals through the memory map",
         "Integer overflow in unsigned arithmetic is defined and not reported; vptr checking is off.")
isa("I04", "6502 and 65C02 instructions behave as the data sheets define", "the NMOS 6502 and the 65C02 (documented opcodes; decimal mode as documented; NMOS N, V, Z after decimal operations left out)", "mos6502",
    ["src/sims/mos6502.src/ialu.cc", "src/sims/mos6502.src/mos6502.cc", "src/sims/mos6502.src/mos6502cl.h"],
    [("arithmetic and flags", "src/sims/mos6502.src/ialu.cc"), ("addressing modes", "src/sims/mos6502.src/mos6502cl.h"), ("dispatch", "src/sims/mos6502.src/mos6502.cc:exec_inst")],
    "Zero page indexing wraps within page zero, and the stack within page one.")

core("C06", "Console expressions are evaluated as the C operators they are written with",
     "Every syntactically valid console expression yields the value its operators define: C precedence, associativity and left to right "
     "effects, on 64 bit integers with memory operands read as non-negative numbers of the width of their memory, (int) as sign extension "
     "from that width, bit and bit-range operands as the selected bits, and numbers and character constants in every documented base; "
     "assignments, increments and bit assignments change exactly the designated cell or bits, truncated to its width, and yield the stored "
     "value; the result is printed as each /format letter defines; dividing by zero and any text that is not an expression is answered with an error, "
     "changes nothing, and leaves the evaluation of later expressions right. It does not depend on the form (expression command, bare line, "
     "script or condition evaluation) the text arrives in.",
     ["inputs", "histories"],
     "every expression tree over numbers, cells, bit fields and variables of every memory width, printed in any legal way; any memory content; "
     "any broken text",
     "No stable test evaluates an expression; conditions, scripts and displays rely on it with arbitrary operands.",
     ["src/core/cmd.src/cmdpars.y", "src/core/cmd.src/cmdlex.l", "src/core/cmd.src/newcmd.cc", "src/core/cmd.src/command.cc", "src/core/utils.src/app.cc", "src/core/cmd.src/cmdutil.cc"],
     [("grammar and operators", "src/core/cmd.src/cmdpars.y"), ("numbers, characters, names", "src/core/cmd.src/cmdlex.l:uc_yy_check_id"), ("result formats", "src/core/cmd.src/newcmd.cc:print_expr_result")],
     ["value returned by the evaluator", "printed results", "memory cells and variables after each evaluation"],
     "runtime model-based monitor (tree evaluator) over random expressions fed to the real console, plus AddressSanitizer",
     "&&, || and ?: evaluate both sides in this language, so effects inside their operands are not generated; shift counts outside of 0..63 and named bit variables are not judged.")

core("C12", "Reset leads to the defined state whatever happened before",
     "After any history - programs executed, registers written, devices clocked, interrupts in service - reset gives every register and device register that has a "
     "reset value exactly that value, sets the program counter from the start address or reset vector, returns the processor to the running state, clears the clock, instruction and "
     "access counters, the interrupt levels in service and the recorded stack operations, and leaves no other trace: the program that follows runs exactly as it runs in an untouched "
     "simulator whose memory and unreset registers hold the same values.",
     ["histories", "inputs"],
     "every history before the reset, every memory content, all 55 processor types",
     "A test starts from a fresh simulator; what survives a reset depends on what happened before it (prefix state, pending requests, nested interrupts, bank registers).",
     ["src/core/sim.src/uc.cc", "src/sims/z80.src/z80.cc", "src/sims/s51.src/uc51.cc", "src/sims/mos6502.src/mos6502.cc", "src/sims/rxk.src/rxk.cc", "src/sims/stm8.src/stm8.cc", "src/core/motorola.src"],
     [("common reset", "src/core/sim.src/uc.cc:cl_uc::reset"), ("device reset", "src/core/sim.src/hw.cc:cl_hw::reset"), ("reset of SFRs", "src/sims/s51.src/uc51.cc:clear_sfr")],
     ["named registers, counters and small memories after the reset command", "machine state at four points of the following run"],
     "runtime differential monitor: reset after a random history vs an untouched fork of the same simulator, and a table of reset values",
     "Reset values (783 register/type pairs, conf/reset.txt) were recorded from the repaired tree and reviewed against the manuals where those define them. The run after reset is compared on the 16 types "
     "whose state is all defined by reset (with the other devices disconnected).")

core("C19", "Memory and variable commands do exactly what they name",
     "For every memory, address, range, data list and name: set memory writes the given words (or only the given bits of one cell) and nothing else; fill writes exactly the cells of the range that exist; "
     "where and Where list exactly the places where the data occurs, hole exactly the areas filled with the value, and neither changes anything; memory cell shows the chip cell the address is decoded to; "
     "after any sequence of var and rmvar every defined name, and no other, designates the cell (and bits) it was last given, in info variables, in expressions, in set memory and by address.",
     ["inputs", "histories"],
     "all memories and widths, addresses including the ends, data lists mixed of numbers and strings, and histories of names",
     "Tests use none of these commands.",
     ["src/core/cmd.src/cmd_set.cc", "src/core/cmd.src/cmd_uc.cc", "src/core/cmd.src/cmd_mem.cc", "src/core/cmd.src/cmd_info.cc", "src/core/sim.src/mem.cc", "src/core/sim.src/var.cc", "src/core/sim.src/arg.cc"],
     [("set memory", "src/core/cmd.src/cmd_set.cc:cl_set_mem_cmd"), ("search", "src/core/sim.src/mem.cc:search_next"), ("fill, hole, var", "src/core/cmd.src/cmd_uc.cc:cl_fill_cmd"), ("name tables", "src/core/sim.src/var.cc:cl_var_list")],
     ["all cells of all memories", "both name tables", "printed texts"],
     "runtime model-based monitor: random command sequences, all cells and names compared with a model after each; again under AddressSanitizer",
     "17 memories of 8, 12, 16, 24 and 32 bits, some not starting at 0. Bit variables in expressions are not judged (they stand for the whole cell).")
core("H01", "MCS-51 timers and interrupts follow the hardware description",
     "Whatever program runs and whatever happens on the pins, timers 0, 1 and 2 of the 8052 count every machine cycle (or every 1-to-0 transition of their pin) in which their mode, run and gate "
     "bits allow it, with the width, reload, capture, down counting and overflow flags of the selected mode; external interrupts are latched on edges or follow the level as selected; an enabled request is accepted after the current "
     "instruction exactly when no service of the same or higher priority is in progress and the instruction was not RETI or a write to IE or IP, the highest priority first and then in polling order, its flag is cleared where "
     "hardware does so, the return address is pushed and the call takes two machine cycles; RETI ends the service; in idle mode the peripherals go on and an interrupt wakes the processor.",
     ["histories", "schedules", "inputs"],
     "every sequence of timer and interrupt register settings, instructions and pin changes",
     "The events of a timer program depend on the exact relative timing of overflows, pin changes, register writes and nested service; the repository's tests time one or two fixed programs.",
     ["src/sims/s51.src/timer0.cc", "src/sims/s51.src/timer1.cc", "src/sims/s51.src/timer2.cc", "src/sims/s51.src/interrupt.cc", "src/sims/s51.src/port.cc", "src/sims/s51.src/uc51.cc", "src/core/sim.src/itsrc.cc", "src/core/sim.src/uc.cc"],
     [("timers 0 and 1", "src/sims/s51.src/timer0.cc:tick"), ("timer 2", "src/sims/s51.src/timer2.cc:tick"), ("external interrupts", "src/sims/s51.src/interrupt.cc"), ("acceptance and priorities", "src/sims/s51.src/uc51.cc:do_interrupt")],
     ["timer and interrupt registers, port latches, program counter, stack, service levels and clock counter after each instruction or idle cycle"],
     "runtime lockstep monitor: real timers and interrupt logic vs a cycle-level model under random programs and pin changes",
     "A write takes effect before the cycles of its own instruction are counted, as in this simulator; the upper bits of TLx in mode 0, timer 0 mode 3 with timer 1 running, edges in the same instruction as a write of their control register, and the serial port's own timing are not judged.")

core("H02", "MCS-51 serial port sends and receives every byte once, at the programmed rate",
     "In each of the four modes of the 8052 serial port a byte written to SBUF while the transmitter is idle appears exactly once and in order in the connected output, and TI is set when its last data bit or stop bit has been sent: after "
     "8, 10 or 11 bit times, where the bit time is 12 clocks in mode 0, 64 or (SMOD) 32 clocks in mode 2, and 32 or (SMOD) 16 overflows of timer 1 or 16 overflows of timer 2 in modes 1 and 3, chosen for each direction by TCLK and RCLK; "
     "with REN set every character of the connected input is received exactly once and in order, one frame time apart at least, RI is set and SBUF reads it; without REN nothing is received. A new line character in the input is replaced by the configured sequence.",
     ["histories", "schedules", "inputs"],
     "every sequence of modes, rates, bytes and input contents",
     "The bit clock is the product of timer reload values, prescalers and mode bits changed by the program at any time; the tests run one program with one rate.",
     ["src/sims/s51.src/serial.cc", "src/sims/s51.src/timer2.cc", "src/sims/s51.src/timer1.cc", "src/core/sim.src/serial_hw.cc", "src/core/sim.src/hw.cc"],
     [("bit clock and frames", "src/sims/s51.src/serial.cc:serial_bit_cnt"), ("sending and receiving", "src/sims/s51.src/serial.cc:tick"), ("input characters", "src/core/sim.src/serial_hw.cc:get_input")],
     ["clock at which TI and RI appear relative to the SBUF write or the previous character, bytes read from SBUF against the input file, output file against bytes written"],
     "runtime monitor of a timed trace: TI/RI times judged against frame time bounds, file contents against bytes sent and received",
     "A frame may end anywhere in its last bit time plus a few machine cycles. Writing SBUF while a byte is being sent, changing the mode within a frame, the ninth bit, multiprocessor mode and terminal connections are not judged.")

core("H03", "The multiplication/division unit computes exactly",
     "For all operand values, an operation started through the registers of the 80C517 (by the documented order of writes) or XC88x (by the start bit and operation code) multiplication/division unit leaves the exact result: 32/16 and 16/16 bit "
     "quotient and remainder (signed ones truncate towards zero), 16x16 bit products, normalisation with its shift count, and logical and arithmetic shifts by the programmed number of steps; the 80C517 overflow flag is set by a division by zero, "
     "a product over 16 bits and normalising a normalised value, and cleared by other divisions and products.",
     ["inputs"], "every operand pair and operation",
     "Each operation has up to 2^48 operand combinations; the repository checks three fixed ones.",
     ["src/sims/s51.src/mdu.cc", "src/sims/s51.src/uc517.cc", "src/sims/s51.src/uc88x.cc"],
     [("operations", "src/sims/s51.src/mdu.cc:op_32udiv16"), ("80C517 write sequences", "src/sims/s51.src/mdu.cc:cl_mdu517::write"), ("XC88x commands", "src/sims/s51.src/mdu.cc:cl_mdu88x::write")],
     ["the six data registers and the control or status register read back by the program after each operation"],
     "runtime monitor of register results against arithmetic",
     "Results of a division by zero, the error flag and operation time are not judged; the direction bit means what the recorded baseline of the project's own test shows.")

core("N01", "Predefined names denote the registers and bits of the data sheets",
     "For every processor type and every predefined name (special function registers, their bits, CPU registers, halves and pairs of registers, flag bits, registers of simulated devices): the name exists, denotes the memory, address and bits "
     "that the data sheet or manual gives it, has the value of that cell in expressions, and an assignment to a register name stores exactly the bits that exist in it, is seen in every name that shares bits with it (AF, A and F; D, A and B; BCDE, BC and B ...) and in no other.",
     ["inputs"],
     "all 54 simulated processor types, all predefined names (about 4000), all values",
     "Tests use a few names only, and a wrong entry in a table of names changes nothing else.",
     ["src/sims/s51.src/uc51.cc", "src/sims/avr.src/avr.cc", "src/sims/tlcs.src/tlcs.cc", "src/sims/z80.src/z80.cc", "src/sims/rxk.src/rxk.cc", "src/sims/stm8.src/stm8.cc", "src/core/sim.src/var.cc", "src/core/sim.src/uc.cc"],
     [("SFR and bit tables", "src/sims/s51.src/uc51.cc:sfr_tabl"), ("register variables", "src/core/sim.src/uc.cc:reg_cell_var"), ("lookup", "src/core/cmd.src/cmdlex.l:uc_yy_check_id")],
     ["entries of the name table", "values of expressions", "cells of all registers"],
     "runtime monitor: the live name table compared with a table checked against data sheets; random assignments observed through all names that may share bits",
     "Names of selectors (fpp, nuof_fpp, register bank bit) are checked for place only. Names of some bits of a cell stand for the whole cell in expressions and are judged by place.")
