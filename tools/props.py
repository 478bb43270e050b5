#!/usr/bin/env python3
"""Writes properties.jsonl (kept as Python for readability)."""
import json, os
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["source/" + f if not f.startswith("util") else f for f in files],
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where="source/" + b if not b.startswith("util") else b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})


prop("C01", "Running any program is memory safe and ends in a defined way",
     "Running any program whose lines the translator accepts, with any key, button and touch input, either finishes, keeps executing statements until it is interrupted, or stops with one of the documented error codes. It never crashes, aborts, hangs inside a single statement, executes undefined behaviour, or reads or writes outside the memory that belongs to the object the statement works on. (Programs that write raw memory with POKE, MEMCOPY or MEMFILL are excluded.)",
     ["programs", "inputs"], "every program built from any statements, functions and arguments of any type, sign and magnitude, on every memory configuration",
     "The unit tests run about a hundred fixed, mostly valid programs without sanitizers; argument extremes, exhausted pools and mixed statement orders are never combined.",
     ["interpreter/runner.c", "interpreter/operators.c", "interpreter/strfuncs.c", "subsystem/*.c", "system.c"],
     [("argument range macros", "interpreter/stack.h"), ("error code checked before each instruction", "interpreter/runner.c")],
     ["process exit status, sanitizer reports, error code after run"])

prop("C02", "Translating any source text is memory safe and ends with code or an error",
     "Translating any text made of carriage-return terminated lines, with any bytes in it and lines of any length, terminates and yields either whole executable instructions or a documented error; labels point at instructions. It never reads outside the text, never writes outside its own buffers and never aborts, also at the limits of every table and as the editor or start program of the system. The result depends only on the text and the options: not on earlier translations, and a wrong line does not change the code of the others.",
     ["inputs"], "every byte sequence split in lines, including unbalanced brackets, unterminated strings, over-long names and lines, and odd operators",
     "test_tokens.c translates a few dozen well-formed lines.",
     ["interpreter/tokens.c", "interpreter/label.c", "interpreter/data.c"],
     [("token table limits", "interpreter/tokens.h"), ("line length check", "interpreter/tokens.c")],
     ["translation result, sanitizer reports"])

prop("C03", "Number arithmetic is exact 20.12 fixed point or a reported error",
     "For all numbers, the arithmetic, comparison and logical operators give the documented 20.12 fixed-point result: addition and subtraction are exact, multiplication rounds down and division towards zero to the nearest 4096th, each reporting a result that does not fit as an overflow and division by zero as such, the remainder has the sign of its left operand, negation is exact modulo 2^32, AND/OR/XOR/NOT act on integer parts, comparisons give 1 or 0. No operand pair crashes the interpreter.",
     ["inputs"], "all pairs of 32-bit fixed-point operands for each operator", "test_int_operator.c checks a few pairs of small operands per operator.",
     ["interpreter/operators.c", "common.h"],
     [("64-bit intermediate products", "interpreter/operators.c")], ["value and error code of an expression"])

prop("C04", "Expressions are evaluated with the documented operator precedence",
     "Every well-formed expression evaluates to what its fully parenthesised form under the documented precedence and left-to-right associativity evaluates to, whatever mixture of unary and binary operators, parentheses, function calls, array accesses, spaces and letter case it is written with.",
     ["programs"], "all well-formed expressions that fit on a line", "Tests hold a handful of two- or three-operator expressions.",
     ["interpreter/tokens.c", "interpreter/runner.c"], [("operator priority table and output stack", "interpreter/tokens.c")], ["value of an assigned variable"])

prop("C05", "Numbers survive conversion to text and back",
     "PRINT, STR$ and HEX$ show every number by the documented rules (at most three decimals, the third being that of the fraction plus two 4096ths cut off after three decimals, trailing zeros dropped; fixed-width upper-case hexadecimal), and a numeric literal, DATA item, VAL or INPUT text is read as the representable number obtained by dropping what does not fit below a 4096th (rounding its magnitude down) or reported as an error or rejected. Any text with at most three decimals that is read as a number is shown again as the same number.",
     ["inputs"], "every 32-bit fixed-point value and every digit string that fits on a line", "test_strs.c converts about twenty numbers.",
     ["interpreter/strs.c", "interpreter/strfuncs.c", "interpreter/tokens.c"], [("digit loop conversions", "interpreter/strs.c")], ["printed text, STR$/HEX$/VAL results"])

prop("C06", "String functions compute their documented result for every argument",
     "LEFT$, RIGHT$, MID$, SUBST$, INSTR, LEN, ASC, CHR$, string concatenation, repetition and comparison return, for all strings of up to 256 characters and all positions and lengths, exactly the result of the same operation on abstract character sequences, or report the documented error; a result longer than 256 characters is always reported as too long.",
     ["inputs"], "all strings over the 256-character set and all numeric arguments including negative, fractional and oversized ones", "test_int_func.c and test_strs.c use short strings and in-range positions.",
     ["interpreter/strfuncs.c", "interpreter/strs.c", "interpreter/operators.c"], [("length checks before copying", "interpreter/strfuncs.c")], ["value and error of string expressions"])

prop("C07", "String storage is conserved and values never alias or leak",
     "After any sequence of statements, every string still reachable from a variable or array element holds exactly the value last assigned to it, and the number of occupied string slots equals the number of distinct dynamic strings still reachable; a program that keeps a bounded number of strings alive never runs out of string memory however long it runs.",
     ["histories", "programs"], "every history of string assignments, swaps, reads, sorts, clears and function results", "Tests look at single assignments in a fresh system and never at the pool after many operations.",
     ["interpreter/strs.c", "interpreter/operators.c", "subsystem/variables.c", "interpreter/stack.h", "interpreter/data.c", "interpreter/arrays.c"],
     [("use counts", "interpreter/strs.h")], ["string pool scan at quiescent points, values of variables"],
     [("uses", "number of references to a string slot", "source/interpreter/strs.h")])

prop("C08", "Every variable name and type denotes its own independent storage",
     "Variables are distinguished by their complete name and by being number, string, number array or string array; an assignment changes only the variable named, unassigned variables read as 0 or the empty string, values persist from one run to the next, and CLEAR makes all of them read as unassigned. SWAP exchanges exactly its two operands. Running out of variable slots is reported as an error and leaves existing variables intact.",
     ["programs", "histories"], "all sets of names of 1-16 characters, including colliding hashes and full tables", "test_vars.c uses three names in an almost empty table.",
     ["interpreter/vars.c", "subsystem/variables.c"], [("quadratic hash probing on name and type", "interpreter/vars.c")], ["dump of all variables"])

prop("C09", "Array elements are independent, zeroed, bounds checked and bounded in total",
     "Every element of every one- or two-dimensional array is a separate cell that starts as 0 or the empty string and keeps what was last stored, an access outside the declared (or default 10 / 10x10) size is reported as a subscript error and changes nothing, a second DIM of an array is an error, and arrays that do not fit in array memory are reported as out of memory.",
     ["programs", "inputs"], "all dimension sizes including zero, negative and huge ones, all subscripts, all creation orders", "test_arrs.c creates a few small arrays.",
     ["interpreter/arrays.c", "interpreter/vars.c", "interpreter/runner.c"], [("bump allocation of array memory", "interpreter/arrays.c")], ["array dumps and error codes"])

prop("C10", "Control flow follows the BASIC semantics for every program shape",
     "GOTO, GOSUB/RETURN, ON ... GOTO/GOSUB, FOR/TO/STEP/NEXT, IF/THEN/ELSE and END execute exactly the sequence of statements that the language definition prescribes, for all nestings and step signs, with loop bodies skipped when the start already passes the end; missing labels, RETURN without GOSUB, NEXT without FOR and excessive nesting are reported as errors.",
     ["programs"], "all programs built from nested and sequential control structures", "test_int_code.c checks isolated constructs, not nestings or long histories.",
     ["interpreter/flow.c", "interpreter/runner.c", "interpreter/tokens.c"], [("call stack of FOR and GOSUB entries", "interpreter/stack.h"), ("scan for NEXT/ELSE/ENDIF", "interpreter/program.c")], ["trace of executed statements, error code"])

prop("C11", "READ delivers every DATA item once, in order, with its value",
     "READ delivers the DATA items of the program in source order starting from the beginning or from the label of the latest RESTORE, each exactly once and with the text or number written in the source, across any mixture of quoted, unquoted and empty items and any split of items over lines and READ statements; reading past the end or a text item into a number is reported as an error.",
     ["programs"], "all layouts of DATA lines and orders of READ and RESTORE", "A few fixed READ programs are tested.",
     ["interpreter/data.c", "interpreter/tokens.c"], [("data_index and data_offset cursor", "interpreter/data.c")], ["values of the variables read"])

prop("C12", "Every label resolves to its own line",
     "A jump or RESTORE to a label written directly or computed as a string goes to the line where exactly that label is defined, for any number of labels up to the limit and any names of up to 16 characters; an undefined, empty or over-long label and a duplicate definition are reported as errors.",
     ["programs"], "all label sets, including colliding hashes, common prefixes and full tables, and all ways to name the target", "test_label.c uses a few labels.",
     ["interpreter/label.c", "interpreter/flow.c", "interpreter/tokens.c"], [("hashed label table", "interpreter/label.c")], ["trace of visited lines"])

prop("C13", "SORT and RSORT reorder arrays correctly and keep rows together",
     "SORT and RSORT leave the chosen range of the first array in ascending or descending order, apply the same permutation to the same range of every further array, and leave everything outside the range unchanged, for number and string arrays of any content and any start and length; an invalid range is reported as an error.",
     ["inputs"], "all array contents (duplicates, sorted, reversed, strings of any length), ranges and numbers of companion arrays", "One or two arrays are sorted in the tests.",
     ["interpreter/data.c", "subsystem/variables.c"], [("in-place quicksort", "interpreter/data.c")], ["array contents after SORT"])

prop("C14", "The text console shows exactly what was printed",
     "After any sequence of PRINT, LOCATE, COLOR, CLS and TABSTEP changes, the 32x24 cells of the console, their colours and the cursor position are what a simple screen model gives: text is written left to right with wrap and scroll, commas advance to tab stops, semicolons suppress the line break, and CHKCHR and CSRX/CSRY report the same cells and position.",
     ["histories", "inputs"], "all sequences of console statements with any characters, positions and colours", "test_console.c prints a few strings on an empty screen.",
     ["subsystem/console.c"], [("con_put/con_advance/con_newline", "subsystem/console.c")], ["console cell dump, CHKCHR results"])

prop("C15", "Graphics statements change exactly the specified pixels",
     "GPSET, GLINE, GBOX, GFILL, GCIRCLE, GPAINT, GPUTCHR, GCOPY and GCLS change exactly the pixels of the current drawing page that lie on the described shape and inside the 256x192 page, to the given or current colour (or, for pixels, lines, boxes, fills, circles and characters in exclusive-or mode, toggled exactly once), never another page, and GSPOIT reads back the stored colour.",
     ["inputs", "histories"], "all coordinates including off-screen and huge ones, colours, pages and drawing modes", "test_graphics.c checks a few in-range shapes.",
     ["subsystem/graphics.c", "subsystem/graphics.h"], [("clipping in grp_pixel", "subsystem/graphics.h")], ["pixel dump of all pages"])

prop("C16", "Background statements change exactly the specified tiles",
     "BGPUT, BGFILL, BGCOPY and BGCLR change exactly the tiles named on the selected screen and layer only (BGPUT and BGREAD coordinates wrap around the 64x64 layer, BGFILL and BGCOPY corners are limited to it in any order, and copied tiles that would lie outside are left out); BGREAD returns what was put in every notation; BGOFS moves linearly and arrives exactly at its target after the given number of frames, and BGPAGE and BGCLIP affect only the selected screen.",
     ["inputs", "histories"], "all tile coordinates, layers, notations and interleavings with frame steps", "test_background.c writes a few tiles.",
     ["subsystem/background.c"], [("bg_index tile addressing", "subsystem/background.c")], ["tile dumps, BGREAD results, offsets after n frames"])

prop("C17", "Sprites keep, move and animate exactly as commanded",
     "Each sprite statement changes only the named sprite of the selected screen; position, angle and scale interpolate linearly and reach exactly their targets after the given number of frames, animations show each image for the given time and number of loops, SPREAD, SPGETV and SPCHK report the current state, and operations on sprites that are not set are reported as errors or ignored as documented.",
     ["histories", "inputs"], "all interleavings of sprite statements with frame steps on both screens", "test_sprite.c checks a few single statements.",
     ["subsystem/sprites.c", "subsystem/sprites.h"], [("step_sprites per-frame update", "subsystem/sprites.c")], ["sprite state dump after every frame"])

prop("C18", "Sprite collision results match the geometry of the hit boxes",
     "SPHIT and SPHITSP report a collision exactly when two active sprites of the selected screen whose masks share a bit have overlapping or touching collision rectangles (position plus SPCOL offset and size, multiplied by the scale when the scale flag is set, swept along the relative movement of the pair), independently of the order in which they were defined; after SPHIT, SPHITNO names the sprite that was hit.",
     ["inputs", "histories"], "all placements, sizes, masks, scales and velocities of sprite pairs and groups", "One collision example is tested.",
     ["subsystem/sprites.c"], [("is_hit rectangle test", "subsystem/sprites.c")], ["SPHIT/SPHITSP/SPHITNO values"])

prop("C19", "Character and colour data read back exactly and stay in their own slot",
     "CHRSET stores exactly the 64 pixels given for the named character and CHRREAD returns them, COLSET stores the RGB colour at 5 bits of red and blue and 6 of green and COLREAD returns it scaled back to 8 bits, for every bank, character and colour number of both screens; no other character or colour changes, and invalid names, numbers or texts are reported as errors and change nothing.",
     ["inputs"], "all resource names, indexes and hexadecimal texts", "Single characters and colours are written in the tests.",
     ["subsystem/resources.c"], [("resource name parsing", "subsystem/resources.c")], ["bank dumps, CHRREAD/COLREAD results"])

prop("C20", "Saved resources load back identically",
     "SAVE followed by LOAD of the same resource type and name reproduces programs, characters, screens, graphics, colours and MEM$ exactly, sets RESULT accordingly, leaves all other resources unchanged, and APPEND and EXEC combine and start exactly the stored program text.",
     ["histories", "inputs"], "all resource types, banks, names and contents", "test_resources.c loads one prepared file of some types and never round-trips.",
     ["subsystem/resources.c", "interpreter/program.c", "extension/compress.c"], [("header with type and size", "header.h"), ("check_load_res", "subsystem/resources.c")], ["file bytes and resource dumps after LOAD"])

prop("C21", "File statements are confined and survive missing or malformed files",
     "No file statement reads or writes anything outside the program directory, whatever name it is given, and LOAD, APPEND, EXEC and FILES of missing, truncated, mistyped, corrupted or oversized files report failure or a documented error without crashing, overrunning memory or leaking file handles; a refused file changes at most the resource it was meant for, and a failed APPEND nothing at all.",
     ["inputs", "fault_sequences"], "all file name strings and all file contents", "Tests only load well-formed files.",
     ["subsystem/resources.c", "system.c", "interpreter/program.c", "extension/compress.c"], [("name verification before path creation", "subsystem/resources.c")], ["directory listing outside and inside the program directory, exit status, open descriptors"])

prop("C22", "Typed keys reach INKEY$ exactly once, in order, across threads",
     "Every key accepted by the key buffer is returned by INKEY$ exactly once and in typing order while the display thread types and the program thread reads concurrently; when the buffer is full further keys are rejected instead of overwriting, and the shared clock and button state are updated without data races.",
     ["schedules", "histories"], "all interleavings of key producer, program and frame timer, with bursts up to and beyond the buffer size", "Tests type and read from one thread.",
     ["subsystem/input.c", "timers.c"], [("ring buffer guarded by a mutex", "subsystem/input.c"), ("atomic frame counter", "timers.c")], ["sequence numbers of accepted and returned keys, ThreadSanitizer reports"])

prop("C23", "Buttons and touch report press, repeat and release frames correctly",
     "For every history of per-frame button and touch states, BUTTON in each mode, BTRIG and TCHST/TCHX/TCHY/TCHTIME report exactly the buttons held, newly pressed, repeating with the delays set by BREPEAT, or released in the current frame, each button independent of the others.",
     ["histories"], "all per-frame button masks, repeat settings and query modes", "test_input.c plays one or two short button histories.",
     ["subsystem/input.c"], [("per-button frame counters", "subsystem/input.c")], ["BUTTON()/BTRIG()/TCH* values per frame"])

prop("C24", "The panel keyboard types exactly the key that is touched",
     "Touching and releasing the panel keyboard enters the character, function-key text or control code of the touched key under the current keyboard type and shift state exactly once per press or repeat, and never anything for areas without a key; KEY, ICONSET, ICONCLR, PNLTYPE and PNLSTR change only the function key, icon, panel or text cells they name and reject invalid arguments.",
     ["histories", "inputs"], "all touch coordinates, keyboard types, shift states and touch histories", "The panel has no unit test of key presses.",
     ["subsystem/panel.c"], [("press_key state machine", "subsystem/panel.c")], ["keys read with INKEY$, panel state dump"])

prop("C25", "Compressed data decompresses to the original bytes",
     "Compressing any byte block with either compressor and decompressing the result yields exactly the original bytes for every data size and content, neither direction writes outside its output buffer, and malformed compressed data is rejected without overrunning memory.",
     ["inputs"], "all byte blocks of any size and entropy, all corruptions of compressed blocks", "Compression has no unit test.",
     ["extension/compress.c"], [("bit packing with table", "extension/compress.c")], ["round-trip comparison, guarded output buffers"])

prop("C26", "Protected memory access stays inside the interpreter's memory",
     "With memory protection on (MEMSAFE set), PEEK, POKE, MEMCOPY, MEMFILL and ADDR in all their widths only ever read or write whole items inside the interpreter's memory block and report every other address, size, offset, overlap or name as an error; accepted accesses return or change exactly the addressed bytes.",
     ["inputs"], "all addresses, sizes, values and resource names", "No test uses the memory extension at its limits.",
     ["extension/sbc_memory.c", "extension/sbc_blockalloc.c"], [("address range checks", "extension/sbc_memory.c")], ["memory block contents, error codes"])

prop("C27", "INPUT and LINPUT deliver exactly what was typed and edited",
     "INPUT and LINPUT return the text that results from applying the typed characters and editing keys in order, INPUT splits it at commas, converts numbers and asks again when fields are missing or not numeric, the prompt and the echo appear on the console, and after an accepted line every variable of the statement, and no other, holds the corresponding part of that line.",
     ["inputs", "histories"], "all key sequences, prompts and variable lists", "A few fixed key sequences are tested.",
     ["subsystem/console.c"], [("shared_input line editor", "subsystem/console.c")], ["variable values and console cells after input"])

prop("C28", "Translation options and layout do not change what a program does",
     "A program behaves identically whether translated with name-based or numbered variables, and whether its keywords are written in upper or lower case, its statements are on one line separated by colons or on separate lines, and with any amount of optional blanks and comments.",
     ["programs", "configurations"], "all programs and all combinations of translation options and layout", "Few tests run with numbered variables, none compares.",
     ["interpreter/tokens.c", "interpreter/runner.c"], [("variable id assignment at translation", "interpreter/tokens.c")], ["final variables, console and error of both variants"])

prop("C29", "An error or a finished program leaves no trace in the next run",
     "Each run starts with a cleared error, empty call and value stacks and DATA at the first item, whatever happened before: a program gives the same result after any history of failed or interrupted programs as in a fresh system with the same variables, and ERR reports the error code of the last failed run.",
     ["histories", "programs"], "all sequences of failing and succeeding programs in one session", "Every test creates a fresh system per program.",
     ["interpreter/runner.c", "system.c", "interpreter/vars.c"], [("state reset at start of run", "interpreter/runner.c"), ("token_and_run", "system.c")], ["result of a probe program after a history"])

prop("C30", "Conversion of Petit Computer ROM resources is faithful and bounded",
     "The resource converter copies exactly the pixel and palette payload of every well-formed input file behind the correct header of the target type, and rejects missing, truncated or foreign files without crashing or reading outside them.",
     ["inputs", "fault_sequences"], "all well-formed and malformed input files", "The converter has no test.",
     ["util/ntr_to_ptc.c"], [("format magic checks", "util/ntr_to_ptc.c")], ["output file bytes, exit status"])

prop("C31", "Mathematical functions are accurate over the whole number range",
     "SIN, COS, TAN, ATAN, EXP, LOG, POW, SQR, RAD, DEG, PI, ABS, SGN and FLOOR return the mathematically correct value for every argument in their domain, to within the fixed-point resolution (POW to within single precision, RAD and DEG with PI() for the circle constant), and report an error outside it or when the result does not fit; RND of a positive number returns an integer not below zero and below it.",
     ["inputs"], "all 32-bit fixed-point arguments", "test_math.c and test_int_math.c check a few arguments per function.",
     ["interpreter/mathptc.c"], [("double precision evaluation", "interpreter/mathptc.c")], ["function values and error codes"])

prop("C32", "System variables report the true state and protect read-only ones",
     "Every system variable reports the current state of what it names (time and date, frame counter, free memory, program name, cursor, tab step, touch, function key, icons, error), writable ones take effect within their documented range, and an attempt to assign to a read-only one is reported as an error and changes nothing; DTREAD and TMREAD split a date or time text into its fields exactly or report an error.",
     ["histories", "inputs"], "all system variables in all assignment contexts, all date and time texts", "A few system variables are read once in the tests.",
     ["subsystem/sysvars.c", "subsystem/console.c", "subsystem/panel.c", "interpreter/tokens.c", "interpreter/runner.c", "interpreter/strfuncs.c"], [("validation instruction after assignment", "interpreter/tokens.c")], ["values of system variables before and after each statement"])

prop("C33", "The PC display shows every layer faithfully and up to date",
     "Every frame the PC display draws shows, at each dot of both screens, the topmost opaque one of cursor or icons, console text and its background colour, panel text, keys and background, sprites, backgrounds and graphics in the documented priority order, each at its position, offset, rotation, scale and flip and in the colours of its palette, and only those layers VISIBLE and the panel type enable (an operand left out of VISIBLE keeps its layer as it was); a character, palette, screen or graphics resource changed by any statement or file is shown changed from the next frame on. Drawing changes no state the program can see and holds no more resources after each frame than before.",
     ["histories", "inputs"], "all display states reached by any statement history, all dots", "Rendering has no test.",
     ["graphics/pc/display_pc.c", "graphics/pc/sprite.c", "graphics/pc/tilemap.c", "graphics/pc/graphic.c", "resources/bgsp.frag", "system.c", "subsystem/panel.c", "subsystem/resources.c"],
     [("textures regenerated only when marked", "graphics/pc/display_pc.c"), ("layers drawn from the lowest priority up", "graphics/pc/display_pc.c"), ("pressed keys moved and moved back while drawing", "subsystem/panel.c")], ["window contents"])

prop("C34", "The interactive prompt runs each entered line once and always comes back",
     "At the prompt, each line entered is executed exactly once, completely up to its first error, on the variables, program memory and files that the lines before left, and is followed by one result line which names its outcome (OK or its error, with the missing label's name); stopping the prompt or a running program with SELECT executes nothing again, is reported, and returns to the prompt; no loop or subroutine of an earlier line or program is still open for a later one. Started with a program name, the system runs that program, or reports that it cannot be loaded, before the first prompt. Lines typed while a program runs are executed afterwards, in order. The session ends only when the system is shut down.",
     ["histories", "inputs", "schedules"], "all sequences of entered lines, stops and programs", "The prompt has no test.",
     ["system.c", "interpreter/runner.c", "subsystem/console.c"], [("error state and call stack reset between executions", "system.c"), ("prompt result taken from the variable CODE$", "system.c")], ["console contents, variables and program memory after a session"])
prop("C35", "Everything done at the PC window reaches the program once and in order, and closing it ends the program",
     "The PC program (main.c) delivers each typed character (ASCII in keyboard mode, kana in both modes) to the running program exactly once and in the order typed, ignores what BASIC has no character for, and delivers every byte of an inputs file likewise. The keys of resources/config.txt act as the BUTTON() bits of the current key mode, and one press of the mode key switches the mode once. A mouse press on the lower half of the window, of any size, is a touch at the dot under it, and ends with the button or when the mouse leaves it. Each frame advances the clock, sprites and backgrounds by one step. A program named on the command line is started. Closing the window ends the program, whatever it is doing, and the process exits normally.",
     ["inputs", "schedules", "histories"], "all sequences of window events, window sizes, key assignments, inputs files and closing moments", "main.c has no test.",
     ["main.c", "subsystem/input.c", "system.c"], [("window events become program input in the frame loop", "main.c"), ("shutdown request to the program thread", "main.c")], ["console contents written by a program which reports what it receives", "end of the process after closing"])

prop("C36", "Default state is restored exactly: at start, by CHRINIT, COLINIT and ACLS",
     "After the start every character bank and palette holds its default resource file and all else is empty. CHRINIT and COLINIT bring exactly the named bank, palette or single colour back to its default and change nothing else; an invalid name, or a default file that is missing, is reported and changes nothing (a file that exists in either container format is accepted). ACLS returns console, panel, graphics, backgrounds, sprites, palettes, characters and layer visibility to the state of a fresh system, whatever they were, and keeps the running program, its open loops and subroutines, its DATA position, variables and MEM$ as they were.",
     ["histories", "inputs"], "all histories of screen and resource statements before a reset, all names, all sets of default files", "The tests run without the default files, and none looks at a whole bank after a reset.",
     ["subsystem/resources.c", "system.c", "subsystem/panel.c"], [("ACLS runs BASIC statements inside a program", "system.c"), ("default file chosen by resource name", "subsystem/resources.c")], ["all character, colour, screen and graphics banks; console, sprite, background, panel and graphics state"])

prop("C37", "WAIT and VSYNC last exactly the frames asked for",
     "WAIT n and VSYNC n continue exactly floor(n) frames later (at once for zero and below), for every n and every value of the frame counter; everything that moves goes on in step meanwhile, one step for each frame, and SELECT ends the program within the frame it is pressed in.",
     ["inputs", "schedules"], "all waiting times, all moments of interruption, all counter values", "No test waits.",
     ["system.c", "timers.c", "subsystem/sysvars.c"], [("wait loop against the frame counter", "system.c")], ["MAINCNTL before and after, frames shown, positions of sprites"])

prop("C38", "Work done again and again uses nothing up",
     "Running the same program, entering the same lines at the prompt, or loading, appending, saving and listing files any number of times, succeeding, failing or interrupted, leaves the heap, the block allocator and the open files and directories as after the first time: a session can go on for ever.",
     ["histories", "fault_sequences"], "all repetitions of all statements, files and failures", "Each test ends after one run.",
     ["subsystem/resources.c", "system.c", "interpreter/program.c", "extension/sbc_blockalloc.c", "interpreter/runner.c"], [("block allocator which never frees", "extension/sbc_blockalloc.c"), ("each failure path closes its file", "subsystem/resources.c")], ["allocated bytes, allocator use, open descriptors after each repetition"])

prop("C39", "Statements, functions and operators accept exactly their documented forms",
     "A statement, function, operator, assignment target or array subscript is accepted with exactly the documented numbers and types of arguments (numbers, strings, variables where a result is stored, labels; VISIBLE keeps what is left out); any other form - an argument too many, missing, left empty or of the wrong type, a value stored in a read-only system variable or in an expression - is refused with an error when it is reached, after everything before it was done. This does not depend on how the arguments are written or on where in a line the statement stands: alone, behind or before others, or in either branch of an IF.",
     ["inputs"], "all statements and functions, all argument lists, all positions in a line", "The tests use a few correct statements and hardly any wrong one.",
     ["interpreter/tokens.c", "interpreter/runner.c"], [("format tables and check_cmd", "interpreter/tokens.c"), ("commas and argument counts in tok_eval", "interpreter/tokens.c")], ["acceptance of each line by the translation", "error and variables when a refused line is reached"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
