T.update({
 "C06": (MC, "model_checking", "Every write reached by any history to the depth is reopened from both copies, from the primary alone and from the backup alone. Names and spans from a boundary set. " + TRUST),
 "C07": (MC, "model_checking", "Every successful write of every history to the depth, plus writes onto damaged, foreign and grown devices, judged by an independent UEFI reader. " + TRUST),
 "C09": (MC, "model_checking", "Every write of every history to the depth on pattern-filled devices; the allowed byte ranges are computed from the layout rules. One listed known finding (a growth that swallows a foreign first usable block cannot be refused in the API's terms). " + TRUST),
 "C10": (MC, "model_checking", "Every non-write operation and every refused write of every history to the depth, with the device's own write counter. " + TRUST),
 "C15": (MC, "model_checking", "Every refused operation of every history to the depth, over worlds built to refuse for each reason. " + TRUST),
 "C16": (MC, "model_checking", "All histories to the depth in worlds with entry counts 1 to 256, with and without permission. " + TRUST),
 "C17": (MC, "model_checking", "Every successful write of every history to the depth is repeated, and reopened and repeated. " + TRUST),
 "C08": (ENUM, "exploration", "All device sizes of a dense range for both block sizes, all pairs of builder-set limits, entry counts and locations around every boundary. Oracle: closed formulas written from the layout rules. " + TRUST),
 "C11": (FAULT, "exploration", "All single bytes/bits, sectors, pairs and runs of sectors of either copy; pairs of bits and burst patterns over both copies. Damage wider than 32 bits in both copies is not claimed (CRC32 cannot promise it). " + TRUST),
 "C19": (MC, "model_checking", "All call sequences to the depth over devices at all positions, all record and boot-code values of a boundary set, all single-byte changes of a block. " + TRUST),
 "C20": (ENUM, "exploration", "All registered types, all notations and letter cases of a bounded set, all one-edit neighbours of every GUID text. The table of types was typed in independently from the published lists. " + TRUST),
 "C21": (ENUM, "exploration", "Every byte of every field, singly and in pairs, both directions. " + TRUST),
 "C23": (ENUM, "exploration", "All pairs of boundary values of the number range and all small values. " + TRUST),
 "C24": (FAULT, "exploration", "All combinations of header and array states of both copies in four configurations, every header bit, every device length around the table. " + TRUST),
 "C12": (CRASH, "model_checking", "Every crash image of every write of the listed histories: all combinations of sector versions per flush epoch up to a limit, torn writes at byte granularity, and second crashes and repeated failed writes on small tables. A state is a device image, a transition the opening of it by the real code. " + TRUST),
 "C13": (FAULT, "exploration", "Single faults and faults from one point on at every operation of every workflow; all pairs on small tables, triples in the thorough tier. A device that stays interrupted for ever is left out (the standard library retries). " + TRUST),
 "C14": (ENUM, "exploration", "All pairs of boundary values of header fields and of entry spans under valid checksums, all small device lengths and fillings, boundary arguments of every public call, short byte slices; each opened disk is looked at, edited and written. A panic, abort, allocation above 256 MiB or a case over a minute fails. " + TRUST),
 "C22": (MC, "model_checking", "Every state of every history to the depth is cloned, copied to other devices, given another device and taken apart; each result then runs every probe next to the original, in both orders. The configuration is compared as the disk's Debug output shows it and by behaviour. " + TRUST),
 "C18": (CRASH, "model_checking", "Real files through real paths; the write and sync system calls of std::fs::File arrive in the harness, which logs them, fails each sync in turn and builds every crash image from what was not synced. A state is a file image, a transition the opening of it by the real code. " + TRUST),
 "C25": (ENUM, "exploration", "Every path-based call next to the device-based calls on the same bytes, over all contents, block sizes, configurations and programs of the list. " + TRUST),
})
T.update({
 "C26": (MC, "model_checking", "Every edit of every history to the depth against the table before it with the one change made; headers after adds with permission to grow, replacements and writes are C06-C08's and C16's matter. " + TRUST),
 "C27": (ENUM, "exploration", "Every history to depth 2 (thorough 3) of the write worlds, and every single device failure of opening, editing, writing and the direct calls, in a plain build and in a second build with both features: no listener, log, tracing, both. With one feature alone the crate is compiled, not run. " + TRUST),
 "C28": (ENUM, "exploration", "Every single device failure (once, and from there on, four kinds, a message of its own) of opening, creating, editing, writing and the direct calls; all error variants; products of boundary values of the shown fields. " + TRUST),
 "C29": (MC, "model_checking", "All setter sequences to depth 5 (thorough 6) of configurations and to depth 4 (5) of header builders over two or three values of each setting. " + TRUST),
})
