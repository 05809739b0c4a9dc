"""Entry points of each property's check, and the bounds within which it decides."""
BOUNDS = [
 "sqlite, flate2 and zstd are replaced by models in the symbolic build; sampled paths and every counterexample are replayed with the real libraries",
 "HashMap uses a constant hash and threads are scheduled deterministically in the symbolic build",
 "Z3 and the LLVM-IR executor in /verif/engine are trusted for 'holds', not for violations",
]
G = "selections: every extent along one axis (from 2 nodes before a block to 18 after its corner; thorough: 33), the other axes of 2 kinds, inside and outside, at 4 places including both map limits (a quarter of these combinations in quick, all in thorough), over a block and its neighbour"
T = "tables: 9 name tables x versions 25, 27, 28, 29 x whole, partial, single-node, inverted and no area, with any id of the table at 3 nodes of the block; the same with names of 300 bytes in 3 tables"
M = "selections: every extent along one axis (from 2 nodes before a block to 18 after its corner; thorough: 33 and a second block), at 4 places and along each axis, inside and outside, entries at each node of two lines along that axis; 9 name tables x versions 25, 27, 28, 29 x 5 selections with any id of the table at 3 of the nodes that hold entries; 70, 300 and 1100 entries in a block; node names of 300 bytes"
CP = "selections: every extent along one axis (up to 17 nodes beyond the corner; thorough: 32) over a row of two source blocks at 4 places up to both map limits, offsets of 6 alignments and directions (3 per axis in quick), up to 2 destination blocks per source (thorough: 8), metadata at each node of two lines"
CO = "every offset from -36 to 36 along each axis with 2 kinds of offset along the others; all pairs of 9 name tables over 4 versions and 3 areas (one of each per pair) with any id of the table in three nodes; metadata at any node along a line with any name of 2 and value of 3 bytes, any private flag, 4 versions; 8 cases at the map's limits, with offsets up to 62000; offsets that do not leave the destination on the map are C19's"
CHECKS = {
 "C03": dict(entries=["c03_key", "c03_back", "c03_refuse"], bounds="all positions with coordinates in -2048..2047; all 32-bit coordinates for refusal; no loop"),
 "C04": dict(entries=["c04_corners", "c04_area", "c04_volume", "c04_shift", "c04_blocks", "c04_list", "c04_inverse"], bounds="areas within +-31000"),
 "C06": dict(entries=["c06_area", ("c06_all", dict(tier="thorough")), "c06_table", "c06_long"], bounds=G + "; " + T),
 "C07": dict(entries=["c07_area", ("c07_all", dict(tier="thorough")), "c07_table", "c07_long"], bounds=G + "; " + T),
 "C08": dict(entries=["c08_area", ("c08_all", dict(tier="thorough")), "c08_table", "c08_long"], bounds=G + "; " + T),
 "C18": dict(entries=["c18_fill", "c18_replace", "c18_clone", "c18_overlay", "c18_shifted", "c18_long"], bounds=T + "; clone and overlay: all pairs of 9 name tables, any id of the table in three nodes"),
 "C26": dict(entries=["c26_fill", "c26_replace", "c26_param2", "c26_meta", "c26_timers", "c26_objects", "c26_setvar", "c26_inv", "c26_number", "c26_skipped", "c26_crowd"], bounds=G + "; shown numbers: every one below 3000 and 60 around each power of ten up to 10^13 and around 32 points where the rounding changes; 1, 12, 999 and 1001 unreadable blocks"),
 "C13": dict(entries=["c13_area", "c13_table", ("c13_all", dict(tier="thorough")), "c13_crowd", "c13_long"], bounds=M + ""),
 "C14": dict(entries=["c14_area", "c14_table", "c14_values", ("c14_all", dict(tier="thorough")), "c14_crowd", "c14_long"], bounds=M + "; timers with any position, timeout and elapsed time"),
 "C15": dict(entries=["c15_area", "c15_round", "c15_name", "c15_item", "c15_short", "c15_many", ("c15_all", dict(tier="thorough")), "c15_crowd", "c15_long"], bounds=M + "; an object at any position within its block along one axis; entity names of 7 to 9 and item names of 1 to 5 arbitrary bytes; any type and format byte; any length bytes or truncation; any subset of 6 objects; names of 300 bytes with one of 3 arbitrary"),
 "C16": dict(entries=["c16_area", "c16_table", "c16_vars", ("c16_all", dict(tier="thorough")), "c16_crowd", "c16_long", "c16_big"], bounds=M + "; variable names of 2, stored values of 3, new values of 2 arbitrary bytes; keys of 300 bytes, values of 70000, 400 variables"),
 "C17": dict(entries=["c17_area", "c17_table", "c17_line", "c17_rest", "c17_word", "c17_shape", ("c17_all", dict(tier="thorough")), "c17_crowd", "c17_long", "c17_big"], bounds=M + "; inventory lines with 0 to 6 arbitrary bytes at the name, after the name, or as the first word, in 5 ways of replacing; item names of 300 bytes with one of 3 arbitrary, 400 stacks, 31 lists"),
 "C05": dict(entries=["c05_any", "c05_axis", "c05_whole", "c05_filter"], bounds="every area within map bounds with 3 stored blocks at 4 places (one readable, one of 3 arbitrary bytes, one empty); every extent along each axis with 5 adjacent blocks at the map's limits and around 0; 38 blocks with every pair of two area borders"),
 "C01": dict(entries=["c01_nodes", "c01_parts", "c01_entries", "c01_long", "c01_many"], bounds="versions 25 to 29; any flags, lighting, time stamp, param1, param2 and ids of 16 nodes with 4 kinds of name tables; any two ids and names of up to 2 bytes; up to 3 objects, timers and 2 metadata entries with any positions, numbers and private flags, names and values of up to 2 bytes; 300 of each, 4096 names, timers or metadata entries, 1200 variables, 5000 objects; strings of up to 65535 and 300003 bytes while compressors take 30000 bytes at once"),
 "C02": dict(entries=["c02_cut", "c02_field", "c02_short", "c02_odd", ("c02_cut_all", dict(tier="thorough")), ("c02_field_all", dict(tier="thorough"))], bounds="a good and a bad block, both selected, for 18 uses of the 10 commands that read blocks; versions 25, 27, 28, 29; cut at 4 places in each part, or with one of 20 fields given any unreadable value, or 0 to 4 arbitrary bytes; 8 kinds of contradictory contents with any ids, positions and types"),
 "C09": dict(entries=["c09_area", "c09_offset", "c09_table", "c09_meta", "c09_edge", "c09_sparse", ("c09_all", dict(tier="thorough"))], bounds=CP + "; " + CO + "; every subset of up to 5 blocks stored or not, with any flags"),
 "C10": dict(entries=["c10_near", "c10_many", "c10_close", ("c10_shift", dict(tier="thorough"))], bounds="every offset from -20 to 20 along each axis with 3 of 9 offsets along the other axes (thorough: all), over a row of 3 blocks (6 if shifted sideways) copied onto itself; 120 blocks between the blocks copied, each looking for 8 others, so that the block cache (capacity 1024) drops what was read first, along each axis and direction, with offsets of more and of less than a block"),
 "C11": dict(entries=["c11_area", "c11_whole", "c11_table", "c11_meta", ("c11_all", dict(tier="thorough"))], bounds="selections: as C09, without offset, inside and outside (inverted), source and destination 3 blocks each; whole maps with and without area; 9x9 pairs of name tables; metadata at any node of a line"),
 "C12": dict(entries=["c12_area", "c12_offset", "c12_table", "c12_meta", "c12_whole", "c12_edge", "c12_many", ("c12_all", dict(tier="thorough"))], bounds=CP + "; " + CO + "; whole input maps of 3 blocks with 6 offsets; 140 blocks each looking for 8 others (the cache holds 1024)"),
 "C24": dict(entries=["c24_clone", "c24_overlay", "c24_shifted", "c24_short"], bounds="clone, overlay with and without offset or area: every subset of up to 5 source and destination blocks stored or not, with any flags (generated or not)"),
 "C19": dict(entries=["c19_corner", "c19_offset", "c19_invert", "c19_name", "c19_list", "c19_long", "c19_options", "c19_same", "c19_map", "c19_input"], bounds="any 32-bit extent of an area along each axis for the 11 commands with an area; any 32-bit offset with 6 areas; names of 0 to 4 arbitrary ASCII bytes, names of 301 bytes with one of 15 arbitrary, lists of 150 names with one of 5 arbitrary, 4 longer ones of which any one byte is arbitrary, and names with any one character of two bytes at any place, for 12 arguments; every combination of options that exclude or require each other; 11 kinds of missing or unsuitable map files"),
 "C20": dict(entries=["c20_fault", ("c20_many", dict(steps=2.5e9)), ("c20_more", dict(steps=2.5e9)), ("c20_most", dict(tier="thorough", steps=2.5e10))], bounds="a failure, forced rollback or death at any one operation on the databases in 16 modes of the 11 commands that change a map (3 blocks each); without failures, 300 blocks (thorough: 1100) in 14 modes, 5000 for deleteblocks and overlay"),
 "C21": dict(entries=["c21_answer", "c21_typed", "c21_yes"], bounds="16 modes and vacuum, with and without confirmation, any answer of up to 5 bytes on standard input"),
 "C22": dict(entries=["c22_rows", "c22_fault"], bounds="up to 3 blocks with any data of 0 and 6 bytes; a failure or death at any one database operation"),
 "C25": dict(entries=["c25_modes", "c25_fault"], bounds="5 modes of overlay with 2 blocks in each map and one more of arbitrary bytes in either; a failure or death at any one database operation"),
 "C23": dict(entries=["c23_corner", "c23_digits", "c23_number", "c23_wide", "c23_offset", "c23_param2", "c23_names", "c23_forms", "c23_bad"], bounds="the whole program as called, on all 12 commands: one coordinate of either corner as 1 to 5 typed digits (any digits, either sign, leading zeros) along each axis, in any order of corners; 5- to 39-digit numbers around 2^16, 2^17, 2^31, 2^32, 2^33, 2^64 and 2^128 with 2 to 4 arbitrary digits; offsets of 1 or 2 arbitrary digits; param2 of 1 to 4 arbitrary ASCII characters; names and keys with one arbitrary letter in 14 forms; 25 forms of the manual with and without area and inversion, options before or after; 12 kinds of arguments that cannot be understood, with an arbitrary character in a number"),
}
