#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

MB = "src/map_block/map_block.rs"
DBROWS = "the rows of the map database after the run, decoded by an independent mapblock reader"

p("C01", "Reading and rewriting a mapblock loses nothing",
  "For every well-formed mapblock of a supported version (25 to 29), reading it and writing it back gives a block of the same version with the same flags, lighting, timestamp, node names, param1, param2, objects, node timers and node metadata (variables, their private flags where the version stores them, and inventories), whatever the lengths of the strings in it and however the compressor takes the data. The only thing that may disappear is a metadata entry that has no variables and no inventory lists.",
  ["inputs"], "every mapblock content and version, every string length, every way the output sink may accept fewer bytes than offered",
  "The tests round-trip three fixed blocks and short strings into an in-memory cursor; they never vary field values, never combine versions with metadata versions and never write into a sink that takes part of the data.",
  [MB, "src/map_block/mod.rs", "src/map_block/metadata.rs", "src/map_block/static_object.rs", "src/map_block/node_timer.rs", "src/map_block/name_id_map.rs", "src/map_block/node_data.rs"],
  [("MapBlock::deserialize / MapBlock::serialize", MB), ("length-prefixed strings", "src/map_block/mod.rs"), ("metadata list versions 0/1/2", "src/map_block/metadata.rs")],
  ["MapBlock::serialize output decoded by an independent reader", DBROWS])

p("C02", "Unreadable mapblocks are skipped, untouched, and do not stop a run",
  "Whatever bytes are stored as a block (truncated, unsupported version or sub-version, bad widths, bad lengths, inconsistent contents), an editing command still runs to completion. Every block it cannot interpret is left byte for byte as it was and is counted as skipped, and every other selected block is edited as if the bad one were absent.",
  ["inputs"], "all byte strings a row may hold, up to the stated size, next to a good block, for the block-editing commands",
  "The tests flip seven chosen bytes of one version-28 block and only look at the decoder; no test runs a command over a bad block, and no list of chosen bytes covers all truncations and field values.",
  [MB, "src/map_block/metadata.rs", "src/map_block/mod.rs", "src/commands/fill.rs", "src/block_utils.rs", "Manual.md"],
  [("error returns of the decoders", "src/map_block/"), ("inc_failed and continue in each command", "src/commands/*.rs"), ("length check before reading a string", "src/map_block/mod.rs")],
  [DBROWS, "whether the run completes", "the number of skipped blocks"])

p("C03", "Block positions and database keys correspond one to one",
  "A block position with each coordinate in -2048..2047 has the database key x + 4096*y + 16777216*z, distinct positions have distinct keys, and turning a key back gives exactly the position it came from. A coordinate outside that range is refused instead of being given another block's key.",
  ["inputs"], "all 2^36 block positions and the keys made from them",
  "The unit test lists sixteen positions; carries between the three packed coordinates depend on every sign and boundary combination.",
  ["src/spatial/vec3.rs"], [("block key conversions", "src/spatial/vec3.rs"), ("in-block u16 index conversion", "src/spatial/vec3.rs")],
  ["Vec3::to_block_key", "Vec3::from_block_key", "Vec3::from_u16_key"])

p("C04", "Area arithmetic agrees with the set of nodes the area denotes",
  "For any two opposite corners within map bounds and any block, the computed area, intersection, node containment, block containment, block contact, overlap with a block (absolute and block-relative), ranges of contained and touched blocks, and volume are exactly those of the set of nodes in the box. Listing an area visits each of its nodes exactly once, and listing the rest of a block visits exactly the other nodes of that block.",
  ["inputs"], "all corner pairs and offsets in map bounds, all block positions; iteration over all sub-boxes of a block in the stated shapes",
  "The tests use a handful of boxes; rounding toward negative infinity, off-by-one edges and the empty contained range differ per sign and alignment on each axis.",
  ["src/spatial/area.rs", "src/spatial/mod.rs", "src/spatial/vec3.rs"], [("Area methods", "src/spatial/area.rs"), ("InverseBlockIterator", "src/spatial/mod.rs")],
  ["return values of the Area operations and iterators"])

p("C05", "deleteblocks removes exactly the mapblocks fully inside or outside",
  "deleteblocks deletes every stored mapblock that lies entirely within the given area, or with --invert every stored mapblock that lies entirely outside it, whatever its contents. Every other stored mapblock remains, byte for byte.",
  ["inputs"], "all areas, both selection modes, all positions of the stored blocks",
  "No test runs the command or the block selection it is built on.",
  ["src/commands/delete_blocks.rs", "src/utils.rs", "src/spatial/area.rs"], [("query_keys block range", "src/utils.rs"), ("contained/touching block ranges", "src/spatial/area.rs")],
  ["the rows of the map database after the run"])

p("C06", "fill sets exactly the selected nodes and nothing else",
  "After fill, every node of a stored generated mapblock that is inside the area (outside it with --invert) has the given name, and every other node keeps its name. param1, param2, metadata, objects, timers, flags and timestamp of all blocks are unchanged, as are blocks that are not generated or hold no selected node.",
  ["inputs"], "all areas and both selection modes relative to a block, block contents with repeated, missing or already present fill node, every block version",
  "No test runs fill; its whole-block shortcut, partial path, inverse iteration and name-table growth meet only under particular alignments.",
  ["src/commands/fill.rs", "src/block_utils.rs", "src/spatial/mod.rs", "src/utils.rs"], [("fill and fill_area", "src/commands/fill.rs"), ("clean_name_id_map", "src/block_utils.rs"), ("InverseBlockIterator", "src/spatial/mod.rs")],
  [DBROWS])

p("C07", "replacenodes renames exactly the selected nodes of the given name",
  "After replacenodes, every selected node (in the area, outside it with --invert, or anywhere if no area is given) whose name was the old name has the new name, and every other node keeps its name, whichever of the two names the block already contained and wherever they stood in its name table. param1, param2, metadata, objects and timers are unchanged.",
  ["inputs"], "all areas, modes, name-table layouts (order, unused entries, gaps) and node contents within the stated sizes",
  "No test runs it; the id shifting depends on the relative order of two ids, on whether any old node survives, and on which of three paths is taken.",
  ["src/commands/replace_nodes.rs", "src/map_block/name_id_map.rs", "src/utils.rs"], [("do_replace", "src/commands/replace_nodes.rs"), ("NameIdMap::remove_shift", "src/map_block/name_id_map.rs")],
  [DBROWS])

p("C08", "setparam2 sets param2 of exactly the selected nodes",
  "After setparam2, every selected node (in the area, outside it with --invert, or anywhere without an area; only nodes of the given name if one is given) has the given param2 value, and every other node keeps its own. Node names, param1, metadata, objects and timers are unchanged.",
  ["inputs"], "all areas, modes, optional node name, values 0 to 255, block contents within the stated sizes",
  "No test runs it; partial and whole-block paths with and without a name filter and inversion are six different code paths.",
  ["src/commands/set_param2.rs", "src/utils.rs", "src/spatial/mod.rs"], [("set_param2 and set_param2_partial", "src/commands/set_param2.rs")],
  [DBROWS])

p("C09", "clone copies nodes, params and metadata of the area to its offset",
  "After clone, every node of the destination area whose block and whose source node's block are both stored and generated has the name, param1, param2 and metadata its source node had before the command ran. Every node outside the destination area, and every destination node without a generated source, keeps its name, params and metadata; objects and timers are never changed.",
  ["inputs"], "all areas and offsets relative to block borders (per axis), contents with clashing or shared name tables, metadata present or absent on either side",
  "No test runs clone; a destination block draws on up to eight source blocks with fragments whose bounds depend on the offset modulo 16 and on its sign.",
  ["src/commands/clone.rs", "src/block_utils.rs", "src/spatial/area.rs"], [("clone", "src/commands/clone.rs"), ("merge_blocks, merge_metadata, clean_name_id_map", "src/block_utils.rs")],
  [DBROWS])

p("C10", "clone with overlapping source and destination copies the original",
  "When the source and destination of clone overlap, for any offset direction and however many mapblocks are involved, what is copied is always the content from before the command started and never content the command itself has already written.",
  ["inputs", "histories"], "all offsets, all pairs of blocks that exchange data, and chains of blocks longer than the block cache",
  "No test runs clone; a stale or overwritten read appears only for particular offset signs and only once the block cache has evicted an entry.",
  ["src/commands/clone.rs", "src/utils.rs"], [("order of destination blocks", "src/commands/clone.rs"), ("CacheMap", "src/utils.rs")],
  [DBROWS, "order of reads and writes of block rows"])

p("C11", "overlay without offset copies exactly the selection from the input map",
  "After overlay with no offset, a block fully selected and generated in the input map is byte for byte the input map's block; in a partly selected block stored and generated on both sides, selected nodes have the input map's name, params and metadata and all other nodes keep the main map's. Blocks that are not selected, or that the input map lacks or has not generated, are unchanged in the main map.",
  ["inputs"], "all areas, with and without --invert, or no area; block present, absent, or ungenerated on either side; differing versions and name tables",
  "No test runs overlay; the inverted partial case swaps the roles of the two blocks and only shows on blocks that straddle the border.",
  ["src/commands/overlay.rs", "src/block_utils.rs", "src/utils.rs"], [("overlay_no_offset", "src/commands/overlay.rs"), ("merge_blocks, merge_metadata", "src/block_utils.rs")],
  [DBROWS])

p("C12", "overlay with offset copies nodes, params and metadata to the shifted area",
  "After overlay with a non-zero offset, every node of a generated main-map block whose source position lies in the given area (or anywhere, without an area) and in a generated block of the input map has that source node's name, param1, param2 and metadata. Every other node keeps its own, no block is created, and objects and timers are never changed.",
  ["inputs"], "all offsets and areas relative to block borders (per axis), with and without area",
  "No test runs overlay with an offset; fragment arithmetic depends on offset modulo 16, sign and area clipping.",
  ["src/commands/overlay.rs", "src/block_utils.rs"], [("overlay_with_offset", "src/commands/overlay.rs"), ("merge_blocks, merge_metadata", "src/block_utils.rs")],
  [DBROWS])

p("C13", "deletemeta deletes the metadata of exactly the selected nodes",
  "deletemeta removes the metadata (variables and inventory) of every selected node: in the area, outside it with --invert, or anywhere; only of nodes with the given name if one is given. Metadata of all other nodes, and all node data, objects and timers, are unchanged.",
  ["inputs"], "all areas, modes, node filters, metadata positions and contents within the stated sizes",
  "No test runs it; node position, name filter and inversion interact.",
  ["src/commands/delete_meta.rs", "src/utils.rs", "src/map_block/metadata.rs"], [("delete_metadata", "src/commands/delete_meta.rs")], [DBROWS])

p("C14", "deletetimers deletes exactly the selected node timers",
  "deletetimers removes every node timer of every selected node: in the area, outside it with --invert, or anywhere; only of nodes with the given name if one is given. All other timers keep position, timeout, elapsed time and order, and all node data, metadata and objects are unchanged.",
  ["inputs"], "all areas, modes, node filters, timer positions and values within the stated sizes",
  "No test runs it; several timers in one block are removed while being walked.",
  ["src/commands/delete_timers.rs", "src/utils.rs", "src/map_block/node_timer.rs"], [("delete_timers", "src/commands/delete_timers.rs")], [DBROWS])

p("C15", "deleteobjects deletes exactly the selected objects",
  "deleteobjects removes every object that meets all given conditions: its position, rounded to the nearest node, is in the area (outside it with --invert); its entity name is the --obj name; with --items, it is a dropped item and, if item names are listed, its item (in plain, old or new serialized form) is one of them. All other objects, including ones of unsupported type or format when a name is required, keep their data and order, and nothing else changes.",
  ["inputs"], "all positions, entity names, item serializations and areas within the stated sizes",
  "The test covers the item name parser on eight strings; positions, inversion, filters and unsupported objects are untested.",
  ["src/commands/delete_objects.rs", "src/map_block/static_object.rs", "src/utils.rs"], [("can_delete, get_item_name", "src/commands/delete_objects.rs"), ("LuaEntityData::deserialize", "src/map_block/static_object.rs")], [DBROWS])

p("C16", "setmetavar sets or deletes the variable of exactly the selected nodes",
  "setmetavar sets the named variable to the given value, or with --delete removes it, in the metadata of every selected node that already has that variable: in the area, outside it with --invert, or anywhere; only nodes with one of the given names if any are given. The variable's private flag, all other variables, inventories and nodes, and all other block data are unchanged.",
  ["inputs"], "all areas, modes, node lists, variable names and values within the stated sizes",
  "No test runs it.",
  ["src/commands/set_meta_var.rs", "src/utils.rs", "src/map_block/metadata.rs"], [("set_meta_var", "src/commands/set_meta_var.rs")], [DBROWS])

p("C17", "replaceininv changes exactly the matching item stacks",
  "In the inventory of every selected node, replaceininv turns each stack of the given item into the new item, into an empty slot with --delete, and drops its item metadata with --deletemeta while keeping count and wear. All other stacks, list headers, widths and empty slots, and everything else in the block, stay as they were.",
  ["inputs"], "all inventory texts within the stated sizes, all combinations of new item, --delete and --deletemeta, areas, modes and node lists",
  "One fixed inventory with three option sets is tested; slot text, item-name prefixes, missing count or wear fields and node selection vary freely.",
  ["src/commands/replace_in_inv.rs", "src/utils.rs"], [("do_replace and replace_in_inv", "src/commands/replace_in_inv.rs")], [DBROWS])

p("C18", "Every block a command writes has a consistent name table",
  "In every mapblock written by fill, replacenodes, clone or overlay, each node's id has a name in the block's name table, no name appears twice, and the block can be read again. If the block was consistent before, each node not meant to change still has its own name.",
  ["inputs"], "all name tables (order, gaps, unused entries, large ids) and node contents within the stated sizes, for each of the four commands",
  "Tests only check that the name table decodes; consistency after renumbering is never checked.",
  ["src/block_utils.rs", "src/map_block/name_id_map.rs", "src/commands/replace_nodes.rs", "src/commands/fill.rs"], [("clean_name_id_map", "src/block_utils.rs"), ("remove_shift", "src/map_block/name_id_map.rs")], [DBROWS])

p("C19", "Invalid arguments are rejected before the map is touched",
  "A run whose arguments are invalid (area corner beyond map bounds, offset beyond twice the map size, --invert without an area, malformed node/item/object name, conflicting or missing options, destination entirely outside the map, missing or invalid map file) ends with an error message and leaves the map database unchanged. Valid arguments are never rejected.",
  ["inputs", "configurations"], "all areas, offsets and option combinations; names up to the stated length; every command",
  "No test calls the argument verification.",
  ["src/instance.rs", "src/commands/clone.rs", "src/commands/overlay.rs", "src/commands/set_meta_var.rs", "src/commands/replace_in_inv.rs", "src/commands/replace_nodes.rs", "src/commands/set_param2.rs", "src/commands/delete_objects.rs", "src/map_database.rs"],
  [("verify_args", "src/instance.rs"), ("per-command verify_args", "src/commands/*.rs"), ("verify_database", "src/map_database.rs")], ["logged errors", "the statements executed on the map database"])

p("C20", "A run changes the map in one transaction: all of it or nothing",
  "All changes a command makes to the map are made in one transaction that is committed once, after the last change. If any database operation fails, or the run dies at any point before that commit, the stored map is exactly what it was before the run.",
  ["fault_sequences", "crash_points"], "every position at which a database operation may fail or the process may die, for every editing command",
  "No test opens a database.",
  ["src/map_database.rs", "src/instance.rs"], [("BEGIN at open, commit_if_needed at the end", "src/map_database.rs"), ("compute_thread", "src/instance.rs")],
  ["the committed rows after a fault", "the sequence of statements executed"])

p("C21", "Nothing is changed without confirmation",
  "Unless --yes is given, the map is changed only after the user answers the prompt with y or Y; any other answer, or end of input, leaves the map database unchanged. With --yes no question is asked.",
  ["inputs", "configurations"], "all answers up to the stated length, both settings of --yes",
  "No test runs the program or the confirmation exchange.",
  ["src/cmd_line.rs", "src/instance.rs"], [("get_confirmation", "src/cmd_line.rs"), ("confirmation before func", "src/instance.rs")],
  ["the statements executed on the map database", "terminal output"])

p("C22", "vacuum changes no map data",
  "vacuum leaves every stored block byte for byte as it was, runs the database's VACUUM outside any transaction, and reports failure if that fails.",
  ["inputs", "fault_sequences"], "all stored rows within the stated sizes, and failure at each database operation",
  "No test opens a database.",
  ["src/commands/vacuum.rs", "src/map_database.rs"], [("MapDatabase::vacuum", "src/map_database.rs")], ["rows after the run", "statements executed", "logged messages"])

p("C23", "Command-line arguments reach the command as the user gave them",
  "Each documented argument form is accepted and the command acts on exactly the values given: corner coordinates and offsets with any sign and in any corner order, param2 values 0 to 255, node, item and object names and lists, keys, values and flags. Numbers that do not fit are reported as errors and nothing is changed.",
  ["inputs", "configurations"], "every command with its documented arguments; numeric arguments with symbolic digits of the stated length",
  "No test goes through the command line.",
  ["src/cmd_line.rs", "src/commands/*.rs", "Manual.md"], [("to_cmd_line_args and parse_cmd_line_args", "src/cmd_line.rs")], ["the effect of the run on the map database", "terminal output"])

p("C24", "Ungenerated mapblocks are neither copied from nor written into",
  "clone and overlay never copy from a stored mapblock that is marked as not generated, whatever its version, and never change one in the main map, except that overlay replaces it with a fully selected generated block of the input map. A block is judged not generated exactly by its own generated flag, and data too short or of unsupported version is never copied.",
  ["inputs"], "all flag bytes, versions and truncations for source and destination blocks, all overlay and clone modes",
  "The test calls the flag check on ten byte strings; whether each copy path applies it to both sides is untested.",
  ["src/commands/clone.rs", "src/commands/overlay.rs", "src/map_block/map_block.rs"], [("is_valid_generated", MB), ("get_cached filters", "src/commands/clone.rs")], [DBROWS])

p("C25", "The input map of overlay is never modified",
  "overlay opens the input map read-only and executes nothing that could change it, in every mode and also when the run fails.",
  ["inputs", "fault_sequences"], "all overlay modes, block combinations and fault positions in the stated scenarios",
  "No test runs overlay.",
  ["src/commands/overlay.rs", "src/instance.rs", "src/map_database.rs"], [("read-only open of the input map", "src/instance.rs")], ["statements executed on the input database", "its rows afterwards"])

p("C26", "Reported counts equal what was done",
  "The numbers a command reports (nodes filled or replaced, param2 values set, metadata, timers or objects deleted, variables set, stacks and nodes changed, blocks skipped) are the numbers of nodes, entries or blocks actually selected and changed, shown exactly below 1000 and otherwise rounded to three significant digits with the right unit.",
  ["inputs"], "all areas, modes and contents of the command scenarios; all count values in the stated ranges for the number format",
  "Number formatting is tested on ten values; no test looks at what a command reports.",
  ["src/commands/*.rs", "src/utils.rs", "src/instance.rs"], [("count in each command", "src/commands/*.rs"), ("fmt_big_num", "src/utils.rs")], ["log messages of the run"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
